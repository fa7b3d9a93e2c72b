// P02: option words.  get after set/enable/disable is the set-algebra result on the public options; the solitary-unit
// and hash flags are independent of each other and of enable/disable.
#include "api.h"
static const size_t PUB = (1 << 7) - 1;

VF_HARNESS(set_options) {
    srcml_archive* a = arb_archive(); ArchiveObs o; size_t w = vf_u64("options"); archive_save(a, o);
    vf_assert(srcml_archive_set_options(a, w) == SRCML_STATUS_OK, "archive_set_options returns SRCML_STATUS_OK");
    vf_assert((size_t) srcml_archive_get_options(a) == (w & PUB), "archive_get_options is exactly the public options last set");
    archive_same(a, o, X_OPTIONS);
    vf_assert(srcml_archive_set_options(0, w) == SRCML_STATUS_INVALID_ARGUMENT, "archive_set_options(NULL) is refused");
    vf_reach("end");
}
VF_HARNESS(enable_option) {
    srcml_archive* a = arb_archive(); ArchiveObs o; size_t w = vf_u64("option"); archive_save(a, o);
    vf_assert(srcml_archive_enable_option(a, w) == SRCML_STATUS_OK, "archive_enable_option returns SRCML_STATUS_OK");
    vf_assert((size_t) srcml_archive_get_options(a) == ((o.options | w) & PUB), "enable adds the options given and keeps the others");
    archive_same(a, o, X_OPTIONS);
    vf_assert(srcml_archive_enable_option(0, w) == SRCML_STATUS_INVALID_ARGUMENT, "archive_enable_option(NULL) is refused");
    vf_reach("end");
}
VF_HARNESS(disable_option) {
    srcml_archive* a = arb_archive(); ArchiveObs o; size_t w = vf_u64("option"); archive_save(a, o);
    vf_assert(srcml_archive_disable_option(a, w) == SRCML_STATUS_OK, "archive_disable_option returns SRCML_STATUS_OK");
    vf_assert((size_t) srcml_archive_get_options(a) == (o.options & ~w & PUB), "disable removes the options given and keeps the others");
    archive_same(a, o, X_OPTIONS);
    vf_assert(srcml_archive_disable_option(0, w) == SRCML_STATUS_INVALID_ARGUMENT, "archive_disable_option(NULL) is refused");
    vf_reach("end");
}
VF_HARNESS(solitary) {
    srcml_archive* a = arb_archive(); ArchiveObs o; archive_save(a, o);
    bool on = vf_bool("enable");
    vf_assert((on ? srcml_archive_enable_solitary_unit(a) : srcml_archive_disable_solitary_unit(a)) == SRCML_STATUS_OK, "solitary unit switch returns SRCML_STATUS_OK");
    vf_assert((srcml_archive_is_solitary_unit(a) != 0) == on, "is_solitary_unit is the state last chosen");
    archive_same(a, o, X_SOLITARY);
    vf_assert(srcml_archive_enable_solitary_unit(0) == SRCML_STATUS_INVALID_ARGUMENT && srcml_archive_disable_solitary_unit(0) == SRCML_STATUS_INVALID_ARGUMENT, "solitary unit switch of NULL is refused");
    vf_reach("end");
}
VF_HARNESS(hash) {
    srcml_archive* a = arb_archive(); ArchiveObs o; archive_save(a, o);
    bool on = vf_bool("enable");
    vf_assert((on ? srcml_archive_enable_hash(a) : srcml_archive_disable_hash(a)) == SRCML_STATUS_OK, "hash switch returns SRCML_STATUS_OK");
    vf_assert((srcml_archive_has_hash(a) != 0) == on, "has_hash is the state last chosen");
    archive_same(a, o, X_HASH);
    vf_assert(srcml_archive_enable_hash(0) == SRCML_STATUS_INVALID_ARGUMENT && srcml_archive_disable_hash(0) == SRCML_STATUS_INVALID_ARGUMENT, "hash switch of NULL is refused");
    vf_reach("end");
}
VF_HARNESS(global_options) {
    size_t w = vf_u64("options"), e = vf_u64("enable"), d = vf_u64("disable");
    vf_assert(srcml_set_options(w) == SRCML_STATUS_OK && (size_t) srcml_get_options() == (w & PUB), "srcml_get_options is exactly the public options last set");
    vf_assert(srcml_enable_option(e) == SRCML_STATUS_OK && (size_t) srcml_get_options() == ((w | e) & PUB), "srcml_enable_option adds options");
    vf_assert(srcml_disable_option(d) == SRCML_STATUS_OK && (size_t) srcml_get_options() == ((w | e) & ~d & PUB), "srcml_disable_option removes options");
    vf_reach("end");
}
// any history of calls: the observed word is the fold of the set operations over the history
VF_HARNESS(option_history) {
    srcml_archive* a = arb_archive();
    size_t m = (size_t) srcml_archive_get_options(a); bool sol = srcml_archive_is_solitary_unit(a) != 0, hash = srcml_archive_has_hash(a) != 0;
    int n = vf_symbolic() ? 3 : vf_irange("n", 0, 12);
    for (int i = 0; i < n; ++i) {
        int k = vf_irange("op", 0, 6); size_t w = vf_u64("word");
        if (k == 6) { srcml_archive_set_options(a, w); m = w & PUB; }
        else if (k == 0) { srcml_archive_enable_option(a, w); m = (m | w) & PUB; }
        else if (k == 1) { srcml_archive_disable_option(a, w); m = m & ~w; }
        else if (k == 2) { srcml_archive_enable_solitary_unit(a); sol = true; }
        else if (k == 3) { srcml_archive_disable_solitary_unit(a); sol = false; }
        else if (k == 4) { srcml_archive_enable_hash(a); hash = true; }
        else { srcml_archive_disable_hash(a); hash = false; }
    }
    vf_assert((size_t) srcml_archive_get_options(a) == m, "history: options");
    vf_assert((srcml_archive_is_solitary_unit(a) != 0) == sol, "history: solitary flag");
    vf_assert((srcml_archive_has_hash(a) != 0) == hash, "history: hash flag");
    vf_reach("end");
}
