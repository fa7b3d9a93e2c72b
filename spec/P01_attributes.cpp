// P01: attribute getters return the value last set; nothing else changes; null objects are refused.
#include "api.h"

#define ARCH_STR(name, X) \
VF_HARNESS(archive_set_##name) { \
    srcml_archive* a = arb_archive(); ArchiveObs o; const char* s = vf_cstr_or_null("value"); \
    archive_save(a, o); \
    vf_assert(srcml_archive_set_##name(a, s) == SRCML_STATUS_OK, "archive_set_" #name " returns SRCML_STATUS_OK"); \
    vf_assert(vf_streq(srcml_archive_get_##name(a), s), "archive_get_" #name " returns the value last set"); \
    archive_same(a, o, X); \
    vf_assert(srcml_archive_set_##name(0, s) == SRCML_STATUS_INVALID_ARGUMENT, "archive_set_" #name "(NULL) is refused"); \
    vf_assert(srcml_archive_get_##name(0) == 0, "archive_get_" #name "(NULL) is NULL"); \
    vf_reach("end"); \
}
ARCH_STR(src_encoding, X_SRC_ENC)
ARCH_STR(xml_encoding, X_XML_ENC)
ARCH_STR(language, X_LANG)
ARCH_STR(url, X_URL)
ARCH_STR(version, X_VER)

VF_HARNESS(archive_set_tabstop) {
    srcml_archive* a = arb_archive(); ArchiveObs o; size_t t = vf_u64("tabstop");
    archive_save(a, o);
    bool ok = t >= 1 && t <= 2147483647u;
    vf_assert(srcml_archive_set_tabstop(a, t) == (ok ? SRCML_STATUS_OK : SRCML_STATUS_INVALID_ARGUMENT), "archive_set_tabstop accepts exactly the positive ints");
    if (ok) { vf_assert(srcml_archive_get_tabstop(a) == t, "archive_get_tabstop returns the value last set"); vf_reach("set"); }
    archive_same(a, o, ok ? X_TABSTOP : 0);
    vf_assert(srcml_archive_set_tabstop(0, t) == SRCML_STATUS_INVALID_ARGUMENT, "archive_set_tabstop(NULL) is refused");
    vf_assert(srcml_archive_get_tabstop(0) == 0, "archive_get_tabstop(NULL) is 0");
    vf_reach("end");
}
VF_HARNESS(archive_set_srcdiff_revision) {
    srcml_archive* a = arb_archive(); ArchiveObs o; size_t r = vf_u64("revision");
    archive_save(a, o);
    int s = srcml_archive_set_srcdiff_revision(a, r);
    if (r == SRCDIFF_REVISION_ORIGINAL || r == SRCDIFF_REVISION_MODIFIED) {
        vf_assert(s == SRCML_STATUS_OK, "archive_set_srcdiff_revision accepts original and modified");
        vf_assert(srcml_archive_get_srcdiff_revision(a) == r, "archive_get_srcdiff_revision returns the value last set");
        archive_same(a, o, X_SRCDIFF);
        vf_reach("valid");
    } else {
        vf_assert(s == SRCML_STATUS_INVALID_ARGUMENT, "archive_set_srcdiff_revision refuses any other revision");
        archive_same(a, o, 0);
        vf_reach("invalid");
    }
    vf_assert(srcml_archive_set_srcdiff_revision(0, r) == SRCML_STATUS_INVALID_ARGUMENT, "archive_set_srcdiff_revision(NULL) is refused");
    vf_assert(srcml_archive_get_srcdiff_revision(0) == SRCDIFF_REVISION_INVALID, "archive_get_srcdiff_revision(NULL)");
}
VF_HARNESS(archive_set_processing_instruction) {
    srcml_archive* a = arb_archive(); ArchiveObs o; const char* t = vf_cstr("target"); const char* d = vf_cstr("data");
    archive_save(a, o);
    vf_assert(srcml_archive_set_processing_instruction(a, t, d) == SRCML_STATUS_OK, "set_processing_instruction returns SRCML_STATUS_OK");
    vf_assert(vf_streq(srcml_archive_get_processing_instruction_target(a), t), "get_processing_instruction_target returns the value last set");
    vf_assert(vf_streq(srcml_archive_get_processing_instruction_data(a), d), "get_processing_instruction_data returns the value last set");
    archive_same(a, o, X_PI);
    vf_assert(srcml_archive_set_processing_instruction(0, t, d) == SRCML_STATUS_INVALID_ARGUMENT, "set_processing_instruction(NULL) is refused");
    vf_reach("end");
}
#define UNIT_STR(name, Y) \
VF_HARNESS(unit_set_##name) { \
    srcml_unit* u = arb_unit(); UnitObs o; ArchiveObs ao; const char* s = vf_cstr_or_null("value"); \
    unit_save(u, o); archive_save(u->archive, ao); \
    vf_assert(srcml_unit_set_##name(u, s) == SRCML_STATUS_OK, "unit_set_" #name " returns SRCML_STATUS_OK"); \
    vf_assert(vf_streq(srcml_unit_get_##name(u), s), "unit_get_" #name " returns the value last set"); \
    unit_same(u, o, Y); archive_same(u->archive, ao, 0); \
    vf_assert(srcml_unit_set_##name(0, s) == SRCML_STATUS_INVALID_ARGUMENT, "unit_set_" #name "(NULL) is refused"); \
    vf_assert(srcml_unit_get_##name(0) == 0, "unit_get_" #name "(NULL) is NULL"); \
    vf_reach("end"); \
}
UNIT_STR(src_encoding, Y_ENC)
UNIT_STR(language, Y_LANG)
UNIT_STR(filename, Y_FILE)
UNIT_STR(version, Y_VER)
UNIT_STR(timestamp, Y_TIME)
UNIT_STR(hash, Y_HASH)

VF_HARNESS(unit_set_eol) {
    srcml_unit* u = arb_unit(); UnitObs o; size_t e = vf_u64("eol");
    unit_save(u, o);
    int s = srcml_unit_set_eol(u, e);
    if (e == SOURCE_OUTPUT_EOL_AUTO || e == SOURCE_OUTPUT_EOL_LF || e == SOURCE_OUTPUT_EOL_CR || e == SOURCE_OUTPUT_EOL_CRLF) {
        vf_assert(s == SRCML_STATUS_OK, "unit_set_eol accepts auto, LF, CR and CRLF");
        vf_assert(srcml_unit_get_eol(u) == e, "unit_get_eol returns the value last set");
        unit_same(u, o, Y_EOL);
        vf_reach("valid");
    } else {
        vf_assert(s == SRCML_STATUS_INVALID_ARGUMENT, "unit_set_eol refuses any other value");
        unit_same(u, o, 0);
        vf_reach("invalid");
    }
    vf_assert(srcml_unit_set_eol(0, e) == SRCML_STATUS_INVALID_ARGUMENT, "unit_set_eol(NULL) is refused");
    vf_assert(srcml_unit_get_eol(0) == 0, "unit_get_eol(NULL) is 0");
    vf_assert(srcml_unit_get_loc(0) == -1, "unit_get_loc(NULL) is -1");
    vf_assert(srcml_unit_get_revision(0) == 0, "unit_get_revision(NULL) is NULL");
}
// a fresh archive / unit
VF_HARNESS(unit_create) {
    srcml_archive* a = arb_archive(); ArchiveObs o; archive_save(a, o);
    srcml_unit* u = srcml_unit_create(a);
    vf_assert(u != 0, "unit_create gives a unit");
    vf_assert(srcml_unit_get_src_encoding(u) == 0 && srcml_unit_get_language(u) == 0 && srcml_unit_get_filename(u) == 0 && srcml_unit_get_version(u) == 0 && srcml_unit_get_timestamp(u) == 0 && srcml_unit_get_hash(u) == 0,
        "a new unit has no encoding, language, filename, version, timestamp or hash");
    vf_assert(srcml_unit_get_loc(u) == -1, "a new unit has no loc");
    vf_assert(srcml_unit_get_eol(u) == SOURCE_OUTPUT_EOL_AUTO, "a new unit has the automatic eol");
    vf_assert(vf_streq(srcml_unit_get_revision(u), srcml_version_string()), "a new unit has this library's revision");
    vf_assert(srcml_unit_get_srcml(u) == 0 && srcml_unit_get_srcml_outer(u) == 0 && srcml_unit_get_srcml_inner(u) == 0, "a new unit has no srcML");
    archive_same(a, o, 0);
    vf_assert(srcml_unit_create(0) == 0, "unit_create(NULL) is NULL");
#ifdef VF_NATIVE
    srcml_unit_free(u);
#endif
    vf_reach("end");
}
