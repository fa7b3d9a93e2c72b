// P04: the language of a filename is the latest registration of its extension (text after the last dot, one trailing ".gz" removed).
#include "vf.h"
#define private public
#include <language_extension_registry.hpp>
#undef private
#include <Language.hpp>

// a registry in an arbitrary state
static language_extension_registry* arb() {
#ifdef VF_NATIVE
    language_extension_registry* q = new language_extension_registry();
    int n = vf_irange("n", 0, 4);
    for (int i = 0; i < n; ++i) { const char* e = vf_cstr("r.ext"); int l = vf_irange("r.lang", 1, 17); q->register_user_ext(e, l); }
    return q;
#endif
    language_extension_registry* r = (language_extension_registry*) vf_object("registry", sizeof(language_extension_registry));
    vf_vector(&r->registered_languages, sizeof(language_extension), "S@0,i32@32", "registered", 1u << 30);
    return r;
}
// every path is one of:  no dot | stem.ext | (nodot | stem.ext).gz ; the expected extension comes with it
static bool arb_path(std::string& path, std::string& ext) {
    std::string stem, e; vf_string("stem", &stem);
    vf_assume(stem.find('\0') == std::string::npos);
    bool dot = vf_bool("dot"), gz = vf_bool("gz");
    if (dot) { e = vf_cstr("ext"); vf_assume(e.find('.') == std::string::npos); path = stem + "." + e; }
    else { vf_assume(stem.find('.') == std::string::npos); path = stem; }
    if (gz) { vf_assume(path.size() > 0); path += ".gz"; }
    else if (dot) vf_assume(!(e == "gz" && stem.size() > 0));
    ext = e;
    return dot;
}
VF_HARNESS(lookup_no_extension) {
    language_extension_registry* r = arb(); std::string path, ext;
    if (!arb_path(path, ext)) { vf_assert(r->get_language_from_filename(path.c_str()) == 0, "a filename without extension has no language"); vf_reach("nodot"); }
}
// the latest registration wins
VF_HARNESS(register_then_lookup) {
    language_extension_registry* r = arb(); std::string path, ext;
    vf_assume(arb_path(path, ext));
    vf_assume(!r->use_cpp_for_c);
    int lang = vf_int("lang");
    bool b = r->register_user_ext(ext.c_str(), lang);
    vf_assert(b == (lang != 0), "registration succeeds exactly for a language");
    vf_assume(b);
    vf_assert(r->get_language_from_filename(path.c_str()) == lang, "the filename has the language last registered for its extension");
    vf_reach("end");
}
// registering another extension changes nothing for this filename
VF_HARNESS(register_other) {
    language_extension_registry* r = arb(); std::string path, ext;
    vf_assume(arb_path(path, ext));
    const char* other = vf_cstr("other"); vf_assume(!(ext == other));
    int lang = vf_int("lang");
    int before = r->get_language_from_filename(path.c_str());
    r->register_user_ext(other, lang);
    vf_assert(r->get_language_from_filename(path.c_str()) == before, "registering another extension does not change the language of a filename");
    vf_reach("end");
}
VF_HARNESS(refused) {
    language_extension_registry* r = arb(); std::string path, ext;
    vf_assume(arb_path(path, ext));
    const char* e = vf_cstr("e"); int before = r->get_language_from_filename(path.c_str());
    vf_assert(!r->register_user_ext(e, 0), "registering no language is refused");
    vf_assert(r->get_language_from_filename(path.c_str()) == before, "a refused registration changes nothing");
    vf_reach("end");
}
