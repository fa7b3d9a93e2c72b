// Observational snapshots of the public API objects, and archives / units in an arbitrary state.
#ifndef API_H
#define API_H
#include "vf.h"
#include <srcml.h>
#include <srcml_types.hpp>
#include <srcml_translator.hpp>
#include <srcml_sax2_reader.hpp>
#include <cstring>
int srcml_archive_register_macro(struct srcml_archive*, const char*, const char*); size_t srcml_archive_get_macro_list_size(const struct srcml_archive*);
const char* srcml_archive_get_macro_token(const struct srcml_archive*, size_t); const char* srcml_archive_get_macro_token_type(const struct srcml_archive*, const char*); const char* srcml_archive_get_macro_type(const struct srcml_archive*, size_t);

// ---- everything the public getters tell about an archive
struct ArchiveObs { int options; size_t tabstop; int solitary, hash; size_t srcdiff; };
enum { A_SRC_ENC, A_XML_ENC, A_REV, A_LANG, A_URL, A_VER, A_N };
static inline void archive_save(const srcml_archive* a, ArchiveObs& o) {
    vf_str_save(A_SRC_ENC, srcml_archive_get_src_encoding(a)); vf_str_save(A_XML_ENC, srcml_archive_get_xml_encoding(a));
    vf_str_save(A_REV, srcml_archive_get_revision(a)); vf_str_save(A_LANG, srcml_archive_get_language(a));
    vf_str_save(A_URL, srcml_archive_get_url(a)); vf_str_save(A_VER, srcml_archive_get_version(a));
    o.options = srcml_archive_get_options(a); o.tabstop = srcml_archive_get_tabstop(a);
    o.solitary = srcml_archive_is_solitary_unit(a); o.hash = srcml_archive_has_hash(a); o.srcdiff = srcml_archive_get_srcdiff_revision(a);
#ifdef VF_NATIVE
    int k = 100;
    vf_str_save(k++, srcml_archive_get_processing_instruction_target(a)); vf_str_save(k++, srcml_archive_get_processing_instruction_data(a));
    size_t n = srcml_archive_get_namespace_size(a); vf_str_save(k++, std::to_string(n).c_str());
    for (size_t i = 0; i < n; ++i) { vf_str_save(k++, srcml_archive_get_namespace_prefix(a, i)); vf_str_save(k++, srcml_archive_get_namespace_uri(a, i)); }
    n = srcml_archive_get_macro_list_size(a); vf_str_save(k++, std::to_string(n).c_str());
    for (size_t i = 0; i < n; ++i) { vf_str_save(k++, srcml_archive_get_macro_token(a, i)); vf_str_save(k++, srcml_archive_get_macro_type(a, i)); }
    const char* ex[] = { "a.cpp", "a.c", "a.java", "a.cs", "a.m", "a.h", "a.xx", "a.qq.gz", 0 };
    for (int i = 0; ex[i]; ++i) vf_str_save(k++, srcml_archive_check_extension(a, ex[i]));
#endif
}
// unchanged except the fields named
enum { X_SRC_ENC = 1, X_XML_ENC = 2, X_REV = 4, X_LANG = 8, X_URL = 16, X_VER = 32, X_OPTIONS = 64, X_TABSTOP = 128, X_SOLITARY = 256, X_HASH = 512, X_SRCDIFF = 1024, X_PI = 2048, X_NS = 4096, X_MACRO = 8192, X_EXT = 16384 };
static inline void archive_same(const srcml_archive* a, const ArchiveObs& o, unsigned except) {
    if (!(except & X_SRC_ENC)) vf_assert(vf_str_same(A_SRC_ENC, srcml_archive_get_src_encoding(a)), "frame: src encoding unchanged");
    if (!(except & X_XML_ENC)) vf_assert(vf_str_same(A_XML_ENC, srcml_archive_get_xml_encoding(a)), "frame: xml encoding unchanged");
    if (!(except & X_REV)) vf_assert(vf_str_same(A_REV, srcml_archive_get_revision(a)), "frame: revision unchanged");
    if (!(except & X_LANG)) vf_assert(vf_str_same(A_LANG, srcml_archive_get_language(a)), "frame: language unchanged");
    if (!(except & X_URL)) vf_assert(vf_str_same(A_URL, srcml_archive_get_url(a)), "frame: url unchanged");
    if (!(except & X_VER)) vf_assert(vf_str_same(A_VER, srcml_archive_get_version(a)), "frame: version unchanged");
    if (!(except & X_OPTIONS)) vf_assert(o.options == srcml_archive_get_options(a), "frame: options unchanged");
    if (!(except & X_TABSTOP)) vf_assert(o.tabstop == srcml_archive_get_tabstop(a), "frame: tabstop unchanged");
    if (!(except & X_SOLITARY)) vf_assert(o.solitary == srcml_archive_is_solitary_unit(a), "frame: solitary flag unchanged");
    if (!(except & X_HASH)) vf_assert(o.hash == srcml_archive_has_hash(a), "frame: hash flag unchanged");
    if (!(except & X_SRCDIFF)) vf_assert(o.srcdiff == srcml_archive_get_srcdiff_revision(a), "frame: srcdiff revision unchanged");
#ifdef VF_NATIVE
    int k = 100;
    bool pi = vf_str_same(k, srcml_archive_get_processing_instruction_target(a)) && vf_str_same(k + 1, srcml_archive_get_processing_instruction_data(a)); k += 2;
    if (!(except & X_PI)) vf_assert(pi, "frame: processing instruction unchanged");
    if (except & (X_NS | X_MACRO)) return;
    size_t n = srcml_archive_get_namespace_size(a); vf_assert(vf_str_same(k++, std::to_string(n).c_str()), "frame: namespace count unchanged");
    for (size_t i = 0; i < n; ++i) { vf_assert(vf_str_same(k++, srcml_archive_get_namespace_prefix(a, i)), "frame: namespace prefixes unchanged"); vf_assert(vf_str_same(k++, srcml_archive_get_namespace_uri(a, i)), "frame: namespace uris unchanged"); }
    n = srcml_archive_get_macro_list_size(a); vf_assert(vf_str_same(k++, std::to_string(n).c_str()), "frame: macro count unchanged");
    for (size_t i = 0; i < n; ++i) { vf_assert(vf_str_same(k++, srcml_archive_get_macro_token(a, i)), "frame: macros unchanged"); vf_assert(vf_str_same(k++, srcml_archive_get_macro_type(a, i)), "frame: macro types unchanged"); }
    const char* ex[] = { "a.cpp", "a.c", "a.java", "a.cs", "a.m", "a.h", "a.xx", "a.qq.gz", 0 };
    if (!(except & X_EXT)) for (int i = 0; ex[i]; ++i) vf_assert(vf_str_same(k++, srcml_archive_check_extension(a, ex[i])), "frame: registered extensions unchanged");
#endif
}
// ---- everything the public getters tell about a unit
struct UnitObs { size_t eol; int loc; };
enum { U_ENC = 20, U_REV, U_LANG, U_FILE, U_VER, U_TIME, U_HASH, U_END };
static inline void unit_save(srcml_unit* u, UnitObs& o) {
    vf_str_save(U_ENC, srcml_unit_get_src_encoding(u)); vf_str_save(U_REV, srcml_unit_get_revision(u)); vf_str_save(U_LANG, srcml_unit_get_language(u));
    vf_str_save(U_FILE, srcml_unit_get_filename(u)); vf_str_save(U_VER, srcml_unit_get_version(u)); vf_str_save(U_TIME, srcml_unit_get_timestamp(u)); vf_str_save(U_HASH, srcml_unit_get_hash(u));
    o.eol = srcml_unit_get_eol(u); o.loc = srcml_unit_get_loc(u);
}
enum { Y_ENC = 1, Y_REV = 2, Y_LANG = 4, Y_FILE = 8, Y_VER = 16, Y_TIME = 32, Y_HASH = 64, Y_EOL = 128, Y_LOC = 256 };
static inline void unit_same(srcml_unit* u, const UnitObs& o, unsigned except) {
    if (!(except & Y_ENC)) vf_assert(vf_str_same(U_ENC, srcml_unit_get_src_encoding(u)), "frame: unit src encoding unchanged");
    if (!(except & Y_REV)) vf_assert(vf_str_same(U_REV, srcml_unit_get_revision(u)), "frame: unit revision unchanged");
    if (!(except & Y_LANG)) vf_assert(vf_str_same(U_LANG, srcml_unit_get_language(u)), "frame: unit language unchanged");
    if (!(except & Y_FILE)) vf_assert(vf_str_same(U_FILE, srcml_unit_get_filename(u)), "frame: unit filename unchanged");
    if (!(except & Y_VER)) vf_assert(vf_str_same(U_VER, srcml_unit_get_version(u)), "frame: unit version unchanged");
    if (!(except & Y_TIME)) vf_assert(vf_str_same(U_TIME, srcml_unit_get_timestamp(u)), "frame: unit timestamp unchanged");
    if (!(except & Y_HASH)) vf_assert(vf_str_same(U_HASH, srcml_unit_get_hash(u)), "frame: unit hash unchanged");
    if (!(except & Y_EOL)) vf_assert(o.eol == srcml_unit_get_eol(u), "frame: unit eol unchanged");
    if (!(except & Y_LOC)) vf_assert(o.loc == srcml_unit_get_loc(u), "frame: unit loc unchanged");
}
// ---- objects in an arbitrary state.  Proof: any bit pattern.  Natively: any sequence of API calls.
static inline srcml_archive* arb_archive() {
    if (vf_symbolic()) return (srcml_archive*) vf_object("archive", sizeof(srcml_archive));
#ifdef VF_NATIVE
    static srcml_archive* prev; if (prev) srcml_archive_free(prev);
    srcml_archive* a = srcml_archive_create(); prev = a;
    for (int n = vf_irange("prep_ops", 0, 12); n; --n) switch (vf_irange("prep_op", 0, 20)) {
        case 0: srcml_archive_set_src_encoding(a, vf_cstr_or_null("prep")); break;
        case 1: srcml_archive_set_xml_encoding(a, vf_cstr_or_null("prep")); break;
        case 2: srcml_archive_set_language(a, vf_cstr_or_null("prep")); break;
        case 3: srcml_archive_set_url(a, vf_cstr_or_null("prep")); break;
        case 4: srcml_archive_set_version(a, vf_cstr_or_null("prep")); break;
        case 5: srcml_archive_set_options(a, vf_u64("prepn")); break;
        case 6: srcml_archive_enable_option(a, vf_u64("prepn")); break;
        case 7: srcml_archive_disable_option(a, vf_u64("prepn")); break;
        case 8: srcml_archive_set_tabstop(a, vf_u64("prepn")); break;
        case 9: srcml_archive_enable_solitary_unit(a); break;
        case 10: srcml_archive_disable_solitary_unit(a); break;
        case 11: srcml_archive_enable_hash(a); break;
        case 12: srcml_archive_disable_hash(a); break;
        case 13: srcml_archive_set_srcdiff_revision(a, vf_irange("prepr", 0, 3)); break;
        case 14: { const char* t = vf_cstr("prept"); srcml_archive_register_macro(a, t, vf_cstr("prep")); } break;
        case 15: { const char* t = vf_cstr("prept"); srcml_archive_register_namespace(a, t, vf_cstr("prep")); } break;
        case 16: { const char* t = vf_cstr("prept"); srcml_archive_set_processing_instruction(a, t, vf_cstr("prep")); } break;
        case 17: { static const char* L[] = { "C", "C++", "C#", "Java", "Objective-C" }; const char* t = vf_cstr("prept"); srcml_archive_register_file_extension(a, t, L[vf_irange("prepl", 0, 4)]); } break;
        case 18: { static char* b; static size_t z; if (a->type == SRCML_ARCHIVE_INVALID) srcml_archive_write_open_memory(a, &b, &z); } break;
        case 19: { static const char x[] = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"0.9\" url=\"u\"><unit revision=\"0.9\" language=\"C\"><name>a</name></unit></unit>"; if (a->type == SRCML_ARCHIVE_INVALID) srcml_archive_read_open_memory(a, x, sizeof(x) - 1); } break;
        case 20: if (a->type != SRCML_ARCHIVE_INVALID) srcml_archive_close(a); break;
    }
    return a;
#else
    return 0;
#endif
}
static inline srcml_unit* arb_unit() {
    if (vf_symbolic()) { srcml_unit* u = (srcml_unit*) vf_object("unit", sizeof(srcml_unit)); u->archive = (srcml_archive*) vf_object("unit_archive", sizeof(srcml_archive)); return u; }
#ifdef VF_NATIVE
    static srcml_unit* prev; static srcml_archive* prevarch; if (prev) srcml_unit_free(prev); if (prevarch) srcml_archive_free(prevarch);
    srcml_archive* a = prevarch = srcml_archive_create();
    srcml_archive_set_url(a, vf_cstr_or_null("prep"));
    srcml_unit* u = srcml_unit_create(a); prev = u;
    for (int n = vf_irange("prep_ops", 0, 9); n; --n) switch (vf_irange("prep_op", 0, 7)) {
        case 0: srcml_unit_set_src_encoding(u, vf_cstr_or_null("prep")); break;
        case 1: srcml_unit_set_language(u, vf_cstr_or_null("prep")); break;
        case 2: srcml_unit_set_filename(u, vf_cstr_or_null("prep")); break;
        case 3: srcml_unit_set_version(u, vf_cstr_or_null("prep")); break;
        case 4: srcml_unit_set_timestamp(u, vf_cstr_or_null("prep")); break;
        case 5: srcml_unit_set_hash(u, vf_cstr_or_null("prep")); break;
        case 6: srcml_unit_set_eol(u, vf_irange("prepe", 0, 5)); break;
        case 7: if (vf_irange("prepp", 0, 20) == 0) { srcml_unit_set_src_encoding(u, 0); srcml_unit_set_language(u, "C++"); srcml_unit_parse_memory(u, "int a;\nint b;", 13); } break;
    }
    return u;
#else
    return 0;
#endif
}
#endif
