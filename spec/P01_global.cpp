// P01: the convenience (global) setters and getters obey the same get-after-set contract.
#include "api.h"
static void global_prep() {
#ifdef VF_NATIVE
    // any history of the global state
    for (int n = vf_irange("prep_ops", 0, 6); n; --n) switch (vf_irange("prep_op", 0, 9)) {
        case 0: srcml_set_src_encoding(vf_cstr_or_null("prep")); break;
        case 1: srcml_set_xml_encoding(vf_cstr_or_null("prep")); break;
        case 2: srcml_set_language(vf_cstr_or_null("prep")); break;
        case 3: srcml_set_filename(vf_cstr_or_null("prep")); break;
        case 4: srcml_set_url(vf_cstr_or_null("prep")); break;
        case 5: srcml_set_version(vf_cstr_or_null("prep")); break;
        case 6: srcml_set_timestamp(vf_cstr_or_null("prep")); break;
        case 7: srcml_set_options(vf_u64("prepn")); break;
        case 8: srcml_set_tabstop(vf_u64("prepn")); break;
        case 9: srcml_set_eol(vf_irange("prepe", 0, 4)); break;
    }
#endif
}
enum { G_SRC = 1, G_XML = 2, G_LANG = 4, G_FILE = 8, G_URL = 16, G_VER = 32, G_TIME = 64, G_OPT = 128, G_TAB = 256, G_EOL = 512, G_DIFF = 1024 };
struct GObs { int options; size_t tab, eol, diff; };
static void gsave(GObs& o) {
    vf_str_save(40, srcml_get_src_encoding()); vf_str_save(41, srcml_get_xml_encoding()); vf_str_save(42, srcml_get_language()); vf_str_save(43, srcml_get_filename());
    vf_str_save(44, srcml_get_url()); vf_str_save(45, srcml_get_version()); vf_str_save(46, srcml_get_timestamp());
    o.options = srcml_get_options(); o.tab = srcml_get_tabstop(); o.eol = srcml_get_eol(); o.diff = srcml_get_srcdiff_revision();
}
static void gsame(const GObs& o, int ex) {
    if (!(ex & G_SRC)) vf_assert(vf_str_same(40, srcml_get_src_encoding()), "frame: global src encoding unchanged");
    if (!(ex & G_XML)) vf_assert(vf_str_same(41, srcml_get_xml_encoding()), "frame: global xml encoding unchanged");
    if (!(ex & G_LANG)) vf_assert(vf_str_same(42, srcml_get_language()), "frame: global language unchanged");
    if (!(ex & G_FILE)) vf_assert(vf_str_same(43, srcml_get_filename()), "frame: global filename unchanged");
    if (!(ex & G_URL)) vf_assert(vf_str_same(44, srcml_get_url()), "frame: global url unchanged");
    if (!(ex & G_VER)) vf_assert(vf_str_same(45, srcml_get_version()), "frame: global version unchanged");
    if (!(ex & G_TIME)) vf_assert(vf_str_same(46, srcml_get_timestamp()), "frame: global timestamp unchanged");
    if (!(ex & G_OPT)) vf_assert(o.options == srcml_get_options(), "frame: global options unchanged");
    if (!(ex & G_TAB)) vf_assert(o.tab == srcml_get_tabstop(), "frame: global tabstop unchanged");
    if (!(ex & G_EOL)) vf_assert(o.eol == srcml_get_eol(), "frame: global eol unchanged");
    if (!(ex & G_DIFF)) vf_assert(o.diff == srcml_get_srcdiff_revision(), "frame: global srcdiff revision unchanged");
}
#define GLOBAL_STR(name, G) VF_HARNESS(global_set_##name) { \
    global_prep(); GObs o; gsave(o); const char* s = vf_cstr_or_null("value"); \
    vf_assert(srcml_set_##name(s) == SRCML_STATUS_OK, "set_" #name " returns SRCML_STATUS_OK"); \
    vf_assert(vf_streq(srcml_get_##name(), s), "get_" #name " returns the value last set"); \
    gsame(o, G); vf_reach("end"); }
GLOBAL_STR(src_encoding, G_SRC)
GLOBAL_STR(xml_encoding, G_XML)
GLOBAL_STR(language, G_LANG)
GLOBAL_STR(filename, G_FILE)
GLOBAL_STR(url, G_URL)
GLOBAL_STR(version, G_VER)
GLOBAL_STR(timestamp, G_TIME)
VF_HARNESS(global_set_numbers) {
    global_prep(); GObs o; gsave(o);
    int w = vf_irange("which", 0, 3);
    if (w == 0) { size_t t = vf_u64("tabstop"); bool ok = t >= 1 && t <= 2147483647u; if (ok) { vf_assert(srcml_set_tabstop(t) == SRCML_STATUS_OK && srcml_get_tabstop() == t, "get_tabstop returns the value last set"); gsame(o, G_TAB); } else { vf_assert(srcml_set_tabstop(t) == SRCML_STATUS_INVALID_ARGUMENT, "set_tabstop refuses what is not a positive int"); gsame(o, 0); } }
    else if (w == 1) { size_t e = vf_u64("eol"); int s = srcml_set_eol(e); if (e <= SOURCE_OUTPUT_EOL_CRLF) { vf_assert(s == SRCML_STATUS_OK && srcml_get_eol() == e, "get_eol returns the value last set"); gsame(o, G_EOL); } else { vf_assert(s == SRCML_STATUS_INVALID_ARGUMENT, "set_eol refuses an unknown eol"); gsame(o, 0); } }
    else if (w == 2) { size_t r = vf_u64("rev"); int s = srcml_set_srcdiff_revision(r); if (r == SRCDIFF_REVISION_ORIGINAL || r == SRCDIFF_REVISION_MODIFIED) { vf_assert(s == SRCML_STATUS_OK && srcml_get_srcdiff_revision() == r, "get_srcdiff_revision returns the value last set"); gsame(o, G_DIFF); } else { vf_assert(s == SRCML_STATUS_INVALID_ARGUMENT, "set_srcdiff_revision refuses any other revision"); gsame(o, 0); } }
    else { const char* t = vf_cstr("target"); const char* d = vf_cstr("data"); vf_assert(srcml_set_processing_instruction(t, d) == SRCML_STATUS_OK && vf_streq(srcml_get_processing_instruction_target(), t) && vf_streq(srcml_get_processing_instruction_data(), d), "the processing instruction is the one last set"); gsame(o, 0); }
    vf_reach("end");
}
