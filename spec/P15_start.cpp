// P15: the start tag of a unit has exactly the attributes that it is given, in order, and nothing else.
#include <srcMLOutput.cpp>
#include "vf.h"
#include "antlr_sym.h"
#ifndef VF_NATIVE
#include <new>
extern "C" { void vg_out_reset(); void vg_expect_tag(const std::string* prefix, const char* name); void vg_expect_att(const char* name, const char* value); void vg_expect_number(const std::string* prefix, const char* name, size_t n); void vg_expect_namespaces(); bool vg_expected(); }
static OPTION_TYPE g_opt;
static void plain(const srcMLOutput* o, int k) { vf_assume(o->namespaces[k].prefix.find('\0') == std::string::npos); }
static void start(bool attributes, OPTION_TYPE options, bool prefixes) {
    srcMLOutput* o = (srcMLOutput*) vf_object("output", sizeof(srcMLOutput)); g_opt = options ? vf_u64("options") & options : 0; *(OPTION_TYPE**) ((char*) o + __builtin_offsetof(srcMLOutput, unit_encoding) + sizeof(char*)) = &g_opt; OPTION_TYPE op = g_opt;
    static const char* const K[] = { "revision", "language", "url", "filename", "version", "timestamp", "hash" }; const char* v[7]; int all = attributes ? vf_irange("which", 0, 8) : 1; for (int i = 0; i < 7; ++i) v[i] = (all == i) | (all == 8) ? vf_cstr(K[i]) : 0;
    const char* enc = options && (!prefixes || vf_bool("encoding?")) ? vf_cstr("encoding") : 0; if (enc) vf_assume(enc[0] != 0); int depth = o->depth = vf_irange("depth", 0, 1); size_t tab = o->tabsize; int open = o->openelementcount; std::vector<std::string> none; plain(o, SRC); plain(o, POS); if (!prefixes) { vf_assume(o->namespaces[SRC].prefix.empty()); vf_assume(!o->namespaces[POS].prefix.empty()); }
    vg_out_reset();
    o->startUnit(v[1], v[0], v[2], v[3], v[4], v[5], v[6], enc, none, false);
    vg_expect_tag(&o->namespaces[SRC].prefix, "unit"); if (op & SRCML_OPTION_NAMESPACE_DECL) vg_expect_namespaces();
    for (int i = 0; i < 5; ++i) if (v[i]) vg_expect_att(K[i], v[i]);
    if (op & SRCML_OPTION_POSITION) vg_expect_number(&o->namespaces[POS].prefix, "tabs", tab);
    for (int i = 5; i < 7; ++i) if (v[i]) vg_expect_att(K[i], v[i]);
    if (op & SRCML_OPTION_STORE_ENCODING) vg_expect_att("src-encoding", enc ? enc : "UTF-8");
    if (depth == 0) switch (((op & SRCML_OPTION_CPP_TEXT_ELSE) ? 1 : 0) + ((op & SRCML_OPTION_CPP_MARKUP_IF0) ? 2 : 0) + ((op & SRCML_OPTION_LINE) ? 4 : 0)) {
        case 0: break; case 1: vg_expect_att("options", "CPP_TEXT_ELSE"); break; case 2: vg_expect_att("options", "CPP_MARKUP_IF0"); break; case 3: vg_expect_att("options", "CPP_TEXT_ELSE,CPP_MARKUP_IF0"); break; case 4: vg_expect_att("options", "LINE"); break;
        case 5: vg_expect_att("options", "CPP_TEXT_ELSE,LINE"); break; case 6: vg_expect_att("options", "CPP_MARKUP_IF0,LINE"); break; default: vg_expect_att("options", "CPP_TEXT_ELSE,CPP_MARKUP_IF0,LINE"); }
    vf_assert(vg_expected(), "the start tag has the prefix, the declarations and exactly the attributes that are given"); vf_assert(o->openelementcount == open + 1, "one element is opened"); vf_assert(o->depth == 1, "what follows is nested"); vf_assert(op == g_opt, "the options stay"); vf_reach("end");
}
VF_HARNESS(start_unit) { start(true, 0, true); }
VF_HARNESS(start_unit_options) { start(false, ~(OPTION_TYPE) 0, false); }
VF_HARNESS(start_unit_declarations) { start(false, SRCML_OPTION_NAMESPACE_DECL | SRCML_OPTION_POSITION | SRCML_OPTION_STORE_ENCODING, true); }
VF_HARNESS(start_unit_attributes) {
    srcMLOutput* o = (srcMLOutput*) vf_object("output", sizeof(srcMLOutput)); g_opt = 0; *(OPTION_TYPE**) ((char*) o + __builtin_offsetof(srcMLOutput, unit_encoding) + sizeof(char*)) = &g_opt; o->depth = 1;
    std::vector<std::string> at; const char* n1 = vf_cstr("n1"); const char* v1 = vf_cstr("v1"); const char* n2 = vf_cstr("n2"); const char* v2 = vf_cstr("v2"); at.push_back(n1); at.push_back(v1); bool two = vf_bool("two"); if (two) { at.push_back(n2); at.push_back(v2); } const char* h = vf_cstr("hash");
    plain(o, SRC); vg_out_reset(); o->startUnit(0, 0, 0, 0, 0, 0, h, 0, at, false);
    vg_expect_tag(&o->namespaces[SRC].prefix, "unit"); vg_expect_att("hash", h); vg_expect_att(n1, v1); if (two) vg_expect_att(n2, v2);
    vf_assert(vg_expected(), "further attributes follow the unit's own, in order"); vf_reach("end");
}
#endif
