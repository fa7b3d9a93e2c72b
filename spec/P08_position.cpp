// P08: position attributes.  Numbers are written in decimal, and the attributes are exactly the start and end of the token.
#include <srcMLOutput.cpp>
#include <srcMLToken.hpp>
#include "vf.h"
#include "antlr_sym.h"
static void decimal_check(int n) {
    const char* p = positoa(n);
    long v = 0; int k = 0;
    for (; p[k]; ++k) { vf_assert(k < 10 && p[k] >= '0' && p[k] <= '9', "a line or column number is written in at most ten decimal digits"); v = v * 10 + (p[k] - '0'); }
    vf_assert(k > 0 && v == n, "a line or column number is written in decimal");
    vf_assert(k == 1 || p[0] != '0', "a line or column number has no leading zeros");
    vf_reach("end");
}
VF_HARNESS(decimal) { decimal_check(vf_irange("n", 0, 2147483647)); }
// the digits that the call before left do not show: shorter and longer ones
VF_HARNESS(decimal_again) { positoa(vf_irange("before", 0, 2147483647)); decimal_check(vf_irange("n", 0, 2147483647)); }
extern "C" {
    void vg_out_reset();
    bool vg_position(const std::string* prefix, int line, int column, int endline, int endcolumn);   // the two position attributes were written
    bool vg_out_is(const char* s);
}
#ifdef VF_NATIVE
static xmlBufferPtr g_buf; static size_t g_from; static xmlTextWriterPtr g_w; static xmlOutputBufferPtr g_ob;
static std::string out_text() { xmlOutputBufferFlush(g_ob); return std::string((const char*) xmlBufferContent(g_buf) + g_from, xmlBufferLength(g_buf) - g_from); }
extern "C" void vg_out_reset() { xmlTextWriterFlush(g_w); xmlOutputBufferFlush(g_ob); g_from = xmlBufferLength(g_buf); }
extern "C" bool vg_out_is(const char* s) { return out_text() == s; }
extern "C" bool vg_position(const std::string* p, int a, int b, int c, int d) { std::string q = " " + *p + (p->empty() ? "" : ":"); char t[200]; snprintf(t, sizeof t, "start=\"%d:%d\"", a, b); std::string w = q + t; snprintf(t, sizeof t, "end=\"%d:%d\"", c, d); return out_text() == w + q + t; }
#endif
static OPTION_TYPE g_opt;
static srcMLOutput* arb() {
    if (vf_symbolic()) { srcMLOutput* o = (srcMLOutput*) vf_object("output", sizeof(srcMLOutput)); g_opt = vf_u64("options"); *(OPTION_TYPE**) ((char*) o + __builtin_offsetof(srcMLOutput, unit_encoding) + sizeof(char*)) = &g_opt; return o; }
#ifdef VF_NATIVE
    g_buf = xmlBufferCreate(); g_ob = xmlOutputBufferCreateBuffer(g_buf, 0);
    static std::vector<std::string> none; static boost::optional<std::pair<std::string, std::string> > nopi; g_opt = SRCML_OPTION_POSITION;
    srcMLOutput* o = new srcMLOutput(0, g_ob, "C", "UTF-8", g_opt, none, nopi, 8); g_w = o->xout;
    Namespaces ns; if (vf_bool("other")) { static const char* const P[] = { "", "p", "position" }; ns.push_back({ P[vf_irange("prefix", 0, 2)], SRCML_POSITION_NS_URI, 0 }); } o->initNamespaces(ns);
    xmlTextWriterStartElement(o->xout, BAD_CAST "r");
    return o;
#else
    return 0;
#endif
}
VF_HARNESS(position_attributes) {
    srcMLOutput* o = arb();
    int line = vf_irange("line", 0, 2147483647), col = vf_irange("column", 0, 2147483647), el = vf_irange("endline", 0, 2147483647), ec = vf_irange("endcolumn", 0, 2147483647);
    srcMLToken* t = new srcMLToken(5, STARTTOKEN); antlr::RefToken tok(t);
    t->setLine(line); t->setColumn(col); t->endline = el; t->endcolumn = ec;
    std::string prefix = o->namespaces[POS].prefix;
    vf_assume(prefix.size() < (1u << 28));
    vg_out_reset();
    o->addPosition(tok);
    bool before = el < line || (el == line && ec < col);
    if (before) { vf_assert(vg_out_is(""), "an element that ends before it starts has no position"); vf_reach("none"); }
    else { vf_assert(vg_position(&prefix, line, col, el, ec), "the position attributes are the start and end of the element"); vf_reach("position"); }
#ifdef VF_NATIVE
    delete o; xmlBufferFree(g_buf);
#endif
}
