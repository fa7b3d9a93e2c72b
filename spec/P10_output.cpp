// P10/P11: what srcMLOutput writes for a token.  Text tokens: exactly their text, escaped.  Markup tokens: one start or end tag and no text.
#include <srcMLOutput.cpp>
#include <srcMLToken.hpp>
#include "vf.h"
#include "antlr_sym.h"
extern "C" {
    void vg_out_reset();
    bool vg_out_escaped(const std::string* s);                 // everything written since reset is s with <, >, & escaped
    bool vg_is_start(const char* prefix, const char* name, const char* a1, const char* v1, const char* a2, const char* v2, bool empty);   // one start tag (and its end) with these attributes was written
    bool vg_is_end();                                          // one end tag was written
    bool vg_out_is(const char* s);                             // everything written since reset is s
}
#ifdef VF_NATIVE
static xmlBufferPtr g_buf; static size_t g_from;
static std::string out_text(xmlTextWriterPtr w) { xmlTextWriterFlush(w); return std::string((const char*) xmlBufferContent(g_buf) + g_from, xmlBufferLength(g_buf) - g_from); }
static xmlTextWriterPtr g_w;
extern "C" void vg_out_reset() { xmlTextWriterFlush(g_w); g_from = xmlBufferLength(g_buf); }
extern "C" bool vg_out_is(const char* s) { return out_text(g_w) == s; }
extern "C" bool vg_out_escaped(const std::string* s) { std::string o; for (size_t i = 0; i < s->size(); ++i) switch ((*s)[i]) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; default: o += (*s)[i]; } return out_text(g_w) == o; }
// non-ASCII characters of attribute values may be written as character references
static std::string undo(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { unsigned long c; int n; if (s[i] == '&' && sscanf(s.c_str() + i, "&#x%lX;%n", &c, &n) == 1 && c >= 0x80) { char b[8]; int l = c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; for (int k = l - 1; k > 0; --k) { b[k] = (char) (0x80 | (c & 63)); c >>= 6; } b[0] = (char) ((l == 2 ? 0xC0 : l == 3 ? 0xE0 : 0xF0) | c); o.append(b, l); i += n - 1; } else o += s[i]; } return o; }
static std::string att(const char* a, const char* v) { if (!a) return ""; std::string o = std::string(" ") + a + "=\""; for (; *v; ++v) switch (*v) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; case '\n': o += "&#10;"; break; case '\t': o += "&#9;"; break; case '\r': o += "&#13;"; break; default: o += *v; } return o + "\""; }
extern "C" bool vg_is_start(const char* p, const char* n, const char* a1, const char* v1, const char* a2, const char* v2, bool empty) { if (getenv("VF_STDERR")) fprintf(stderr, "OUT %s\n", out_text(g_w).c_str()); return undo(out_text(g_w)) == std::string("<") + p + (*p ? ":" : "") + n + att(a1, v1) + att(a2, v2) + (empty ? "/>" : ""); }
extern "C" bool vg_is_end() { return out_text(g_w) == "</r>"; }
#endif
static OPTION_TYPE g_opt;
static srcMLOutput* arb() {
    if (vf_symbolic()) return (srcMLOutput*) vf_object("output", sizeof(srcMLOutput));
#ifdef VF_NATIVE
    g_buf = xmlBufferCreate(); xmlOutputBufferPtr ob = xmlOutputBufferCreateBuffer(g_buf, 0);
    static std::vector<std::string> none; static boost::optional<std::pair<std::string, std::string> > nopi; g_opt = 0;
    srcMLOutput* o = new srcMLOutput(0, ob, "C", "UTF-8", g_opt, none, nopi, 8); g_w = o->xout; o->initNamespaces(Namespaces());
    xmlTextWriterStartElement(o->xout, BAD_CAST "r"); xmlTextWriterWriteRawLen(o->xout, BAD_CAST "x", 1); g_from = 0; vg_out_reset();
    return o;
#else
    return 0;
#endif
}
static void vf_options(srcMLOutput* o) { g_opt = vf_u64("options") & ~(OPTION_TYPE) SRCML_OPTION_POSITION; *(OPTION_TYPE**) ((char*) o + __builtin_offsetof(srcMLOutput, unit_encoding) + sizeof(char*)) = &g_opt; }
// element and attribute names
static const char* vf_ident(const char* n) {
#ifdef VF_NATIVE
    static const char* const I[] = { "", "name", "a", "type", "escape", "b-c" }; return I[vf_irange(n, 0, 5)];
#else
    return vf_cstr(n);
#endif
}
static void done(srcMLOutput* o) {
#ifdef VF_NATIVE
    delete o; xmlBufferFree(g_buf);
#endif
}
VF_HARNESS(text_escaped) {
    srcMLOutput* o = arb(); std::string s; vf_string("s", &s);
    vf_assume(s.find('\0') == std::string::npos && s.size() < (1u << 28));   // the writer takes an int
    vg_out_reset();
    int before = o->openelementcount;
    o->processText(s);
    vf_assert(vg_out_escaped(&s), "a text token is written as exactly its text, with <, > and & escaped");
    vf_assert(o->openelementcount == before, "text opens no element");
    vf_reach("end");
    done(o);
}

// a markup token writes exactly one start tag, one end tag, or both, with the attributes given, and never any text
static void token(bool symbolic_category) {
    srcMLOutput* o = arb(); if (vf_symbolic()) vf_options(o);
    int cat = vf_irange("category", 0, 2) == 0 ? STARTTOKEN : vf_bool("end") ? ENDTOKEN : EMPTYTOKEN;
    const char* name = vf_ident("name"); const char* prefix = vf_ident("prefix");
    const char* a1 = vf_bool("a1?") ? vf_ident("a1") : 0; const char* v1 = vf_text("v1"); const char* a2 = vf_bool("a2?") ? vf_ident("a2") : 0; const char* v2 = vf_text("v2");
    vf_assume((!a1 || *a1) && (!a2 || *a2) && !(a1 && a2 && !strcmp(a1, a2)));
    int before = o->openelementcount; vf_assume(before > -1000000 && before < 1000000);
    antlr::RefToken t(new srcMLToken(5, cat));
    vg_out_reset();
    o->processToken(t, name, prefix, a1, v1, a2, v2);
    if (!*name) { vf_assert(vg_out_is("") && o->openelementcount == before, "a token without an element name writes nothing"); vf_reach("none"); }
    else if (cat == STARTTOKEN) { vf_assert(vg_is_start(prefix, name, a1, v1, a2, v2, false), "a start token writes one start tag with its attributes"); vf_assert(o->openelementcount == before + 1, "a start token opens one element"); vf_reach("start"); }
    else if (cat == EMPTYTOKEN) { vf_assert(vg_is_start(prefix, name, a1, v1, a2, v2, true), "an empty token writes one start tag with its attributes and one end tag"); vf_assert(o->openelementcount == before, "an empty token leaves no element open"); vf_reach("empty"); }
    else { vf_assert(vg_is_end(), "an end token writes one end tag"); vf_assert(o->openelementcount == before - 1, "an end token closes one element"); vf_reach("end"); }
    done(o);
}
VF_HARNESS(markup_token) { token(true); }
