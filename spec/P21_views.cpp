// P21: the three views of a unit are slices of one text.
#include "api.h"
#ifndef VF_NATIVE
#include <new>
template<class T> static void none(boost::optional<T>* o) { new (o) boost::optional<T>(); }
// the text of a unit: A = up to the declarations of the archive, N = those declarations, B, U = the url attribute, C = the rest
struct Text { std::string a, n, b, u, c, all; }; static Text* g;
static void any(const char* name, std::string& s, size_t max) { s = vf_cstr(name); vf_assume(s.size() < max); }
static bool g_url; static srcml_unit* g_unit; static int g_bodies;
extern "C" void vg_find_is(const std::string* x, const char* y, size_t r);
static void no(const std::string& s, const char* c) { vf_assume(s.find(c) == std::string::npos); }
static void text(srcml_unit* u) {
    g = new Text; any("before", g->a, 1u << 20); any("declarations", g->n, 1u << 20); any("between", g->b, 1u << 20); any("after", g->c, 1u << 28); vf_assume(g->a.size() > 0);
    std::string head = g->a; head += g->n; head += g->b; size_t at = head.size();
    g_url = vf_bool("url");
    if (g_url) { std::string v; any("value", v, 1u << 20); no(v, "\""); no(v, ">"); g->u = " url=\""; g->u += v; g->u += "\""; head += g->u; }
    // the start tag contains all of this, and the url attribute is its only one
    no(g->a, ">"); no(g->n, ">"); no(g->b, ">"); std::string t; any("attributes", t, 1u << 20); no(t, ">"); std::string c = g->c; g->c = t; g->c += ">"; g->c += c;
    std::string tag = head; tag += t; if (g_url) vg_find_is(&tag, " url=\"", at); else vg_find_is(&tag, " url=\"", std::string::npos);
    u->srcml = head; u->srcml += g->c;
    u->insert_begin = (int) g->a.size(); u->insert_end = (int) (g->a.size() + g->n.size());
    g->all = u->srcml;
}
static srcml_unit* arb(bool body) {
    srcml_unit* u = arb_unit(); g_unit = u; none(&u->archive->revision_number); none(&u->srcml_fragment); none(&u->srcml_raw); none(&u->srcml_revision); u->read_header = true; u->read_body = body; g_bodies = 0;
    if (body) text(u);
    return u;
}
// contract of srcml_sax2_reader::read_body: the unit is complete afterwards
extern "C" int vgs_read_body(srcml_sax2_reader*, srcml_unit* u) { vf_assert(u == g_unit, "the body of this unit is read"); ++g_bodies; text(u); u->read_body = true; return 1; }
static bool reads(srcml_unit* u) { int t = u->archive->type; return (t == SRCML_ARCHIVE_READ) | (t == SRCML_ARCHIVE_RW); }
static bool is(const char* r, const std::string& want) { vf_str_save(0, want.c_str()); return vf_str_same(0, r); }
VF_HARNESS(view_full) {
    srcml_unit* u = arb(true); const char* r = srcml_unit_get_srcml(u); vf_assert(is(r, g->all), "the full view is the text of the unit"); vf_reach("end");
}
VF_HARNESS(view_outer) {
    srcml_unit* u = arb(true); std::string want = g->a; want += g->b; want += g->c;
    const char* r = srcml_unit_get_srcml_outer(u);
    vf_assert(is(r, want), "the outer view is the unit without the declarations of the archive and the url");
    vf_assert(is(u->srcml.c_str(), g->all), "the text of the unit is not changed");
    const char* q = srcml_unit_get_srcml_outer(u); vf_assert(is(q, want), "the outer view stays the same"); vf_reach("end");
}
VF_HARNESS(view_inner) {
    srcml_unit* u = arb_unit(); none(&u->archive->revision_number); none(&u->srcml_raw); u->read_header = vf_bool("header"); u->read_body = true;
    std::string tag, content, end; any("tag", tag, 1u << 28); any("content", content, 1u << 28); any("end", end, 1u << 28);
    u->srcml = tag; u->srcml += content; u->srcml += end; u->content_begin = (int) tag.size(); u->content_end = (int) (tag.size() + content.size() + 1); std::string all = u->srcml;
    vf_assert(is(srcml_unit_get_srcml_inner(u), content), "the inner view is the text between the start tag and the end tag");
    vf_assert(is(u->srcml.c_str(), all), "the text of the unit is not changed");
    vf_assert(is(srcml_unit_get_srcml_inner(u), content), "the inner view stays the same"); vf_reach("end");
}
VF_HARNESS(view_inner_empty) {
    srcml_unit* u = arb_unit(); none(&u->archive->revision_number); u->read_header = true; u->read_body = true; u->content_begin = (int) vf_size("begin", 0, 1 << 30); u->content_end = u->content_begin; u->srcml = vf_cstr("text");
    vf_assert(is(srcml_unit_get_srcml_inner(u), ""), "a unit without content has an empty inner view"); vf_reach("end");
}
VF_HARNESS(view_after_header) {
    srcml_unit* u = arb(false); u->archive->type = vf_bool("read") ? SRCML_ARCHIVE_READ : SRCML_ARCHIVE_RW;
    const char* r = srcml_unit_get_srcml(u); vf_assert(g_bodies == 1, "the body is read when it is needed"); vf_assert(is(r, g->all), "the full view is the text of the unit");
    srcml_unit_get_srcml_outer(u); vf_assert(g_bodies == 1, "the body is read once"); vf_reach("end");
}
VF_HARNESS(view_nothing) {
    srcml_unit* u = arb_unit(); u->read_header = false; u->read_body = false;
    vf_assert((srcml_unit_get_srcml(u) == 0) & (srcml_unit_get_srcml_outer(u) == 0) & (srcml_unit_get_srcml_inner(u) == 0), "a unit without content has no views"); vf_reach("end");
}
#endif
