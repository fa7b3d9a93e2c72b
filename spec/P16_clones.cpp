// P16: a clone behaves as its original, and neither is changed by what is done with the other (twins are built by the same operations).
#include "nat.h"
#ifdef VF_NATIVE
using namespace nat;
int srcml_archive_register_macro(struct srcml_archive*, const char*, const char*); size_t srcml_archive_get_macro_list_size(const struct srcml_archive*);
const char* srcml_archive_get_macro_token(const struct srcml_archive*, size_t); const char* srcml_archive_get_macro_type(const struct srcml_archive*, size_t);
struct Op { int k; std::string s, t; unsigned long long n; bool null; };
static std::string text(const char* n) { std::string s = vf_text(n); for (size_t i = 0; i < s.size(); ++i) if ((unsigned char) s[i] < ' ') s[i] = '.'; return s; }
static const char XSLT[] = "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" xmlns:s=\"http://www.srcML.org/srcML/src\" version=\"1.0\"><xsl:param name=\"p\">0</xsl:param><xsl:param name=\"q\">0</xsl:param><xsl:template match=\"/\"><s:unit><s:name><xsl:value-of select=\"$p\"/>-<xsl:value-of select=\"$q\"/></s:name></s:unit></xsl:template></xsl:stylesheet>";
static const char RNG[] = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><ref name=\"a\"/></start><define name=\"a\"><element><anyName/><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"a\"/></choice></zeroOrMore></element></define></grammar>";
static Op archive_op() {
    static const char* const XP[] = { "//src:name", "//src:expr", "count(//src:name)", "string(//src:name)", "//src:unit" }; static const char* const L[] = { "C", "C++", "C#", "Java", "Objective-C" }; static const char* const E[] = { "x", "cpp", "y.z", "h", "gz" }; static const char* const NS[] = { SRC, CPP, POS, "http://x.org", "http://y.org" }; static const char* const PRE[] = { "", "src", "a", "cpp", "b" }; static const char* const ENC[] = { "UTF-8", "ISO-8859-1", "UTF-16" };
    Op o; o.k = pick("op", 24); o.n = 0; o.null = pick("null", 5) == 0;
    switch (o.k) {
        case 0: case 1: o.s = PICK("encoding", ENC); break;
        case 2: o.s = PICK("language", L); break;
        case 3: case 4: o.s = text("value"); break;
        case 5: o.n = pick("position", 2) ? SRCML_OPTION_POSITION : vf_u64("options") & 127; break;
        case 6: case 7: o.n = 1u << pick("bit", 7); break;
        case 8: o.n = vf_irange("tabs", 1, 12); break;
        case 9: o.n = pick("which", 4); break;
        case 10: o.s = PICK("ext", E); o.t = PICK("language", L); break;
        case 11: case 12: o.s = PICK("prefix", PRE); o.t = PICK("uri", NS); break;
        case 13: o.s = vf_bool("token") ? "MACRO" : "a"; o.t = "src:macro"; break;
        case 14: o.s = "pi"; o.t = text("data"); break;
        case 15: case 16: case 17: o.s = PICK("xpath", XP); o.n = pick("kind", 3); break;
        case 18: break; // XSLT
        case 19: break; // RelaxNG
        case 20: case 21: case 22: o.s = vf_bool("name") ? "p" : "q"; o.t = vf_bool("value") ? "1" : "2"; o.n = pick("string", 2); break;
        case 23: o.n = pick("clear", 3); break; }
    return o; }
static void apply(srcml_archive* a, const Op& o) {
    const char* s = o.null ? 0 : o.s.c_str();
    switch (o.k) {
        case 0: srcml_archive_set_src_encoding(a, s); break; case 1: srcml_archive_set_xml_encoding(a, s); break; case 2: srcml_archive_set_language(a, s); break; case 3: srcml_archive_set_url(a, s); break; case 4: srcml_archive_set_version(a, s); break;
        case 5: srcml_archive_set_options(a, o.n); break; case 6: srcml_archive_enable_option(a, o.n); break; case 7: srcml_archive_disable_option(a, o.n); break; case 8: srcml_archive_set_tabstop(a, o.n); break;
        case 9: if (o.n == 0) srcml_archive_enable_solitary_unit(a); else if (o.n == 1) srcml_archive_disable_solitary_unit(a); else if (o.n == 2) srcml_archive_disable_hash(a); else srcml_archive_enable_hash(a); break;
        case 10: srcml_archive_register_file_extension(a, o.s.c_str(), o.t.c_str()); break; case 11: case 12: srcml_archive_register_namespace(a, o.s.c_str(), o.t.c_str()); break; case 13: srcml_archive_register_macro(a, o.s.c_str(), o.t.c_str()); break; case 14: srcml_archive_set_processing_instruction(a, o.s.c_str(), o.t.c_str()); break;
        case 15: case 16: case 17: if (o.n == 0) srcml_append_transform_xpath(a, o.s.c_str()); else if (o.n == 1) srcml_append_transform_xpath_attribute(a, o.s.c_str(), "at", "http://at.org", "k", "v"); else srcml_append_transform_xpath_element(a, o.s.c_str(), "el", "http://el.org", "e"); break;
        case 18: srcml_append_transform_xslt_memory(a, XSLT, sizeof XSLT - 1); break; case 19: srcml_append_transform_relaxng_memory(a, RNG, sizeof RNG - 1); break;
        case 20: case 21: case 22: if (o.n) srcml_append_transform_stringparam(a, o.s.c_str(), o.t.c_str()); else srcml_append_transform_param(a, o.s.c_str(), o.t.c_str()); break;
        case 23: if (o.n == 0) srcml_clear_transforms(a); else srcml_archive_set_srcdiff_revision(a, o.n - 1); break; }
}
static void add(std::string& r, const char* s) { r += s ? std::string("[") + s + "]" : "0"; r += ' '; }
static void add(std::string& r, unsigned long long n) { char b[32]; snprintf(b, sizeof b, "%llu ", n); r += b; }
static std::string attributes(const srcml_archive* a) {
    std::string r; add(r, srcml_archive_get_src_encoding(a)); add(r, srcml_archive_get_xml_encoding(a)); add(r, srcml_archive_get_revision(a)); add(r, srcml_archive_get_language(a)); add(r, srcml_archive_get_url(a)); add(r, srcml_archive_get_version(a));
    add(r, srcml_archive_get_options(a)); add(r, srcml_archive_get_tabstop(a)); add(r, srcml_archive_is_solitary_unit(a)); add(r, srcml_archive_has_hash(a)); add(r, srcml_archive_get_srcdiff_revision(a)); add(r, srcml_archive_get_processing_instruction_target(a)); add(r, srcml_archive_get_processing_instruction_data(a));
    size_t n = srcml_archive_get_namespace_size(a); add(r, n); for (size_t i = 0; i < n; ++i) { add(r, srcml_archive_get_namespace_prefix(a, i)); add(r, srcml_archive_get_namespace_uri(a, i)); }
    n = srcml_archive_get_macro_list_size(a); add(r, n); for (size_t i = 0; i < n; ++i) { add(r, srcml_archive_get_macro_token(a, i)); add(r, srcml_archive_get_macro_type(a, i)); }
    static const char* const F[] = { "a.cpp", "a.c", "a.java", "a.x", "a.y.z", "a.h", "a.gz" }; for (int i = 0; i < 7; ++i) add(r, srcml_archive_check_extension(a, F[i])); return r; }
static void unit_state(std::string& r, srcml_unit* u) { add(r, srcml_unit_get_src_encoding(u)); add(r, srcml_unit_get_revision(u)); add(r, srcml_unit_get_language(u)); add(r, srcml_unit_get_filename(u)); add(r, srcml_unit_get_version(u)); add(r, srcml_unit_get_timestamp(u)); add(r, srcml_unit_get_hash(u)); add(r, srcml_unit_get_eol(u)); }
static std::string sample(const srcml_archive* a) { const char* l = srcml_archive_get_language(a); return l && !strcmp(l, "Java") ? "class MACRO { int a; }\n" : "MACRO int a = b;\n\tf(c);\n"; }
static srcml_unit* parsed(std::string& r, srcml_archive* a) { srcml_unit* u = srcml_unit_create(a); const char* l = srcml_archive_get_language(a); if (!l) srcml_unit_set_language(u, "C++"); std::string s = sample(a); add(r, srcml_unit_parse_memory(u, s.data(), s.size())); add(r, srcml_unit_get_srcml(u)); add(r, srcml_unit_get_srcml_outer(u)); return u; }
// everything an archive that is not open does: parse, write, transform
static std::string behaviour(srcml_archive* a) {
    std::string r = attributes(a); char* b = 0; size_t n = 0; add(r, srcml_archive_write_open_memory(a, &b, &n)); srcml_unit* u = parsed(r, a); add(r, srcml_archive_write_unit(a, u)); 
    srcml_transform_result* t = 0; add(r, srcml_unit_apply_transforms(a, u, &t)); if (t) { add(r, srcml_transform_get_type(t)); add(r, srcml_transform_get_string(t)); char x[40]; snprintf(x, sizeof x, "%g %d ", srcml_transform_get_number(t), srcml_transform_get_bool(t)); r += x; int k = srcml_transform_get_unit_size(t); add(r, k); for (int i = 0; i < k; ++i) { add(r, srcml_unit_get_srcml(srcml_transform_get_unit(t, i))); } srcml_transform_free(t); }
    srcml_unit_free(u); srcml_archive_close(a); if (b) r += std::string(b, n); srcml_memory_free(b); return r; }
static void same(const std::string& x, const std::string& y, const char* what) { if (x != y && getenv("VF_STDERR")) fprintf(stderr, "%s\n--- %s\n+++ %s\n", what, x.c_str(), y.c_str()); vf_assert(x == y, what); }
static std::vector<Op> ops(const char* n, int max) { std::vector<Op> v; for (int k = vf_irange(n, 0, max); k; --k) v.push_back(archive_op()); return v; }
static void all(srcml_archive* a, const std::vector<Op>& v) { for (size_t i = 0; i < v.size(); ++i) apply(a, v[i]); }
static const char DOC[] = "<unit xmlns=\"http://www.srcML.org/srcML/src\" xmlns:cpp=\"http://www.srcML.org/srcML/cpp\" revision=\"0.9\" url=\"read\"><unit revision=\"0.9\" language=\"C\" filename=\"a.c\"><name>a</name></unit><unit revision=\"0.9\" language=\"Java\"><name>b</name></unit></unit>";
VF_NATIVE_HARNESS(archive_clones) {
    std::vector<Op> before = ops("before", 8), after = ops("after", 5); int open = pick("open", 4); // 0, 1: not open, 2: open for writing, 3: for reading
    srcml_archive* a = srcml_archive_create(); srcml_archive* twin = srcml_archive_create(); srcml_archive* twin2 = srcml_archive_create(); all(a, before); all(twin, before); all(twin2, before);
    char *b = 0, *tb = 0; size_t n = 0, tn = 0; std::string ra, rt;
    if (open == 2) { srcml_archive_write_open_memory(a, &b, &n); srcml_archive_write_open_memory(twin, &tb, &tn); srcml_unit* u = parsed(ra, a); srcml_archive_write_unit(a, u); srcml_unit_free(u); u = parsed(rt, twin); srcml_archive_write_unit(twin, u); srcml_unit_free(u); }
    if (open == 3) { srcml_archive_read_open_memory(a, DOC, sizeof DOC - 1); srcml_archive_read_open_memory(twin, DOC, sizeof DOC - 1); srcml_archive_read_open_memory(twin2, DOC, sizeof DOC - 1); srcml_archive_close(twin2); }
    srcml_archive* c = srcml_archive_clone(a); vf_assert(c != 0, "an archive can be cloned"); same(attributes(a), attributes(c), "a clone has the attributes of its original"); same(attributes(twin), attributes(a), "cloning does not change the original");
    bool onclone = vf_bool("onclone"), freed = vf_bool("freed");
    if (open == 0 || open == 1) {
        if (onclone) { all(c, after); if (vf_bool("used")) behaviour(c); if (freed) srcml_archive_free(c); same(behaviour(twin), behaviour(a), "what is done with a clone does not change the original"); if (!freed) { all(twin2, after); std::string x = behaviour(c), y = behaviour(twin2); (void) x; (void) y; srcml_archive_free(c); } }
        else { all(a, after); if (vf_bool("used")) behaviour(a); if (freed) srcml_archive_free(a); same(behaviour(twin), behaviour(c), "a clone behaves as its original, whatever is done with the original since"); srcml_archive_free(c); }
        if (!(freed && !onclone)) srcml_archive_free(a);
    } else {
        if (open == 2) { if (onclone) { all(c, after); } else same(behaviour(twin2), behaviour(c), "a clone of an open archive behaves as one that is not open"); }
        else { if (onclone) all(c, after); behaviour(c); }
        if (freed) { srcml_archive_free(c); c = 0; }
        if (open == 2) { srcml_unit* u = parsed(ra, a); srcml_archive_write_unit(a, u); srcml_unit_free(u); srcml_archive_close(a); u = parsed(rt, twin); srcml_archive_write_unit(twin, u); srcml_unit_free(u); srcml_archive_close(twin); same(std::string(tb, tn), std::string(b, n), "what is done with a clone does not change what the original writes"); srcml_memory_free(b); srcml_memory_free(tb); }
        else for (int k = 0; k < 3; ++k) { srcml_unit* u = srcml_archive_read_unit(a); srcml_unit* v = srcml_archive_read_unit(twin); vf_assert((u != 0) == (v != 0), "what is done with a clone does not change what the original reads"); if (u) { std::string x, y; unit_state(x, u); unit_state(y, v); add(x, srcml_unit_get_srcml(u)); add(y, srcml_unit_get_srcml(v)); same(y, x, "what is done with a clone does not change what the original reads"); srcml_unit_free(u); srcml_unit_free(v); } }
        srcml_archive_close(a); srcml_archive_close(twin); srcml_archive_free(a); if (c) srcml_archive_free(c);
    }
    srcml_archive_free(twin); srcml_archive_free(twin2); vf_reach("end");
}
// ---- units
static Op unit_op() { static const char* const L[] = { "C", "C++", "C#", "Java", "Objective-C" }; Op o; o.k = pick("op", 9); o.n = 0; o.null = pick("null", 5) == 0; switch (o.k) { case 0: o.s = vf_bool("encoding") ? "UTF-8" : "ISO-8859-1"; break; case 1: o.s = PICK("language", L); break; case 2: case 3: case 4: case 5: o.s = text("value"); break; case 6: o.n = vf_irange("eol", 0, 4); break; case 7: o.s = vf_bool("prefix") ? "a" : "b"; o.t = vf_bool("uri") ? "http://x.org" : CPP; break; case 8: o.n = pick("source", 2); break; } return o; }
static void apply(srcml_unit* u, const Op& o) { const char* s = o.null ? 0 : o.s.c_str(); switch (o.k) { case 0: srcml_unit_set_src_encoding(u, s); break; case 1: srcml_unit_set_language(u, s); break; case 2: srcml_unit_set_filename(u, s); break; case 3: srcml_unit_set_version(u, s); break; case 4: srcml_unit_set_timestamp(u, s); break; case 5: srcml_unit_set_filename(u, o.s.c_str()); break; case 6: srcml_unit_set_eol(u, o.n); break; case 7: break; case 8: if (!srcml_unit_get_language(u)) srcml_unit_set_language(u, "C"); { std::string t = o.n ? "int a;\n" : "#define B\n"; srcml_unit_parse_memory(u, t.data(), t.size()); } break; } }
static std::string unit_behaviour(srcml_unit* u, bool parse) { std::string r; unit_state(r, u); if (parse) { if (!srcml_unit_get_language(u)) srcml_unit_set_language(u, "C++"); add(r, srcml_unit_parse_memory(u, "#define A\nint x;\n", 17)); add(r, srcml_unit_get_srcml(u)); unit_state(r, u); } else add(r, srcml_unit_get_srcml(u)); return r; }
VF_NATIVE_HARNESS(unit_clones) {
    srcml_archive* a = srcml_archive_create(); srcml_archive_set_src_encoding(a, "UTF-8"); srcml_unit* u; srcml_unit* twin; srcml_archive* ra = 0; srcml_archive* rb = 0;
    if (pick("read", 4) == 0) { ra = srcml_archive_create(); rb = srcml_archive_create(); srcml_archive_read_open_memory(ra, DOC, sizeof DOC - 1); srcml_archive_read_open_memory(rb, DOC, sizeof DOC - 1); u = srcml_archive_read_unit(ra); twin = srcml_archive_read_unit(rb); }
    else { u = srcml_unit_create(a); twin = srcml_unit_create(a); }
    for (int k = vf_irange("before", 0, 6); k; --k) { Op o = unit_op(); apply(u, o); apply(twin, o); }
    std::string x, y; srcml_unit* c = srcml_unit_clone(u); vf_assert(c != 0, "a unit can be cloned"); unit_state(x, u); unit_state(y, c); same(x, y, "the clone of a unit has its attributes"); x.clear(); unit_state(x, twin); y.clear(); unit_state(y, u); same(x, y, "cloning does not change the original");
    vf_assert(srcml_unit_get_srcml(c) == 0, "the contents of a unit are not cloned");
    bool onclone = vf_bool("onclone"); srcml_unit* o = onclone ? c : u; srcml_unit* other = onclone ? u : c;
    for (int k = vf_irange("after", 0, 4); k; --k) apply(o, unit_op()); if (vf_bool("used")) unit_behaviour(o, true); if (vf_bool("freed")) { srcml_unit_free(o); o = 0; }
    bool parse = !onclone || vf_bool("parse"); same(unit_behaviour(twin, parse), unit_behaviour(other, parse), onclone ? "what is done with a clone does not change the original unit" : "a clone behaves as its original unit, whatever is done with the original since");
    if (o) srcml_unit_free(o); srcml_unit_free(other); srcml_unit_free(twin); if (ra) { srcml_archive_close(ra); srcml_archive_free(ra); srcml_archive_close(rb); srcml_archive_free(rb); } srcml_archive_free(a); vf_reach("end");
}
#endif
