// P14: a unit written by elements holds exactly the tree that was written.
#include "nat.h"
#ifdef VF_NATIVE
using namespace nat;
static std::string attesc(const std::string& s) { std::string e = escape(s), o; for (size_t i = 0; i < e.size(); ++i) if (e[i] == '\n') o += "&#10;"; else if (e[i] == '\t') o += "&#9;"; else if (e[i] == '\r') o += "&#13;"; else o += e[i]; return o; }
static std::string texesc(const std::string& s) { std::string e = escape(s), o; for (size_t i = 0; i < e.size(); ++i) if (e[i] == '\r') o += "&#13;"; else o += e[i]; return o; }
static void tree(const Node& n, std::string& o) {
    if (n.istext) { o += "'" + n.text + "'"; return; } o += "{" + n.uri + "}" + n.prefix + ":" + n.name + "("; std::map<std::string, std::string> m; for (size_t i = 0; i < n.attrs.size(); ++i) m[n.attrs[i].prefix + ":" + n.attrs[i].name + "{" + n.attrs[i].uri + "}"] = n.attrs[i].value;
    for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) o += i->first + "=" + i->second + ","; for (std::map<std::string, std::string>::const_iterator i = n.ns.begin(); i != n.ns.end(); ++i) o += "xmlns " + i->first + "=" + i->second + ","; o += ")["; for (size_t i = 0; i < n.kids.size(); ++i) tree(n.kids[i], o); o += "]"; }
static std::string tree(const std::string& s, const char* what) { Node n; std::string err, o; bool ok = fragment(s, n, &err); if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s: %s\n%s\n", what, err.c_str(), s.c_str()); vf_assert(ok, "the unit is well-formed"); for (size_t i = 0; i < n.kids.size(); ++i) tree(n.kids[i], o); return o; }
static const char* const NAMES[] = { "expr", "name", "block", "a", "units", "Unit", "uni", "x-y.z", "decl_stmt", "\xc3\xa9l" };
static const char* const PRE[] = { "cpp", "pos", "q", "my-p", "s" };
static const char* const URI[] = { CPP, POS, "http://q.org/?a=1&b=\"2\"<", "urn:\xc3\xa9", "http://www.srcML.org/srcML/src2" };
static const char* const BITS2[] = { "a", "x = 1;", "\n", "<", ">", "&", "\"", "'", "\"quoted\"", "\"\"", "\t", "\r", "\r\n", "]]>", "<!-- c -->", "&amp;", "&#65;", "</unit>", "<unit>", "/>", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "  ", "%s%n", "a\nb\n", "\"\n", "int main() { puts(\"hi\"); }\n" };
static std::string text(const char* n) { std::string s; if (pick(n, 4) == 0) return vf_text(n); for (int k = vf_irange(n, 0, 4); k; --k) s += PICK(n, BITS2); if (pick(n, 40) == 0) { std::string t = s; for (int k = vf_irange(n, 50, 1500); k; --k) s += t; s += "\""; } return s; }
struct Elem { std::set<std::string> ns, at; };
struct Model { srcml_unit* u; bool on, open, said; std::string s, src, lang, file; std::vector<Elem> el; std::string version; bool set, used; Model() : u(0), on(false), open(false), said(false), set(false), used(false) {}
    void close() { if (open && !el.empty()) s += ">"; open = false; said = true; }
    void reset() { on = true; open = false; said = false; s = src = ""; el.clear(); }
    void pop() { if (open) s += "/>"; else s += "</" + names.back() + ">"; names.pop_back(); el.pop_back(); open = false; }
    std::vector<std::string> names; };
static const int OK = SRCML_STATUS_OK, BADARG = SRCML_STATUS_INVALID_ARGUMENT, BADIN = SRCML_STATUS_INVALID_INPUT;
static void start(Model& m) { vf_assert(srcml_write_start_unit(m.u) == OK, "a unit is started"); m.reset(); m.names.clear(); }
static void finish(Model& m) {
    vf_assert(srcml_write_end_unit(m.u) == (m.on ? OK : BADIN), "a unit that was started, and only one that was, is ended"); if (!m.on) return; while (!m.el.empty()) m.pop(); m.on = false; }
static void check(Model& m, bool now = true) {
    std::string full = str(srcml_unit_get_srcml(m.u)), outer = str(srcml_unit_get_srcml_outer(m.u)), inner = str(srcml_unit_get_srcml_inner(m.u)); std::string err; Node r; bool ok = xml(full, r, &err);
    if (getenv("VF_STDERR")) fprintf(stderr, "full %s\nouter %s\ninner %s\nwant %s\n", full.c_str(), outer.c_str(), inner.c_str(), m.s.c_str());
    vf_assert(ok, "the unit is well-formed"); vf_assert(r.is("unit") && r.attr("language") && *r.attr("language") == m.lang, "the unit is a unit of the language"); if (now && m.set) vf_assert(r.attr("filename") && *r.attr("filename") == m.file && r.attr("version") && *r.attr("version") == m.version, "the unit has the attributes it was given last"); vf_assert(tree(inner, "inner") == tree(m.s, "model"), "the unit holds the tree that was written, all and only it");
    vf_assert(source(r) == m.src, "the text of the unit is the text that was written"); vf_assert(outer.size() >= inner.size() && outer.find(inner) != std::string::npos && outer.compare(0, 5, "<unit") == 0, "the unit is its tag around the tree");
    int lines = std::count(m.src.begin(), m.src.end(), '\n'); if (!m.src.empty() && m.src[m.src.size() - 1] != '\n') ++lines; vf_assert(srcml_unit_get_loc(m.u) == lines, "the lines are those of the text"); }
static void op(Model& m) {
    switch (pick("op", 14)) {
    case 0: case 1: case 2: { int p = pick("prefix", 9); std::string n = PICK("name", NAMES); bool bad = pick("bad", 25) == 0; if (bad) n = "unit"; const char* pre = p < 5 ? PRE[p] : 0; const char* uri = p < 5 ? URI[p] : p < 8 ? 0 : SRC; int st = srcml_write_start_element(m.u, pre, n.c_str(), uri);
        vf_assert(st == (m.on && !bad ? OK : BADIN), "an element is started in a unit that is being written, except a unit"); if (st) break; m.close(); n = (pre ? std::string(pre) + ":" : "") + n; m.s += "<" + n; Elem e; if (p < 5) { m.s += " xmlns:" + std::string(pre) + "=\"" + escape(uri) + "\""; e.ns.insert(pre); } m.el.push_back(e); m.names.push_back(n); m.open = true; break; }
    case 3: case 4: { int st = srcml_write_end_element(m.u); vf_assert(st == (m.on && !m.el.empty() ? OK : BADIN), "an element that is open, and only one that is, is ended"); if (!st) m.pop(); break; }
    case 5: case 6: { int p = pick("aprefix", 7); std::string n = PICK("aname", NAMES), v = text("avalue"); std::string q = (p < 5 ? std::string(PRE[p]) + ":" : "") + n; if (m.on && m.el.empty() && !m.said) break; /* an attribute of the unit itself: not by elements */ if (m.open && m.el.back().at.count(q)) break;
        int st = srcml_write_attribute(m.u, p < 5 ? PRE[p] : 0, n.c_str(), p < 5 ? URI[p] : 0, v.c_str()); vf_assert(st == (m.on && m.open ? OK : BADIN), "an attribute is written in the start of an element, and only there"); if (st) break;
        m.el.back().at.insert(q); m.s += " " + q + "=\"" + attesc(v) + "\""; if (p < 5 && m.el.back().ns.insert(PRE[p]).second) m.s += " xmlns:" + std::string(PRE[p]) + "=\"" + escape(URI[p]) + "\""; break; }
    case 7: { static const char* const NP[] = { "n1", "n2", "zz" }; std::string p = PICK("np", NP), uri = pick("nu", 2) ? "http://n.org/?x=<&\">" : "urn:n"; if (m.on && m.el.empty() && !m.said) break; if (m.open && m.el.back().ns.count(p)) break;
        int st = srcml_write_namespace(m.u, p.c_str(), uri.c_str()); vf_assert(st == (m.on && m.open ? OK : BADIN), "a namespace is declared in the start of an element, and only there"); if (st) break; m.el.back().ns.insert(p); m.s += " xmlns:" + p + "=\"" + escape(uri) + "\""; break; }
    case 8: case 9: case 10: { std::string t = text("text"), keep = t; int st = srcml_write_string(m.u, t.c_str()); vf_assert(st == (m.on ? OK : BADIN), "text is written in a unit that is being written"); vf_assert(t == keep, "the text of the caller is as it was"); if (st) break; m.close(); m.s += texesc(t); m.src += t; break; }
    case 11: if (vf_bool("literal")) { int st = srcml_write_string(m.u, "const \"text\"\n"); vf_assert(st == (m.on ? OK : BADIN), "text is written in a unit that is being written"); if (!st) { m.close(); m.s += "const &quot;text&quot;\n"; m.src += "const \"text\"\n"; } }
        else { vf_assert(srcml_write_start_element(0, 0, "a", 0) == BADARG && srcml_write_start_element(m.u, 0, 0, 0) == BADARG && srcml_write_end_element(0) == BADARG && srcml_write_string(m.u, 0) == BADARG && srcml_write_string(0, "a") == BADARG && srcml_write_attribute(m.u, 0, 0, 0, "v") == BADARG && srcml_write_attribute(0, 0, "a", 0, "v") == BADARG && srcml_write_namespace(m.u, "p", 0) == BADARG && srcml_write_namespace(0, "p", "u") == BADARG && srcml_write_start_unit(0) == BADARG && srcml_write_end_unit(0) == BADARG, "what is missing is reported"); } break;
    case 12: if (vf_bool("set")) { static const char* const F[] = { "", "a", "a much longer name/of a \"file\" & so on.cpp", "\xc3\xa9" }; m.file = PICK("file", F); srcml_unit_set_filename(m.u, m.file.c_str()); m.version = vf_bool("v") ? "2.0" : "1<2&3"; srcml_unit_set_version(m.u, m.version.c_str()); m.set = true; break; }
        if (pick("restart", 4) == 0 || !m.on) start(m); break;
    case 13: { bool was = m.on; if (pick("end", 3) == 0 || !m.on) { finish(m); if (was) check(m); } break; } } }
VF_NATIVE_HARNESS(trees) {
    srcml_archive* a = srcml_archive_create(); bool solo = pick("solitary", 4) == 0; if (solo) srcml_archive_enable_solitary_unit(a); if (vf_bool("custom")) srcml_archive_register_namespace(a, "q", URI[2]); if (vf_bool("hash")) srcml_archive_disable_hash(a); char* b = 0; size_t n = 0; vf_assert(srcml_archive_write_open_memory(a, &b, &n) == OK, "the archive is opened");
    int k = solo ? 1 : vf_irange("units", 1, 3); std::vector<Model> m(k); static const char* const L[] = { "C++", "C", "Java", "C#" };
    for (int i = 0; i < k; ++i) { m[i].u = srcml_unit_create(a); m[i].lang = PICK("lang", L); srcml_unit_set_language(m[i].u, m[i].lang.c_str()); if (vf_bool("filename")) srcml_unit_set_filename(m[i].u, "d/\"f\"&.cpp"); if (vf_bool("version")) srcml_unit_set_version(m[i].u, "1<2"); if (pick("before", 8) == 0) vf_assert(srcml_unit_parse_memory(m[i].u, "int before;\n", 12) == OK, "source parses"); if (vf_bool("start")) start(m[i]); }
    for (int c = vf_irange("ops", 1, 30); c; --c) op(m[pick("which", k)]);
    for (int i = 0; i < k; ++i) { if (!m[i].on) start(m[i]), op(m[i]), op(m[i]), op(m[i]); if (!m[i].on) start(m[i]); finish(m[i]); check(m[i]); }
    for (int i = 0; i < k; ++i) { vf_assert(srcml_archive_write_unit(a, m[i].u) == OK, "the unit is written to the archive"); check(m[i]); }
    if (vf_bool("after")) { Model keep = m[0]; op(m[0]); if (m[0].on) finish(m[0]); m[0] = keep; }
    srcml_archive_close(a); for (int i = 0; i < k; ++i) srcml_unit_free(m[i].u); srcml_archive_free(a);
    std::string doc(b, n); srcml_memory_free(b); if (getenv("VF_STDERR")) fprintf(stderr, "%s\n", doc.c_str()); Node r; std::string err; vf_assert(xml(doc, r, &err), "the document is well-formed");
    srcml_archive* rd = srcml_archive_create(); vf_assert(srcml_archive_read_open_memory(rd, doc.data(), doc.size()) == OK, "the document is read"); for (int i = 0; i < k; ++i) { srcml_unit* u = srcml_archive_read_unit(rd); vf_assert(u != 0, "every unit is read"); 
        if (getenv("VF_STDERR")) fprintf(stderr, "read %s\nwant %s\n", srcml_unit_get_srcml_inner(u), m[i].s.c_str()); vf_assert(tree(str(srcml_unit_get_srcml_inner(u)), "read") == tree(m[i].s, "model"), "the tree that was written is read"); char* s = 0; size_t sn = 0; srcml_unit_set_src_encoding(u, "UTF-8"); vf_assert(srcml_unit_unparse_memory(u, &s, &sn) == OK && std::string(s, sn) == m[i].src, "the text that was written is read"); srcml_memory_free(s); srcml_unit_free(u); }
    vf_assert(srcml_archive_read_unit(rd) == 0, "no other unit is read"); srcml_archive_close(rd); srcml_archive_free(rd); vf_reach("end");
}
#endif
