// P17: transformations are applied in order, each to every result of the one before; an independent tree walker is the oracle.
#include "nat.h"
#include <list>
#ifdef VF_NATIVE
using namespace nat;
// ---------------------------------------------------------------- a tree that can be changed
struct T { std::string name, uri, prefix, text; int kind; /* 0 element, 1 text */ std::vector<std::pair<std::string, std::string> > at; std::map<std::string, std::string> ns; std::vector<T*> kids; T* up; T() : kind(0), up(0) {} };
struct Pool { std::list<T> all; T* make() { all.push_back(T()); return &all.back(); } };
static T* build(Pool& p, const Node& n, T* up) { T* t = p.make(); t->up = up; if (n.istext) { t->kind = 1; t->text = n.text; return t; } t->name = n.name; t->prefix = n.prefix; t->uri = n.uri; t->ns = n.ns;
    for (size_t i = 0; i < n.attrs.size(); ++i) t->at.push_back(std::make_pair((n.attrs[i].prefix.empty() ? "" : n.attrs[i].prefix + ":") + n.attrs[i].name, n.attrs[i].value)); for (size_t i = 0; i < n.kids.size(); ++i) t->kids.push_back(build(p, n.kids[i], t)); return t; }
static void dump(const T* t, std::string& o) { if (t->kind == 1) { o += escape(t->text); return; } std::string q = (t->prefix.empty() ? "" : t->prefix + ":") + t->name; o += "<" + q;
    for (std::map<std::string, std::string>::const_iterator i = t->ns.begin(); i != t->ns.end(); ++i) o += (i->first.empty() ? " xmlns" : " xmlns:" + i->first) + "=\"" + escape(i->second) + "\"";
    for (size_t i = 0; i < t->at.size(); ++i) o += " " + t->at[i].first + "=\"" + escape(t->at[i].second) + "\""; o += ">"; for (size_t i = 0; i < t->kids.size(); ++i) dump(t->kids[i], o); o += "</" + q + ">"; }
static std::string dump(const T* t) { std::string o; dump(t, o); return o; }
static std::string canon(const std::string& s) { Node n; std::string err; if (!fragment(s, n, &err)) { if (getenv("VF_STDERR")) fprintf(stderr, "%s: %s\n", err.c_str(), s.c_str()); vf_assert(false, "a result is well-formed"); } Pool p; return dump(build(p, n, 0)); }
static void below(T* t, const std::string& pre, const std::string& name, std::vector<T*>& o) { if (t->kind) return; if ((name == "*" || t->name == name) && (name == "*" || (pre == "src" ? t->uri == SRC : t->uri == CPP))) o.push_back(t); for (size_t i = 0; i < t->kids.size(); ++i) below(t->kids[i], pre, name, o); }
static void texts(T* t, std::vector<T*>& o) { if (t->kind) o.push_back(t); for (size_t i = 0; i < t->kids.size(); ++i) texts(t->kids[i], o); }
static std::string textof(const T* t) { if (t->kind) return t->text; std::string o; for (size_t i = 0; i < t->kids.size(); ++i) o += textof(t->kids[i]); return o; }
// ---------------------------------------------------------------- steps
enum { DESC, SELF, DOC, KIDS, DESC2, UNION, ROOT, ELEMENT, ATTRIBUTE, TEXT, ATTR, COUNT, STRING, BOOL, NONE, IDENTITY, VALUE, VALID, INVALID, KINDS };
struct Step { int k; std::string pre, n, pre2, n2, xp, v, pn, pv; bool sp; };
static const char* const NM[][2] = { { "src", "if" }, { "src", "name" }, { "src", "expr" }, { "src", "block" }, { "src", "literal" }, { "src", "operator" }, { "src", "comment" }, { "src", "if_stmt" }, { "src", "unit" }, { "src", "nothing" }, { "src", "condition" }, { "src", "call" }, { "cpp", "directive" }, { "cpp", "define" }, { "src", "block_content" } };
static void nm(std::string& p, std::string& n) { int i = pick("name", 15); p = NM[i][0]; n = NM[i][1]; }
static std::vector<T*> eval(const Step& s, T* t) { std::vector<T*> o, a; switch (s.k) {
    case SELF: case DOC: case VALID: case IDENTITY: o.push_back(t); break;
    case KIDS: for (size_t i = 0; i < t->kids.size(); ++i) if (!t->kids[i]->kind) o.push_back(t->kids[i]); break;
    case DESC2: below(t, s.pre, s.n, a); for (size_t i = 0; i < a.size(); ++i) { std::vector<T*> b; for (size_t j = 0; j < a[i]->kids.size(); ++j) below(a[i]->kids[j], s.pre2, s.n2, b); for (size_t j = 0; j < b.size(); ++j) if (std::find(o.begin(), o.end(), b[j]) == o.end()) o.push_back(b[j]); }
        // in the order of the document
        { std::vector<T*> all, w; below(t, s.pre2, s.n2, all); for (size_t i = 0; i < all.size(); ++i) if (std::find(o.begin(), o.end(), all[i]) != o.end()) w.push_back(all[i]); o = w; } break;
    case UNION: { std::vector<T*> all; below(t, "", "*", all); for (size_t i = 0; i < all.size(); ++i) if ((all[i]->name == s.n && all[i]->uri == (s.pre == "src" ? SRC : CPP)) || (all[i]->name == s.n2 && all[i]->uri == (s.pre2 == "src" ? SRC : CPP))) o.push_back(all[i]); break; }
    case ROOT: if (t->name == s.n && t->uri == (s.pre == "src" ? SRC : CPP)) o.push_back(t); break;
    default: below(t, s.pre, s.n, o); }
    return o; }
static const char STYLE[] = "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" version=\"1.0\">";
static const char COPY[] = "<xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template></xsl:stylesheet>";
static const char PARAM[] = "<xsl:output method=\"text\"/><xsl:param name=\"p\">none</xsl:param><xsl:template match=\"/\">[<xsl:value-of select=\"$p\"/>]</xsl:template></xsl:stylesheet>";
static const char ANY[] = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><ref name=\"a\"/></start><define name=\"a\"><element><anyName/><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"a\"/></choice></zeroOrMore></element></define></grammar>";
static const char NOUNIT[] = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><element name=\"nothing\"><empty/></element></start></grammar>";
static int channel(srcml_archive* a, const std::string& s, bool xslt) { Scratch f("t.xml"); int how = pick("channel", 4); if (how == 0) return xslt ? srcml_append_transform_xslt_memory(a, s.data(), s.size()) : srcml_append_transform_relaxng_memory(a, s.data(), s.size());
    spit(f.f, s); if (how == 1) return xslt ? srcml_append_transform_xslt_filename(a, f.f.c_str()) : srcml_append_transform_relaxng_filename(a, f.f.c_str());
    if (how == 2) { FILE* x = fopen(f.f.c_str(), "r"); int st = xslt ? srcml_append_transform_xslt_FILE(a, x) : srcml_append_transform_relaxng_FILE(a, x); fclose(x); return st; }
    int d = open(f.f.c_str(), O_RDONLY); int st = xslt ? srcml_append_transform_xslt_fd(a, d) : srcml_append_transform_relaxng_fd(a, d); close(d); return st; }
static std::string xpath(const Step& s) { std::string q = s.pre + ":" + s.n, r = s.pre2 + ":" + s.n2; switch (s.k) { case DESC: case ELEMENT: case ATTRIBUTE: return "//" + q; case SELF: return "/*"; case DOC: return "/"; case KIDS: return "/*/*"; case DESC2: return "//" + q + "//" + r; case UNION: return "//" + q + " | //" + r; case ROOT: return "/" + q;
    case TEXT: return "//" + q + "/text()"; case ATTR: return "//" + q + "/@type"; case COUNT: return "count(//" + q + ")"; case STRING: return "string(//" + q + ")"; case BOOL: return "boolean(//" + q + ")"; case NONE: return "//" + q + "[false()]"; } return ""; }
struct Out { int type; std::vector<T*> el; std::vector<std::string> tx; std::string s; double num; bool b; Out() : type(0), num(0), b(false) {} };
// the oracle: what the list gives for the unit
static Out fold(Pool& p, const std::vector<Step>& l, T* unit) { Out o; std::vector<T*> cur(1, unit);
    for (size_t i = 0; i < l.size(); ++i) { const Step& s = l[i]; std::vector<T*> next; o = Out(); bool leaf = false;
        for (size_t c = 0; c < cur.size(); ++c) { std::vector<T*> r = eval(s, cur[c]); switch (s.k) {
            case ELEMENT: for (size_t j = 0; j < r.size(); ++j) { T* t = r[j]; T* w = p.make(); w->name = "el"; w->prefix = "p"; w->uri = "http://p"; if (t == cur[c]) { w->kids = t->kids; for (size_t z = 0; z < w->kids.size(); ++z) w->kids[z]->up = w; t->kids.assign(1, w); w->up = t; } else { *std::find(t->up->kids.begin(), t->up->kids.end(), t) = w; w->up = t->up; w->kids.push_back(t); t->up = w; } if (!s.v.empty()) w->at.push_back(std::make_pair("p:at", s.v)); } next.push_back(cur[c]); break;
            case ATTRIBUTE: for (size_t j = 0; j < r.size(); ++j) { size_t z = 0; while (z < r[j]->at.size() && r[j]->at[z].first != "p:at") ++z; if (z == r[j]->at.size()) r[j]->at.push_back(std::make_pair("p:at", s.v)); else if (r[j]->at[z].second != s.v) r[j]->at[z].second += " " + s.v; } next.push_back(cur[c]); break;
            case TEXT: { leaf = true; std::vector<T*> all; texts(cur[c], all); for (size_t z = 0; z < all.size(); ++z) if (std::find(r.begin(), r.end(), all[z]->up) != r.end() && std::find(o.el.begin(), o.el.end(), all[z]) == o.el.end()) { o.el.push_back(all[z]); o.tx.push_back(escape(all[z]->text)); } break; }
            case ATTR: leaf = true; for (size_t j = 0; j < r.size(); ++j) for (size_t z = 0; z < r[j]->at.size(); ++z) if (r[j]->at[z].first == "type" && std::find(o.el.begin(), o.el.end(), r[j]) == o.el.end()) { o.el.push_back(r[j]); o.tx.push_back("type=\"" + escape(r[j]->at[z].second) + "\""); } break;
            case COUNT: o.type = SRCML_RESULT_NUMBER; o.num = (double) r.size(); return o; case BOOL: o.type = SRCML_RESULT_BOOLEAN; o.b = !r.empty(); return o; case STRING: o.type = SRCML_RESULT_STRING; o.s = r.empty() ? "" : textof(r[0]); return o;
            case NONE: case INVALID: break; case VALUE: o.type = SRCML_RESULT_STRING; o.s = "[" + s.v + "]"; return o;
            default: for (size_t j = 0; j < r.size(); ++j) if (std::find(next.begin(), next.end(), r[j]) == next.end()) next.push_back(r[j]); } }
        if (leaf) { o.type = o.el.empty() ? SRCML_RESULT_NONE : SRCML_RESULT_UNITS; return o; }
        cur = next; o.el = cur; o.type = cur.empty() ? SRCML_RESULT_NONE : SRCML_RESULT_UNITS; if (cur.empty()) return o; }
    return o; }
static const char* const SRCS[] = { "if (a < b) { if (b) { f(1, \"x&\\\"y\"); } else g(); }\n", "if (a); if (1); if (c) { d; }\n", "// a <comment> & \"b\"\n/* c */\n", "#define A 1\n", "#include <a.h>\nint x;\n", "x = (y + 2) * z(3);\n", "", "#pragma omp parallel\nif (a && b >> 1) ;\n", "f(g(h(1)));\n", "if (a) {\n#define A 2\n}\n", "if (b) {\n#if c\nf(x); // d\n#endif\n} else {\n#pragma omp barrier\n}\n" };
static void compare(const Out& want, srcml_transform_result* r, srcml_archive* a, srcml_unit* u, const std::string& lang, bool sole) {
    int n = srcml_transform_get_unit_size(r); if (getenv("VF_STDERR")) { fprintf(stderr, "want type %d units %zu '%s' %g %d; have type %d units %d '%s' %g %d\n", want.type, want.el.size(), want.s.c_str(), want.num, want.b, srcml_transform_get_type(r), n, str(srcml_transform_get_string(r)).c_str(), srcml_transform_get_number(r), srcml_transform_get_bool(r)); for (size_t i = 0; i < want.el.size(); ++i) fprintf(stderr, " want %s\n", i < want.tx.size() ? want.tx[i].c_str() : dump(want.el[i]).c_str()); for (int i = 0; i < n; ++i) fprintf(stderr, " have %s\n", srcml_unit_get_srcml(srcml_transform_get_unit(r, i))); }
    vf_assert(srcml_transform_get_type(r) == want.type, "the type of the result is what the last transformation gave");
    vf_assert(n == (int) want.el.size(), "there is one unit for every result"); vf_assert(srcml_transform_get_unit(r, -1) == 0 && srcml_transform_get_unit(r, n) == 0, "there is no unit outside the results");
    if (want.type == SRCML_RESULT_STRING) vf_assert(srcml_transform_get_string(r) && want.s == srcml_transform_get_string(r), "the string is the result"); else vf_assert(srcml_transform_get_string(r) == 0, "a result of another type has no string");
    vf_assert(srcml_transform_get_number(r) == (want.type == SRCML_RESULT_NUMBER ? want.num : 0), "the number is the result"); vf_assert(srcml_transform_get_bool(r) == (want.type == SRCML_RESULT_BOOLEAN ? (int) want.b : -1), "the boolean is the result");
    for (int i = 0; i < n; ++i) { srcml_unit* x = srcml_transform_get_unit(r, i); vf_assert(x != 0 && x != u, "every result is a unit of its own"); for (int j = 0; j < i; ++j) vf_assert(srcml_transform_get_unit(r, j) != x, "every result is a unit of its own");
        bool unit = want.tx.empty() && want.el[i]->name == "unit" && want.el[i]->uri == SRC; std::string w = want.tx.empty() ? dump(want.el[i]) : want.tx[i], h = str(srcml_unit_get_srcml(x));
        if (unit && sole) { Node m, k; vf_assert(xml(h, m, 0, false) && m.name == "unit", "a unit is the result"); }
        vf_assert(canon(h) == canon(w), "the results are the nodes, in order"); vf_assert(str(srcml_unit_get_language(x)) == lang, "a result has the language of the unit");
        if (!unit) { vf_assert(canon(str(srcml_unit_get_srcml_inner(x))) == canon(w), "the content of a result is the node"); } } }
VF_NATIVE_HARNESS(apply_list) {
    srcml_archive* a = srcml_archive_create(); vf_assert(srcml_archive_register_namespace(a, "p", "http://p") == 0, "registered"); bool omp = vf_bool("omp"); if (omp) srcml_archive_register_namespace(a, "omp", "http://www.srcML.org/srcML/openmp"); char* b = 0; size_t bn = 0; srcml_archive_write_open_memory(a, &b, &bn);
    srcml_archive_enable_option(a, 0); int units = vf_irange("units", 1, 2); std::vector<srcml_unit*> us; std::vector<std::string> full; std::string lang = "C++";
    for (int i = 0; i < units; ++i) { srcml_unit* u = srcml_unit_create(a); std::string s; for (int k = vf_irange("parts", 1, 3); k; --k) s += PICK("src", SRCS); srcml_unit_set_language(u, "C++"); srcml_unit_set_filename(u, "a&.cpp"); vf_assert(srcml_unit_parse_memory(u, s.data(), s.size()) == 0, "parsed"); us.push_back(u); full.push_back(str(srcml_unit_get_srcml(u))); }
    std::vector<Step> l; bool nested = false, ended = false, copied = false, moved = false;
    for (int rounds = vf_irange("ops", 0, 6); rounds; --rounds) { Step s; s.sp = false; s.k = pick("kind", 3) ? pick("step", KINDS) : pick("path", 7); nm(s.pre, s.n); nm(s.pre2, s.n2); int st = 0;
        int op = pick("op", 12);
        if (op == 0 && pick("clear", 3) == 0) { vf_assert(srcml_clear_transforms(a) == 0, "the list is cleared"); l.clear(); nested = ended = copied = moved = false; continue; }
        if (op == 1) { // refused
            st = pick("refused", 9); int r = st == 0 ? srcml_append_transform_xpath(a, 0) : st == 1 ? srcml_append_transform_xpath_element(a, "//src:name", "p", "http://p", 0) : st == 2 ? srcml_append_transform_xpath_attribute(a, "//src:name", "p", "http://p", "at", 0) : st == 3 ? channel(a, "<not", true) : st == 4 ? channel(a, "<a/>", true) : st == 5 ? channel(a, "<a/>", false) : st == 6 ? srcml_append_transform_xslt_filename(a, "/nothing/here") : st == 7 ? srcml_append_transform_relaxng_memory(a, "", 0) : srcml_append_transform_param(a, "p", 0);
            vf_assert(r != 0, "an append without sense is refused"); continue; }
        if (op == 2) { vf_assert((srcml_append_transform_stringparam(a, ("q" + std::to_string(rounds)).c_str(), "v") == 0) == !l.empty() && (l.empty() ? srcml_append_transform_param(a, "p", "1") == SRCML_STATUS_NO_TRANSFORMATION : true), "a parameter needs a transformation"); if (l.empty()) continue; if (l.back().k != VALUE || l.back().sp) { continue; } bool q = vf_bool("string"); l.back().sp = true; vf_assert((q ? srcml_append_transform_stringparam(a, "p", "1+1") : srcml_append_transform_param(a, "p", "1+1")) == 0, "a parameter is added to the last transformation"); l.back().v = q ? "1+1" : "2"; continue; }
        bool leaf = false; for (size_t z = 0; z < l.size(); ++z) if (l[z].k == VALUE || l[z].k == TEXT || l[z].k == ATTR) leaf = true; if (leaf || (ended && pick("more", 2))) continue;
        // changes of the tree are only compared for results that are not inside of each other, documents of XSLT only for units
        if ((s.k == ELEMENT || s.k == ATTRIBUTE) && nested) s.k = DESC; if ((s.k == IDENTITY || s.k == VALUE) && moved) s.k = SELF; if ((s.k == VALID || s.k == INVALID) && moved) s.k = SELF; if (s.k == DOC && ended) s.k = SELF; if (s.k == ELEMENT && s.n == "unit") s.n = "name";
        s.xp = xpath(s);
        switch (s.k) {
            case ELEMENT: st = srcml_append_transform_xpath_element(a, s.xp.c_str(), "p", "http://p", "el"); break;
            case ATTRIBUTE: s.v = vf_bool("v") ? "v" : "w<&\""; if (!l.empty() && l.back().k == ELEMENT && vf_bool("same")) { s.xp = l.back().xp; if (!l.back().v.empty()) continue; st = srcml_append_transform_xpath_attribute(a, s.xp.c_str(), "p", "http://p", "at", s.v.c_str()); vf_assert(st == 0, "an attribute for the elements is appended"); l.back().v = s.v; continue; }
                if (!l.empty() && (l.back().k == ELEMENT || l.back().k == DESC) && vf_bool("longer")) { s.n = l.back().n; s.pre = l.back().pre; s.n2 = l.back().n2; s.pre2 = l.back().pre2; s.sp = l.back().sp; s.xp = xpath(s) + " "; } // an expression that only begins like the one before
                st = srcml_append_transform_xpath_attribute(a, s.xp.c_str(), "p", "http://p", "at", s.v.c_str()); if (!l.empty() && l.back().xp == s.xp && l.back().k != VALUE && l.back().k != IDENTITY && l.back().k != VALID && l.back().k != INVALID && (l.back().k != ATTRIBUTE && !(l.back().k == ELEMENT && !l.back().v.empty()))) { vf_assert(st == 0, "an attribute is appended"); if (l.back().k == ELEMENT) l.back().v = s.v; else { l.back().k = ATTRIBUTE; l.back().v = s.v; } continue; } break;
            case IDENTITY: st = channel(a, std::string(STYLE) + COPY, true); copied = true; break; case VALUE: s.v = "none"; st = channel(a, std::string(STYLE) + PARAM, true); break;
            case VALID: st = channel(a, ANY, false); break; case INVALID: st = channel(a, NOUNIT, false); break;
            default: st = srcml_append_transform_xpath(a, s.xp.c_str()); }
        vf_assert(st == 0, "a transformation is appended"); l.push_back(s); if (s.k != SELF && s.k != DOC && s.k != VALID && s.k != IDENTITY && s.k != ELEMENT && s.k != ATTRIBUTE) { nested = true; moved = true; } if (s.k >= TEXT && s.k != VALID && s.k != IDENTITY) ended = true; }
    for (int t = vf_irange("times", 1, 3); t; --t) { int i = pick("unit", units); std::string got; srcml_transform_result* r = 0; if (getenv("VF_STDERR")) { for (size_t k = 0; k < l.size(); ++k) fprintf(stderr, "step %d %s\n", l[k].k, l[k].xp.c_str()); fprintf(stderr, "%s\n", full[i].c_str()); }
        vf_assert(srcml_unit_apply_transforms(a, us[i], &r) == 0, "the transformations are applied"); for (int k = 0; k < units; ++k) vf_assert(full[k] == srcml_unit_get_srcml(us[k]), "the unit itself is not changed");
        if (l.empty()) { vf_assert(r == 0, "without transformations there is no result"); continue; }
        Pool p; Node n; std::string err; vf_assert(xml(full[i], n, &err), "the unit is well-formed"); T* root = build(p, n, 0); Out want = fold(p, l, root); compare(want, r, a, us[i], lang, copied);
        // the results are written and read as units
        srcml_archive* w = srcml_archive_create(); srcml_archive_register_namespace(w, "p", "http://p"); char* d = 0; size_t dn = 0; srcml_archive_write_open_memory(w, &d, &dn); int k = srcml_transform_get_unit_size(r); std::vector<std::string> in; for (int j = 0; j < k; ++j) { srcml_unit* x = srcml_transform_get_unit(r, j); vf_assert(srcml_archive_write_unit(w, x) == 0, "a result is written to an archive"); in.push_back(str(srcml_unit_get_srcml_inner(x))); }
        vf_assert(srcml_transform_free(r) == 0, "the result is freed"); srcml_archive_close(w); srcml_archive_free(w); std::string doc(d, dn); srcml_memory_free(d); Node dr; bool ok = xml(doc, dr, &err); if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s\n%s\n", err.c_str(), doc.c_str()); vf_assert(ok, "an archive of the results is well-formed"); std::vector<const Node*> q; for (size_t j = 0; j < dr.kids.size(); ++j) if (dr.kids[j].is("unit")) q.push_back(&dr.kids[j]); vf_assert((int) q.size() == k, "an archive of the results has every result");
        for (int j = 0; j < k; ++j) { char item[40]; snprintf(item, sizeof item, "%d", j + 1); bool unit = want.tx.empty() && want.el[j]->name == "unit"; if (getenv("VF_STDERR") && unit != !q[j]->attr("item")) fprintf(stderr, "%s\n", doc.c_str()); vf_assert(unit ? !q[j]->attr("item") : q[j]->attr("item") && *q[j]->attr("item") == item, "a result that is not a unit has the number of the result"); vf_assert(q[j]->attr("filename") && *q[j]->attr("filename") == "a&.cpp", "a result has the filename of the unit"); vf_assert(canon(doc.substr(q[j]->b1, q[j]->b2 - q[j]->b1)) == canon(in[j]), "an archive of the results has the results in order"); } }
    srcml_archive_close(a); for (size_t i = 0; i < us.size(); ++i) srcml_unit_free(us[i]); srcml_archive_free(a); srcml_memory_free(b); vf_reach("end");
}
#endif
