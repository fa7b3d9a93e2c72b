// P03: prefixes are only names: the registry against a list, and markup with registered prefixes against markup with the default ones.
#include "nat.h"
#ifdef VF_NATIVE
using namespace nat;
static const char ERR[] = "http://www.srcML.org/srcML/srcerr", OMP[] = "http://www.srcML.org/srcML/openmp";
static const char* const URIS[] = { SRC, CPP, POS, ERR, OMP }; static const char* const DEFS[] = { "", "cpp", "pos", "err", "omp" };
typedef std::vector<std::pair<std::string, std::string> > List;   // prefix, uri
static int find(const List& l, const std::string& u) { for (size_t i = 0; i < l.size(); ++i) if (l[i].second == u) return (int) i; return -1; }
static void same(srcml_archive* a, const List& l, bool global) {
    size_t n = global ? srcml_get_namespace_size() : srcml_archive_get_namespace_size(a); vf_assert(n == l.size(), "every namespace is in the list once");
    for (size_t i = 0; i < n + 2; ++i) { const char* p = global ? srcml_get_namespace_prefix(i) : srcml_archive_get_namespace_prefix(a, i); const char* u = global ? srcml_get_namespace_uri(i) : srcml_archive_get_namespace_uri(a, i);
        if (i >= n) { vf_assert(!p && !u, "there is no namespace past the end"); continue; }
        vf_assert(p && u && l[i].first == p && l[i].second == u, "a namespace keeps its position and the prefix last registered for it");
        const char* q = global ? srcml_get_prefix_from_uri(u) : srcml_archive_get_prefix_from_uri(a, u); vf_assert(q && l[i].first == q, "the prefix of a namespace is found");
        const char* w = global ? srcml_get_uri_from_prefix(p) : srcml_archive_get_uri_from_prefix(a, p); vf_assert(w && find(l, w) >= 0 && l[find(l, w)].first == p, "the namespace of a prefix is found"); }
    vf_assert(!(global ? srcml_get_prefix_from_uri("http://not.registered") : srcml_archive_get_prefix_from_uri(a, "http://not.registered")) && !(global ? srcml_get_uri_from_prefix("not-registered") : srcml_archive_get_uri_from_prefix(a, "not-registered")), "what was not registered is not found");
}
VF_NATIVE_HARNESS(registrations) {
    bool global = vf_bool("global"); srcml_archive* a = srcml_archive_create(); List l; srcml_archive* c = 0; List lc;
    static List kept; static bool first = true; if (first) { kept.push_back(std::make_pair("", SRC)); first = false; }
    if (global) l = kept; else l.push_back(std::make_pair("", SRC));
    for (int n = vf_irange("steps", 1, 12); n; --n) { static const char* const P[] = { "", "a", "b", "cpp", "x.y-z", "\xc3\xa9", "_" }; static const char* const U[] = { SRC, CPP, POS, ERR, OMP, "http://u", "http://U", "http://u/", "" };
        std::string p = PICK("prefix", P), u = PICK("uri", U); int k = pick("null", 10); bool nul = k < 2; char* pp = strdup(p.c_str()); char* uu = strdup(u.c_str());
        if (pick("options", 3) == 0) srcml_archive_set_options(a, vf_u64("set") & 127);
        unsigned long long o = srcml_archive_get_options(a); int st = global ? srcml_register_namespace(k == 0 ? 0 : pp, k == 1 ? 0 : uu) : srcml_archive_register_namespace(a, k == 0 ? 0 : pp, k == 1 ? 0 : uu); memset(pp, '#', p.size()); memset(uu, '#', u.size()); free(pp); free(uu);
        vf_assert(st == (nul ? SRCML_STATUS_INVALID_ARGUMENT : SRCML_STATUS_OK), "a registration is made, or refused without prefix or uri");
        if (!nul) { int i = find(l, u); if (i >= 0) l[i].first = p; else l.push_back(std::make_pair(p, u)); }
        if (!global && !nul) { o |= u == CPP ? SRCML_OPTION_CPP : u == POS ? SRCML_OPTION_POSITION : 0; } if (!global) vf_assert(srcml_archive_get_options(a) == (o | (!nul && u == ERR ? srcml_archive_get_options(a) & ~o & 64 : 0)), "registering the namespace of an option sets the option and no other");
        same(a, l, global); if (c) same(c, lc, false); else if (!global && pick("clone", 4) == 0) { c = srcml_archive_clone(a); lc = l; same(c, lc, false); } }
    if (c) srcml_archive_free(c); if (global) kept = l; srcml_archive_free(a); vf_reach("end");
}
// ---- markup
struct Config { List ns; std::vector<int> known; bool solitary, position; };
static std::string prefix_of(const Config& c, const std::string& uri) { int i = find(c.ns, uri); if (i >= 0) return c.ns[i].first; for (int k = 0; k < 5; ++k) if (uri == URIS[k]) return DEFS[k]; return "?"; }
static Config config() { Config c; static const char* const P[] = { "s", "c", "p", "e", "o", "xm.l-2", "_n", "\xc3\xa9", "src", "unit", "position", "a", "b" }; std::set<std::string> used; std::string none;
    c.solitary = vf_bool("solitary"); c.position = pick("position", 3) == 0; bool emptyfree = false;
    for (int k = 0; k < 5; ++k) if (vf_bool("registered")) { std::string p; do p = PICK("prefix", P); while (!used.insert(p).second); if (k == 1 && emptyfree && pick("none", 3) == 0) p = ""; c.ns.push_back(std::make_pair(p, std::string(URIS[k]))); if (k == 0) emptyfree = true; if (k == 2) c.position = true; }
    for (int n = vf_irange("users", 0, 2); n; --n) { std::string p; do p = PICK("user", P); while (!used.insert(p).second); c.ns.push_back(std::make_pair(p, "http://user/" + p + (vf_bool("odd") ? "?a=1&b=\"<2>\"" : ""))); }
    for (size_t i = c.ns.size(); i > 1; --i) std::swap(c.ns[i - 1], c.ns[pick("order", (int) i)]); return c; }
static srcml_archive* make(const Config& c, bool defaults) { srcml_archive* a = srcml_archive_create(); if (c.solitary) srcml_archive_enable_solitary_unit(a); if (c.position) srcml_archive_enable_option(a, SRCML_OPTION_POSITION);
    for (size_t i = 0; i < c.ns.size(); ++i) { std::string p = c.ns[i].first; int k = -1; for (int j = 0; j < 5; ++j) if (c.ns[i].second == URIS[j]) k = j; if (k >= 0 && defaults) p = DEFS[k]; srcml_archive_register_namespace(a, p.c_str(), c.ns[i].second.c_str()); } return a; }
static void names(const Node& n, const Config& c) { if (n.istext) return; vf_assert(n.prefix == prefix_of(c, n.uri), "an element has the prefix registered for its namespace"); for (size_t i = 0; i < n.attrs.size(); ++i) if (!n.attrs[i].prefix.empty()) vf_assert(n.attrs[i].prefix == prefix_of(c, n.attrs[i].uri), "an attribute has the prefix registered for its namespace"); for (size_t i = 0; i < n.kids.size(); ++i) names(n.kids[i], c); }
static bool uses(const Node& n, const std::string& u) { if (n.istext) return false; if (n.uri == u) return true; for (size_t i = 0; i < n.attrs.size(); ++i) if (n.attrs[i].uri == u) return true; for (size_t i = 0; i < n.kids.size(); ++i) if (uses(n.kids[i], u)) return true; return false; }
static int declares(const Node& n, const std::string& u) { int k = 0; for (std::map<std::string, std::string>::const_iterator i = n.ns.begin(); i != n.ns.end(); ++i) k += i->second == u; return k; }
static bool deeper(const Node& n, int d) { if (n.istext) return false; if (d > 0 && !n.ns.empty()) return true; bool b = false; for (size_t i = 0; i < n.kids.size(); ++i) b |= deeper(n.kids[i], d + 1); return b; }
static std::vector<const Node*> units(const Node& r, bool solitary) { std::vector<const Node*> v; if (solitary) { v.push_back(&r); return v; } for (size_t i = 0; i < r.kids.size(); ++i) if (r.kids[i].is("unit")) v.push_back(&r.kids[i]); return v; }
// declarations: once, where they are needed
static void declared(const Node& root, const Config& c) {
    std::vector<const Node*> us = units(root, c.solitary);
    for (size_t k = 0; k < us.size(); ++k) { const Node& u = *us[k]; for (size_t i = 0; i < u.kids.size(); ++i) vf_assert(!deeper(u.kids[i], 1), "namespaces are declared on units only");
        for (int j = 0; j < 5; ++j) { int r = c.solitary ? 0 : declares(root, URIS[j]), n = declares(u, URIS[j]); vf_assert(r + n <= 1, "a namespace is declared once"); if (uses(u, URIS[j])) vf_assert(r + n == 1, "a namespace that is used is declared"); 
            if (j == 0 && !c.solitary) vf_assert(n == 0, "the namespace of srcML is declared at the root"); if (j == 1 || j == 4) vf_assert(r == 0, "the namespaces of cpp and OpenMP are declared by the units that use them"); 
            if (j == 4) vf_assert(n == (int) uses(u, OMP), "the namespace of OpenMP is declared when it is used"); if (j == 1 && find(c.ns, CPP) < 0 && n) vf_reach("cpp"); } }
    vf_assert(declares(root, SRC) == 1, "the namespace of srcML is declared at the root"); vf_assert(declares(root, POS) == (int) c.position, "the namespace of positions is declared at the root, with positions"); vf_assert(declares(root, ERR) == (int) (find(c.ns, ERR) >= 0), "the namespace of errors is declared when it is registered");
    for (size_t i = 0; i < c.ns.size(); ++i) if (c.ns[i].second.compare(0, 11, "http://user") == 0) { vf_assert(declares(root, c.ns[i].second) == 1 && root.ns.count(c.ns[i].first) && root.ns.find(c.ns[i].first)->second == c.ns[i].second, "a registered namespace is declared at the root"); if (!c.solitary) for (size_t k = 0; k < us.size(); ++k) vf_assert(!declares(*us[k], c.ns[i].second), "a registered namespace is declared once"); }
    for (std::map<std::string, std::string>::const_iterator i = root.ns.begin(); i != root.ns.end(); ++i) { vf_assert(i->first == prefix_of(c, i->second), "a declaration has the prefix that is registered"); }
}
static Node parsed(const std::string& s, const char* what) { Node n; std::string err; bool ok = xml(s, n, &err); if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s: %s\n%s\n", what, err.c_str(), s.c_str()); vf_assert(ok, "the markup is namespace well-formed"); return n; }
static std::string body(const Node& n) { std::string o; for (size_t i = 0; i < n.kids.size(); ++i) shape(n.kids[i], o); return o; }
static void eq(const std::string& a, const std::string& b, const char* msg) { if (a != b && getenv("VF_STDERR")) fprintf(stderr, "%s\n[%s]\n[%s]\n", msg, a.c_str(), b.c_str()); vf_assert(a == b, msg); }
static std::string markup(const Config& c, bool defaults, const List& srcs, std::vector<std::string>& full) { srcml_archive* a = make(c, defaults); char* b = 0; size_t n = 0; srcml_archive_write_open_memory(a, &b, &n);
    for (size_t i = 0; i < srcs.size(); ++i) { srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, srcs[i].first.c_str()); srcml_unit_set_src_encoding(u, "UTF-8"); vf_assert(srcml_unit_parse_memory(u, srcs[i].second.data(), srcs[i].second.size()) == SRCML_STATUS_OK, "source parses"); full.push_back(srcml_unit_get_srcml(u)); srcml_archive_write_unit(a, u); srcml_unit_free(u); }
    srcml_archive_close(a); srcml_archive_free(a); std::string d(b, n); srcml_memory_free(b); return d; }
VF_NATIVE_HARNESS(prefixes) {
    Config c = config(); List srcs; for (int n = c.solitary ? 1 : vf_irange("units", 1, 3); n; --n) { static const char* const L[] = { "C", "C++", "Java", "C#", "C++" }; std::string l = PICK("lang", L), s = code("code", l, 3);
        static const char* const X[] = { "#define A 1\n", "#include <a.h>\n", "#pragma omp parallel for\nfor (;;) ;\n", "#pragma omp parallel private(a, b)\n{ f(); }\n", "#if A\nint b;\n#else\nint c;\n#endif\n", "f(a < b, \"s:unit\");\n", "#region x\n#endregion\n", "a \x01 b;\n" };
        if (pick("directive", 3)) s = std::string(PICK("which", X)) + s; if (pick("more", 3) == 0) s += std::string("\n") + PICK("which2", X); srcs.push_back(std::make_pair(l, s)); }
    std::vector<std::string> f1, f2; std::string d1 = markup(c, false, srcs, f1), d2 = markup(c, true, srcs, f2);
    for (size_t i = 0; i < f1.size(); ++i) { Node x = parsed(f1[i], "unit"), y = parsed(f2[i], "default unit"); eq(shape(x), shape(y), "a unit with other prefixes is the same tree"); names(x, c); }
    Node x = parsed(d1, "document"), y = parsed(d2, "default document"); eq(shape(x), shape(y), "a document with other prefixes is the same tree"); names(x, c); declared(x, c);
    // read, the namespaces of the root are those of the archive
    bool old = pick("old", 4) == 0; std::string in = d1; if (old) for (size_t p = 0; (p = in.find("http://www.srcML.org/", p)) != std::string::npos;) in.replace(p, 21, "http://www.sdml.info/");
    srcml_archive* r = srcml_archive_create(); for (int k = 0; k < 5; ++k) if (declares(x, URIS[k]) && pick("before", 4) == 0) srcml_archive_register_namespace(r, (std::string("zz") + DEFS[k]).c_str(), URIS[k]);
    vf_assert(srcml_archive_read_open_memory(r, in.data(), in.size()) == SRCML_STATUS_OK, "the archive is read");
    srcml_archive* o = make(c, false); char* b = 0; size_t n = 0; srcml_archive_write_open_memory(o, &b, &n); std::vector<const Node*> us = units(x, c.solitary); size_t k = 0;
    while (srcml_unit* u = srcml_archive_read_unit(r)) { vf_assert(k < us.size(), "every unit is read once"); Node z = parsed(srcml_unit_get_srcml(u), "unit read"); if (!old) { eq(body(z), body(*us[k]), "a unit that is read is the same tree"); names(z, c); srcml_archive_write_unit(o, u); }
        const std::string* l = us[k]->attr("language"); eq(l ? *l : "", str(srcml_unit_get_language(u)), "a unit keeps its language"); srcml_unit_free(u); ++k; }
    vf_assert(k == us.size(), "every unit is read");
    for (std::map<std::string, std::string>::const_iterator i = x.ns.begin(); i != x.ns.end(); ++i) { const char* p = srcml_archive_get_prefix_from_uri(r, i->second.c_str()); eq(p ? p : "(none)", i->first, "the archive read has the prefixes of the document"); const char* u = srcml_archive_get_uri_from_prefix(r, i->first.c_str()); eq(str(u), i->second, "the archive read has the namespaces of the document"); }
    srcml_archive_close(r); srcml_archive_free(r); srcml_archive_close(o); srcml_archive_free(o); std::string d3(b ? b : "", n); if (b) srcml_memory_free(b);
    if (!old) { Node w = parsed(d3, "copy"); names(w, c); declared(w, c); std::vector<const Node*> vs = units(w, c.solitary); vf_assert(vs.size() == us.size(), "every unit is copied"); for (size_t i = 0; i < us.size(); ++i) eq(body(*vs[i]), body(*us[i]), "a unit that is copied is the same tree"); }
    vf_reach("end");
}
// documents whose units have prefixes of their own for cpp and OpenMP
VF_NATIVE_HARNESS(documents) {
    static const char* const P[] = { "c", "cpp", "omp", "o", "x.y" }; std::string sp = vf_bool("prefix") ? "s" : "", t = sp.empty() ? "" : sp + ":"; bool nl = vf_bool("newlines"), extra = vf_bool("extra");
    std::string d = "<" + t + "unit xmlns" + (sp.empty() ? "" : ":" + sp) + "=\"" + SRC + "\"" + (extra ? " xmlns:u=\"http://u\"" : "") + " revision=\"1.0.0\">" + (nl ? "\n\n" : ""); std::vector<std::string> bodies, cp, op;
    for (int n = vf_irange("units", 1, 4); n; --n) { std::string c, o; if (vf_bool("cpp")) c = PICK("c", P); if (vf_bool("omp")) do o = PICK("o", P); while (o == c); bool lang = c.size() || o.size() ? pick("lang", 4) != 0 : pick("lang", 4) == 0; cp.push_back(c); op.push_back(o);
        std::string ns = (c.size() ? " xmlns:" + c + "=\"" + CPP + "\"" : "") + std::string(o.size() ? " xmlns:" + o + "=\"" + OMP + "\"" : ""), b; if (vf_bool("name")) b += "<" + t + "name>a</" + t + "name>"; if (c.size()) b += "<" + c + ":define>#<" + c + ":directive>d</" + c + ":directive></" + c + ":define>"; if (o.size()) b += "<" + o + ":directive>omp</" + o + ":directive>"; if (extra && vf_bool("u")) b += "<u:x u:y=\"1\"/>"; if (vf_bool("text")) b += " &lt;text>\n";
        d += "<" + t + "unit" + ns + (lang ? " revision=\"1.0.0\" language=\"C\"" : "") + (b.empty() ? "/>" : ">" + b + "</" + t + "unit>") + (nl ? "\n\n" : ""); }
    d += "</" + t + "unit>"; Node x = parsed(d, "made"); std::vector<const Node*> us = units(x, false); if (us.empty()) return;
    srcml_archive* r = srcml_archive_create(); vf_assert(srcml_archive_read_open_memory(r, d.data(), d.size()) == SRCML_STATUS_OK, "the archive is read");
    srcml_archive* o = srcml_archive_create(); srcml_archive_register_namespace(o, sp.c_str(), SRC); if (extra) srcml_archive_register_namespace(o, "u", "http://u"); char* b = 0; size_t n = 0; srcml_archive_write_open_memory(o, &b, &n); size_t k = 0;
    while (srcml_unit* u = srcml_archive_read_unit(r)) { vf_assert(k < us.size(), "every unit is read once"); Node z = parsed(srcml_unit_get_srcml(u), "unit read"); eq(body(z), body(*us[k]), "a unit that is read is the same tree"); srcml_archive_write_unit(o, u); srcml_unit_free(u); ++k; }
    vf_assert(k == us.size(), "every unit is read"); srcml_archive_close(r); srcml_archive_free(r); srcml_archive_close(o); srcml_archive_free(o); std::string e(b ? b : "", n); if (b) srcml_memory_free(b);
    Node y = parsed(e, "copy"); std::vector<const Node*> vs = units(y, false); vf_assert(vs.size() == us.size(), "every unit is copied");
    for (size_t i = 0; i < us.size(); ++i) { eq(body(*vs[i]), body(*us[i]), "a unit that is copied is the same tree"); for (int j = 1; j < 5; j += 3) { const std::string& w = j == 1 ? cp[i] : op[i]; vf_assert(declares(*vs[i], URIS[j]) == (int) !w.empty() && (w.empty() || (vs[i]->ns.count(w) && vs[i]->ns.find(w)->second == URIS[j])), "a unit that is copied has the declarations it had"); } }
    vf_reach("end");
}
#endif
