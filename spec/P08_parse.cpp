// P08: positions of whole parses: every element starts and ends at the line and column of its text.
#include "nat.h"
#ifdef VF_NATIVE
using namespace nat;
struct Pos { long line, col; };
static void advance(Pos& p, const std::string& t, int tab) { for (size_t i = 0; i < t.size(); ++i) { unsigned char c = t[i]; if (c == '\n') { ++p.line; p.col = 1; } else if (c == '\t') p.col = ((p.col - 1) / tab + 1) * tab + 1; else ++p.col; } }
static bool firstlast(const Node& n, std::string& all) { all = source(n); return !all.empty(); }
static void walk(const Node& n, Pos& p, int tab, const std::string& whole) {
    if (n.istext) { advance(p, n.text, tab); return; }
    if (n.name == "escape") { advance(p, source(n), tab); return; }
    Pos s = p; const std::string* a = n.attr("start", POS); const std::string* b = n.attr("end", POS);
    for (size_t i = 0; i < n.kids.size(); ++i) walk(n.kids[i], p, tab, whole);
    std::string t = source(n);
    if (!t.empty() && !isspace((unsigned char) t[0]) && !isspace((unsigned char) t[t.size() - 1]) && n.name != "block_content") {
        if (!(a && b) && getenv("VF_STDERR")) fprintf(stderr, "NOPOS %s [%s] in [%s]\n", n.name.c_str(), t.c_str(), whole.c_str());
        vf_assert(a && b, "every element with text has a position"); }
    if (a && b && !t.empty()) {
        char w[64]; snprintf(w, sizeof w, "%ld:%ld", s.line, s.col);
        // last character
        Pos e = s; std::string h = t.substr(0, t.size() - 1); advance(e, h, tab); Pos e2 = e; 
        char x[64]; snprintf(x, sizeof x, "%ld:%ld", e2.line, e2.col);
        bool leaf = true; for (size_t i = 0; i < n.kids.size(); ++i) if (!n.kids[i].istext) leaf = false;
        bool edge = isspace((unsigned char) t[0]) || isspace((unsigned char) t[t.size() - 1]);
        if (edge) return;
        if (!leaf) snprintf(x, sizeof x, "%s", b->c_str());
        if (n.name == "block_content") return;
        if (*a != w && getenv("VF_STDERR")) fprintf(stderr, "START %s want %s %s [%s] %s\n", a->c_str(), w, n.name.c_str(), whole.c_str(), t.c_str());
        vf_assert(*a == w, "an element starts at the line and column of its first character");
        bool exact = leaf && whole.find('#') == std::string::npos && (n.name == "name" || n.name == "operator" || n.name == "comment");
        if (exact && *b != x && getenv("VF_STDERR")) fprintf(stderr, "END %s want %s %s [%s] %s\n", b->c_str(), x, n.name.c_str(), whole.c_str(), t.c_str());
        if (exact) vf_assert(*b == x, "a name, operator or comment ends at the line and column of its last character");
        long l = 0, c = 0, l2 = 0, c2 = 0; sscanf(a->c_str(), "%ld:%ld", &l, &c); sscanf(b->c_str(), "%ld:%ld", &l2, &c2);
        vf_assert(l2 > l || (l2 == l && c2 >= c), "no element ends before it starts");
    }
}
VF_NATIVE_HARNESS(positions) {
    std::string lang = PICK("lang", LANGS), s = code("code", lang);
    int tab = vf_irange("tab", 1, 10); for (size_t i = 0; i < s.size(); ++i) ;
    srcml_archive* a = srcml_archive_create(); srcml_archive_enable_option(a, SRCML_OPTION_POSITION); srcml_archive_set_tabstop(a, tab);
    srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, lang.c_str()); srcml_unit_set_src_encoding(u, "UTF-8");
    int st = srcml_unit_parse_memory(u, s.data(), s.size());
    std::string r = str(srcml_unit_get_srcml_inner(u)); srcml_unit_free(u); srcml_archive_free(a);
    Node x; 
    if (st == 0) { Node y; std::string d = "<x xmlns:pos=\"" + std::string(POS) + "\">" + r + "</x>"; Xml q(d, false); vf_assume(q.document(y)); Pos p = { 1, 1 }; for (size_t i = 0; i < y.kids.size(); ++i) walk(y.kids[i], p, tab, s); }
}

static void strip(Node& n) { std::vector<Attr> k; for (size_t i = 0; i < n.attrs.size(); ++i) if (n.attrs[i].uri != POS) k.push_back(n.attrs[i]); n.attrs = k; for (size_t i = 0; i < n.kids.size(); ++i) strip(n.kids[i]); }
static bool anypos(const Node& n, const std::string& prefix, bool bad) { for (size_t i = 0; i < n.attrs.size(); ++i) if (n.attrs[i].uri == POS && (!bad || n.attrs[i].prefix != prefix)) return true; for (size_t i = 0; i < n.kids.size(); ++i) if (anypos(n.kids[i], prefix, bad)) return true; return false; }
// a history of parses with the option on and off, different tab stops and prefixes: each parse follows its own archive
VF_NATIVE_HARNESS(position_option) {
    std::string lang = PICK("lang", LANGS), s = code("code", lang, 3);
    static const char* const P[] = { "pos", "pos", "pos", "p", "position", "q" };
    std::string plain;
    for (int k = vf_irange("parses", 2, 4); k; --k) {
        bool on = vf_bool("on"); int tab = vf_irange("tab", 1, 10); std::string prefix = PICK("prefix", P);
        srcml_archive* a = srcml_archive_create(); if (on) srcml_archive_enable_option(a, SRCML_OPTION_POSITION); srcml_archive_set_tabstop(a, tab); bool reg = prefix != "pos" || vf_irange("register", 0, 4) == 0; if (reg) on = true; /* registering the namespace of an option enables the option */ if (reg) srcml_archive_register_namespace(a, prefix.c_str(), POS);
        srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, lang.c_str()); srcml_unit_set_src_encoding(u, "UTF-8");
        int st = srcml_unit_parse_memory(u, s.data(), s.size()); vf_assert(st == SRCML_STATUS_OK, "source parses with and without positions");
        std::string r = str(srcml_unit_get_srcml_outer(u)); srcml_unit_free(u); srcml_archive_free(a);
        Node x; std::string err; bool ok = xml(r, x, &err); vf_assert(ok, "the unit is well-formed");
        const std::string* t = x.attr("tabs", POS); char b[16]; snprintf(b, sizeof b, "%d", tab);
        if (on) { vf_assert(t && *t == b, "the unit records the tab stop"); vf_assert(!anypos(x, prefix, true), "positions use the prefix registered for the position namespace"); if (!source(x).empty() && source(x).find_first_not_of(" \t\n\r") != std::string::npos) {
            // some element has a position as soon as there is an element
            bool el = false; for (size_t i = 0; i < x.kids.size(); ++i) if (!x.kids[i].istext) el = true; if (el) { Node y = x; y.attrs.clear(); vf_assert(anypos(y, "", false), "elements have positions when the option is on"); } }
            Pos p = { 1, 1 }; std::string w = source(x); for (size_t i = 0; i < x.kids.size(); ++i) walk(x.kids[i], p, tab, w); }
        else vf_assert(!anypos(x, "", false), "no element has a position when the option is off");
        strip(x); x.attrs.clear(); std::string sh = shape(x); if (plain.empty()) plain = sh; vf_assert(sh == plain, "the position option changes nothing but the position attributes"); }
    vf_reach("end");
}
#endif
