// P21: the views of a unit, against an independent XML reader.
#include "nat.h"
#ifdef VF_NATIVE
using namespace nat;
static const char* const VALUES[] = { "a", "", "x>y", "a \"q\" b", "<&>'", "xmlns=\"u\"", " url=\"no\"", "\xc3\xa9/\xe2\x82\xac.c", "very/long/path/name.cpp", "it's" };
static std::string value(const char* n) { if (pick(n, 3) == 0) { const char* t = vf_text(n); std::string s = t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\t' || s[i] == '\n' || s[i] == '\r') s[i] = ' '; return s; } return PICK(n, VALUES); }
static void configure(srcml_archive* a, bool& url) {
    url = false; std::set<std::string> used;
    for (int n = vf_irange("config", 0, 5); n; --n) switch (pick("what", 8)) {
        case 0: { std::string v = value("url"); srcml_archive_set_url(a, v.c_str()); url = true; break; }
        case 1: srcml_archive_register_namespace(a, "src", SRC); break;
        case 2: { static const char* const P[] = { "x", "url", "a.b-c", "_xmlns", "unit" }; static const char* const W[] = { "http://x.org", "http://x.org?a=1&b=2", "url", "u<v>", "it's \xc3\xa9", "a \"q\"" }; const char* p = PICK("prefix", P); const char* w = PICK("uri", W); if (used.insert(p).second) srcml_archive_register_namespace(a, p, w); break; }
        case 3: srcml_archive_register_namespace(a, "c", CPP); break;
        case 4: srcml_archive_enable_option(a, SRCML_OPTION_POSITION); break;
        case 5: srcml_archive_set_version(a, value("version").c_str()); break;
        case 6: srcml_archive_disable_hash(a); break;
        case 7: srcml_archive_set_xml_encoding(a, "ISO-8859-1"); break; }
}
static const char* const TINY[] = { "", "\n", " ", ";", "a", "\t" };
static srcml_unit* make(srcml_archive* a, std::string& text, std::string& lang) {
    srcml_unit* u = srcml_unit_create(a); lang = PICK("lang", LANGS); srcml_unit_set_language(u, lang.c_str()); srcml_unit_set_src_encoding(u, "UTF-8");
    if (vf_bool("filename")) srcml_unit_set_filename(u, value("filename").c_str()); if (vf_bool("version")) srcml_unit_set_version(u, value("version").c_str()); if (vf_bool("timestamp")) srcml_unit_set_timestamp(u, value("timestamp").c_str());
    text = pick("empty", 6) == 0 ? PICK("tiny", TINY) : code("code", lang, 3); if (lang != "Java" && lang != "C#" && vf_bool("cpp")) text = "#define A 1\n" + text;
    vf_assert(srcml_unit_parse_memory(u, text.data(), text.size()) == SRCML_STATUS_OK, "source parses"); return u; }
struct Views { std::string full, outer, inner; };
static Views views(srcml_unit* u) {
    Views v; bool h[3] = { false, false, false }; std::string* t[3] = { &v.full, &v.outer, &v.inner };
    for (int n = vf_irange("calls", 3, 8); n || !h[0] || !h[1] || !h[2]; n -= n > 0) { int k = pick("view", 3); if (n == 0) k = !h[0] ? 0 : !h[1] ? 1 : 2; const char* p = k == 0 ? srcml_unit_get_srcml(u) : k == 1 ? srcml_unit_get_srcml_outer(u) : srcml_unit_get_srcml_inner(u); vf_assert(p != 0, "a unit with content has every view"); if (h[k]) vf_assert(*t[k] == str(p), "a view stays the same, whatever else is asked"); *t[k] = str(p); h[k] = true; }
    return v; }
static std::string plain(const std::string& s) { std::string o; Xml x(s); while (x.p < s.size()) if (s[x.p] == '&') { if (!x.ent(o)) return s; } else o += s[x.p++]; return o; }
static std::string starttag(const std::string& s) { bool q = false; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '"') q = !q; if (s[i] == '>' && !q) return s.substr(0, i + 1); } return s; }
// the attributes of a start tag as written: pairs " name" , "value"
static void check(const Views& v, bool fromarchive, const std::map<std::string, std::string>& rootns) {
    Node x; std::string err; bool ok = xml(v.full, x, &err); if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s\n%s\n", err.c_str(), v.full.c_str());
    vf_assert(ok, "the full view is a complete, namespace well-formed element"); vf_assert(x.name == "unit" && x.uri == SRC, "the full view is a unit");
    std::string tag = starttag(v.full); bool empty = tag.size() > 1 && tag[tag.size() - 2] == '/';
    std::string want; if (!empty) { size_t e = v.full.rfind("</"); want = v.full.substr(tag.size(), e - tag.size()); }
    if (v.inner != want && getenv("VF_STDERR")) fprintf(stderr, "full [%s]\ninner [%s]\n", v.full.c_str(), v.inner.c_str());
    vf_assert(v.inner == want, "the inner view is exactly the text between the start tag and the end tag");
    // the outer view: the start tag without the declarations of the archive and without the url, then the same text
    std::string out; size_t i = 0; const std::string& t = tag; bool first = true; while (i < t.size()) {
        if (t[i] == ' ' ) { size_t q = t.find('"', i), r = t.find('"', q + 1); if (q == std::string::npos) { out += t.substr(i); break; } std::string at = t.substr(i, r + 1 - i), name = at.substr(1, at.find('=') - 1), val = at.substr(name.size() + 3, at.size() - name.size() - 4);
            bool ns = name.compare(0, 5, "xmlns") == 0, drop = name == "url"; if (ns && !fromarchive && first) { drop = true; first = false; } if (ns && fromarchive) { std::string p = name.size() > 6 ? name.substr(6) : ""; std::map<std::string, std::string>::const_iterator k = rootns.find(p); if (k != rootns.end() && k->second == plain(val)) drop = true; }
            if (!drop) out += at; i = r + 1; }
        else out += t[i++]; }
    out += v.full.substr(tag.size());
    if (v.outer != out && getenv("VF_STDERR")) fprintf(stderr, "full [%s]\nouter [%s]\nwant  [%s]\n", v.full.c_str(), v.outer.c_str(), out.c_str());
    vf_assert(v.outer == out, "the outer view is the unit without the declarations of the archive and the url");
}
VF_NATIVE_HARNESS(views_of_units) {
    srcml_archive* a = srcml_archive_create(); bool solo = vf_bool("solitary"); if (solo) srcml_archive_enable_solitary_unit(a); bool url; configure(a, url);
    char* b = 0; size_t n = 0; srcml_archive_write_open_memory(a, &b, &n); std::vector<Views> made; std::vector<std::string> texts;
    for (int k = solo ? 1 : vf_irange("units", 1, 3); k; --k) { std::string text, lang; srcml_unit* u = make(a, text, lang); std::map<std::string, std::string> none; Views v; bool early = vf_bool("early"); if (early) { v = views(u); check(v, false, none); }
        if (pick("again", 4) == 0) { srcml_unit_set_language(u, lang.c_str()); text = code("code2", lang, 3); srcml_unit_parse_memory(u, text.data(), text.size()); early = false; }
        vf_assert(srcml_archive_write_unit(a, u) == SRCML_STATUS_OK, "the unit is written"); Views w = views(u); check(w, false, none); if (early) vf_assert(v.full == w.full && v.outer == w.outer && v.inner == w.inner, "writing a unit does not change it"); made.push_back(w); texts.push_back(text); srcml_unit_free(u); }
    srcml_archive_close(a); srcml_archive_free(a); std::string doc(b, n); srcml_memory_free(b);
    std::map<std::string, std::string> rootns; { Node x; size_t p = doc.find("?>"); std::string err; bool ok = xml(utf8doc(doc), x, &err); if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s\n%s\n", err.c_str(), doc.c_str()); vf_assert(ok, "the archive is well-formed"); (void) p; rootns = x.ns; }
    srcml_archive* r = srcml_archive_create(); vf_assert(srcml_archive_read_open_memory(r, doc.data(), doc.size()) == SRCML_STATUS_OK, "the archive is read");
    for (size_t k = 0; k < made.size(); ++k) { srcml_unit* u = srcml_archive_read_unit(r); vf_assert(u != 0, "every unit is read"); Views v = views(u);
        check(v, !solo, rootns); if (unref(v.inner) != made[k].inner && getenv("VF_STDERR")) fprintf(stderr, "[%s]\n[%s]\n", v.inner.c_str(), made[k].inner.c_str()); vf_assert(unref(v.inner) == made[k].inner, "the inner view is the same after writing and reading"); srcml_unit_free(u); }
    srcml_archive_close(r); srcml_archive_free(r);
    vf_reach("end");
}
#endif
