// P18: what an archive gives does not depend on the use of other archives, in one thread or in several.
#include "nat.h"
#ifdef VF_NATIVE
#include <thread>
#include <atomic>
#include <sys/wait.h>
#include <signal.h>
#include <malloc.h>
using namespace nat;
int srcml_archive_register_macro(struct srcml_archive*, const char*, const char*);
typedef std::vector<std::string> Op; typedef std::vector<Op> Program;
struct State { srcml_archive* a; srcml_unit* u; char* buf; size_t size; std::string out; };
static std::string sep(const char* s) { return std::string("[") + (s ? s : "(null)") + "]"; }
static std::string num(long n) { char b[32]; snprintf(b, sizeof b, " %ld ", n); return b; }
static std::string views(srcml_unit* u) { std::string r = sep(srcml_unit_get_language(u)) + sep(srcml_unit_get_filename(u)) + sep(srcml_unit_get_version(u)) + sep(srcml_unit_get_timestamp(u)) + sep(srcml_unit_get_hash(u)) + sep(srcml_unit_get_src_encoding(u)) + sep(srcml_unit_get_srcml(u)) + sep(srcml_unit_get_srcml_outer(u)) + sep(srcml_unit_get_srcml_inner(u)); r += num(srcml_unit_get_loc(u)); return r; }
static srcml_unit* parsed(State& s, const Op& o, int* st) { srcml_unit* u = srcml_unit_create(s.a); srcml_unit_set_language(u, o[1].c_str()); if (!o[3].empty()) srcml_unit_set_src_encoding(u, o[3].c_str()); if (!o[4].empty()) srcml_unit_set_filename(u, o[4].c_str()); *st = srcml_unit_parse_memory(u, o[2].data(), o[2].size()); return u; }
static void step(State& s, const Op& o) {
    const std::string& k = o[0]; const char* x = o.size() > 1 ? o[1].c_str() : 0; const char* y = o.size() > 2 ? o[2].c_str() : 0; std::string& r = s.out; r += k + ":";
    if (k == "options") r += num(srcml_archive_enable_option(s.a, strtoull(x, 0, 10)));
    else if (k == "tabs") r += num(srcml_archive_set_tabstop(s.a, atoi(x)));
    else if (k == "url") r += num(srcml_archive_set_url(s.a, x));
    else if (k == "version") r += num(srcml_archive_set_version(s.a, x));
    else if (k == "language") r += num(srcml_archive_set_language(s.a, x));
    else if (k == "encoding") r += num(srcml_archive_set_src_encoding(s.a, x));
    else if (k == "extension") r += num(srcml_archive_register_file_extension(s.a, x, y));
    else if (k == "check") r += sep(srcml_archive_check_extension(s.a, ("f." + o[1]).c_str())) + sep(srcml_archive_get_prefix_from_uri(s.a, y)) + sep(srcml_archive_get_uri_from_prefix(s.a, o[3].c_str()));
    else if (k == "namespace") r += num(srcml_archive_register_namespace(s.a, x, y));
    else if (k == "macro") r += num(srcml_archive_register_macro(s.a, x, y));
    else if (k == "pi") r += num(srcml_archive_set_processing_instruction(s.a, x, y));
    else if (k == "solitary") r += num(srcml_archive_enable_solitary_unit(s.a));
    else if (k == "get") { r += sep(srcml_archive_get_url(s.a)) + sep(srcml_archive_get_version(s.a)) + sep(srcml_archive_get_language(s.a)) + sep(srcml_archive_get_src_encoding(s.a)) + num(srcml_archive_get_options(s.a)) + num(srcml_archive_get_tabstop(s.a)) + sep(srcml_archive_get_processing_instruction_target(s.a)); for (size_t i = 0; i < srcml_archive_get_namespace_size(s.a); ++i) r += sep(srcml_archive_get_namespace_prefix(s.a, i)) + sep(srcml_archive_get_namespace_uri(s.a, i)); }
    else if (k == "write") r += num(srcml_archive_write_open_memory(s.a, &s.buf, &s.size));
    else if (k == "unit") { int st; srcml_unit* u = parsed(s, o, &st); r += num(st); if (!st) { r += views(u); r += num(srcml_archive_write_unit(s.a, u)); } srcml_unit_free(u); }
    else if (k == "start") { s.u = srcml_unit_create(s.a); srcml_unit_set_language(s.u, x); r += num(srcml_write_start_unit(s.u)); }
    else if (k == "element") r += num(srcml_write_start_element(s.u, 0, x, 0)) + num(srcml_write_attribute(s.u, 0, "type", 0, y)) + num(srcml_write_string(s.u, y)) + num(srcml_write_end_element(s.u));
    else if (k == "end") { r += num(srcml_write_end_unit(s.u)); r += sep(srcml_unit_get_srcml_outer(s.u)); r += num(srcml_archive_write_unit(s.a, s.u)); srcml_unit_free(s.u); s.u = 0; }
    else if (k == "close") { srcml_archive_close(s.a); r += sep(s.buf); r += num(s.size); srcml_memory_free(s.buf); s.buf = 0; }
    else if (k == "read") r += num(srcml_archive_read_open_memory(s.a, x, o[1].size()));
    else if (k == "next") { srcml_unit* u = srcml_archive_read_unit(s.a); if (!u) r += "none"; else { std::string w = views(u); r += w; char* b = 0; size_t n = 0; srcml_unit_set_eol(u, atoi(x)); r += num(srcml_unit_unparse_memory(u, &b, &n)); if (b) r += std::string(b, n); srcml_memory_free(b); srcml_unit_free(u); } }
    else if (k == "skip") r += num(srcml_archive_skip_unit(s.a));
    else if (k == "xpath") r += num(srcml_append_transform_xpath(s.a, x));
    else if (k == "mark") r += num(srcml_append_transform_xpath_attribute(s.a, x, "m", "http://m.org", "v", y));
    else if (k == "wrap") r += num(srcml_append_transform_xpath_element(s.a, x, "m", "http://m.org", y));
    else if (k == "xslt") r += num(srcml_append_transform_xslt_memory(s.a, x, o[1].size()));
    else if (k == "relaxng") r += num(srcml_append_transform_relaxng_memory(s.a, x, o[1].size()));
    else if (k == "param") r += num(srcml_append_transform_stringparam(s.a, x, y));
    else if (k == "clear") r += num(srcml_clear_transforms(s.a));
    else if (k == "apply") { int st; srcml_unit* u = parsed(s, o, &st); r += num(st); srcml_transform_result* t = 0; if (!st) { st = srcml_unit_apply_transforms(s.a, u, &t); r += num(st); if (t) { int ty = srcml_transform_get_type(t); r += num(ty); if (ty == SRCML_RESULT_UNITS) for (int i = 0; i < srcml_transform_get_unit_size(t); ++i) r += sep(srcml_unit_get_srcml(srcml_transform_get_unit(t, i))); else if (ty == SRCML_RESULT_STRING) r += sep(srcml_transform_get_string(t)); else if (ty == SRCML_RESULT_NUMBER) { char b[64]; snprintf(b, sizeof b, "%g", srcml_transform_get_number(t)); r += b; } else if (ty == SRCML_RESULT_BOOLEAN) r += num(srcml_transform_get_bool(t)); srcml_transform_free(t); } } srcml_unit_free(u); }
    r += "\n";
}
struct Run { State s; Program p; size_t at; Run(const Program& q) : p(q), at(0) { s.a = srcml_archive_create(); s.u = 0; s.buf = 0; s.size = 0; } bool next() { if (at == p.size()) return false; step(s, p[at++]); return true; } void done() { if (s.u) srcml_unit_free(s.u); if (s.a) { srcml_archive_close(s.a); srcml_archive_free(s.a); s.a = 0; } if (s.buf) srcml_memory_free(s.buf); s.buf = 0; } };
static std::string run(const Program& p) { Run r(p); while (r.next()) ; r.done(); return r.s.out; }
// ---- a process that has done nothing, of which a copy runs one program
static int g_to = -1, g_from = -1;
static bool all(int fd, void* p, size_t n, bool out) { char* c = (char*) p; while (n) { ssize_t k = out ? write(fd, c, n) : read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static void puts_(int fd, const std::string& s) { size_t n = s.size(); all(fd, &n, sizeof n, true); if (n) all(fd, (void*) s.data(), n, true); }
static bool gets_(int fd, std::string& s) { size_t n; if (!all(fd, &n, sizeof n, false)) return false; s.resize(n); return !n || all(fd, &s[0], n, false); }
static void putp(int fd, const Program& p) { size_t n = p.size(); all(fd, &n, sizeof n, true); for (size_t i = 0; i < p.size(); ++i) { n = p[i].size(); all(fd, &n, sizeof n, true); for (size_t k = 0; k < n; ++k) puts_(fd, p[i][k]); } }
static bool getp(int fd, Program& p) { size_t n; if (!all(fd, &n, sizeof n, false)) return false; p.resize(n); for (size_t i = 0; i < p.size(); ++i) { if (!all(fd, &n, sizeof n, false)) return false; p[i].resize(n); for (size_t k = 0; k < n; ++k) if (!gets_(fd, p[i][k])) return false; } return true; }
static void fresh_start() { static bool done = false; if (done) return; done = true; int a[2], b[2]; if (pipe(a) || pipe(b)) abort(); if (!fork()) { close(a[1]); close(b[0]); signal(SIGALRM, SIG_DFL);
        for (;;) { Program p; if (!getp(a[0], p)) _exit(0); int q[2]; if (pipe(q)) _exit(1); pid_t c = fork(); if (!c) { alarm(2); puts_(q[1], run(p)); _exit(0); } close(q[1]); std::string r; bool ok = gets_(q[0], r); close(q[0]); int s; waitpid(c, &s, 0); puts_(b[1], ok ? r : "no result"); } }
    close(a[0]); close(b[1]); g_to = a[1]; g_from = b[0]; }
static std::string fresh(const Program& p) { putp(g_to, p); std::string r; if (!gets_(g_from, r)) return "no result"; return r; }
static std::string i2s(unsigned long long n) { char b[32]; snprintf(b, sizeof b, "%llu", n); return b; }
static Op op(const char* k, const std::string& x = "", const std::string& y = "", const std::string& z = "", const std::string& w = "") { Op o; o.push_back(k); o.push_back(x); o.push_back(y); o.push_back(z); o.push_back(w); return o; }
static Op source(const char* k) { std::string lang = PICK("lang", LANGS), s = code("code", lang, 3); static const char* const E[] = { "UTF-8", "UTF-8", "", "ISO-8859-1" }; return op(k, lang, s, PICK("enc", E), pick("named", 3) ? "" : "d/f.x"); }
static const unsigned long long OPT[] = { SRCML_OPTION_POSITION, SRCML_OPTION_CPP, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0 };
static const char* const PRE[] = { "", "s", "cpp", "c", "pos", "q", "x" }; static const char* const URI[] = { SRC, CPP, POS, "http://n.org/1", "http://n.org/2" }; static const char* const EXT[] = { "x", "x", "cpp", "c", "foo", "java", "h" };
static Op setting() { switch (pick("setting", 14)) {
    case 0: case 1: return op("options", i2s(PICK("opt", OPT))); case 2: return op("tabs", i2s(vf_irange("t", 1, 10))); case 3: return op("url", pick("u", 2) ? "u1" : "http://u/2"); case 4: return op("version", pick("v", 2) ? "1" : "v<2");
    case 5: return op("encoding", pick("e", 2) ? "UTF-8" : "ISO-8859-15"); case 6: case 7: return op("extension", PICK("ext", EXT), PICK("lang", LANGS)); case 8: case 9: return op("namespace", PICK("p", PRE), PICK("n", URI));
    case 10: return op("macro", pick("m", 2) ? "a" : "MACRO", pick("mt", 2) ? "src:name" : "src:type"); case 11: return op("pi", "t", "d"); case 12: return op("check", PICK("ext", EXT), PICK("n", URI), PICK("p", PRE)); default: return op("get"); } }
static void settings(Program& p) { for (int n = vf_irange("settings", 0, 6); n; --n) p.push_back(setting()); }
static Program writer() { Program p; settings(p); if (pick("solitary", 4) == 0) p.push_back(op("solitary")); p.push_back(op("write"));
    for (int n = vf_irange("units", 0, 3); n; --n) if (pick("how", 3)) p.push_back(source("unit")); else { p.push_back(op("start", PICK("lang", LANGS))); for (int k = vf_irange("elements", 0, 3); k; --k) p.push_back(op("element", pick("el", 2) ? "name" : "expr", pick("t", 2) ? "a<b" : "x")); p.push_back(op("end")); }
    p.push_back(op("close")); if (vf_bool("get")) p.push_back(op("get")); return p; }
static std::string fresh(const Program& p);
static std::string document() { Program p = writer(); vf_assume(fresh(p) != "no result"); Run r(p); std::string d; while (r.at < p.size()) { if (p[r.at][0] == "close") { srcml_archive_close(r.s.a); if (r.s.buf) d.assign(r.s.buf, r.s.size); break; } r.next(); } r.done(); return d; }
static Program reader() { Program p; std::string d = document(); settings(p); p.push_back(op("read", d)); for (int n = vf_irange("reads", 1, 4); n; --n) if (pick("r", 4)) p.push_back(op("next", i2s(pick("eol", 4)))); else p.push_back(op("skip")); if (vf_bool("get")) p.push_back(op("get")); return p; }
static const char* const XPATH[] = { "//s:name", "//q:name", "//x:name", "count(//c:if)", "//src:name", "//src:expr", "//src:function", "count(//src:name)", "string(//src:name)", "boolean(//src:call)", "//src:unit", "//src:block/*", "//name[" };
#define SHEET(b) "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" xmlns:src=\"http://www.srcML.org/srcML/src\" xmlns:math=\"http://exslt.org/math\" xmlns:str=\"http://exslt.org/strings\" version=\"1.0\"><xsl:param name=\"n\">none</xsl:param>" b "</xsl:stylesheet>"
static const char* const XSLT[] = { SHEET("<xsl:template match=\"/\"><xsl:copy-of select=\"//src:name\"/></xsl:template>"), SHEET("<xsl:template match=\"/\"><xsl:value-of select=\"concat(count(//src:name), ' ', $n)\"/></xsl:template>"),
    SHEET("<xsl:template match=\"/\"><xsl:value-of select=\"concat(function-available('math:max'), ' ', str:padding(3, 'ab'))\"/></xsl:template>"), SHEET("<xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template>"), "<not-a-sheet" };
static const char* const RNG[] = { "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><ref name=\"any\"/></start><define name=\"any\"><element><anyName/><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"any\"/></choice></zeroOrMore></element></define></grammar>",
    "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><element name=\"other\"><empty/></element></start></grammar>" };
static Program transformer() { Program p; if (pick("set", 3) == 0) settings(p); int last = 0;
    for (int n = vf_irange("steps", 1, 5); n; --n) switch (pick("step", 8)) {
        case 0: p.push_back(op("xpath", PICK("xp", XPATH))); break; case 1: p.push_back(op("mark", "//src:name", pick("v", 2) ? "1" : "2")); break; case 2: p.push_back(op("wrap", "//src:name", pick("w", 2) ? "e" : "f")); break;
        case 3: case 4: p.push_back(op("xslt", PICK("xs", XSLT))); if (vf_bool("param")) p.push_back(op("param", "n", pick("pv", 2) ? "one" : "two")); break; case 5: p.push_back(op("relaxng", PICK("rng", RNG))); break;
        case 6: p.push_back(op("clear")); break; default: p.push_back(source("apply")); ++last; }
    p.push_back(source("apply")); if (vf_bool("again")) p.push_back(p.back()); return p; }
static Program program() { switch (pick("program", 5)) { case 0: case 1: return writer(); case 2: return reader(); default: return transformer(); } }
// a program that is nearly the same: what it does differs in a setting, a transformation, or a unit
static Program vary(Program p) { for (int n = vf_irange("changes", 0, 2); n && p.size() > 1; --n) { size_t i = pick("at", p.size()); const std::string k = p[i][0];
        if (k == "start" || k == "end" || k == "write" || k == "close" || k == "read") { p.insert(p.begin() + (k == "write" || k == "read" || k == "start" ? i : 0), setting()); continue; }
        int how = pick("change", 3); if (!how) { p.erase(p.begin() + i); continue; }
        if (k == "extension") p[i][2] = PICK("lang", LANGS); else if (k == "namespace") (how == 1 ? p[i][1] = PICK("p", PRE) : p[i][2] = PICK("n", URI)); else if (k == "xpath") p[i][1] = PICK("xp", XPATH); else if (k == "xslt") p[i][1] = PICK("xs", XSLT);
        else if (k == "relaxng") p[i][1] = PICK("rn", RNG); else if (k == "mark" || k == "wrap" || k == "param") p[i][2] = p[i][2] == "1" ? "2" : "1"; else if (k == "unit" || k == "apply") { Op o = source(k.c_str()); if (how == 1) p[i] = o; else p[i][1] = o[1]; } else p.insert(p.begin() + i, setting()); }
    return p; }
static Program one(std::vector<Program>& p) { if (p.empty()) return program(); switch (pick("same", 5)) { case 0: return p[0]; case 1: case 2: return vary(p[pick("of", p.size())]); default: return program(); } }
static void differ(const std::string& e, const std::string& g) { if (getenv("VF_STDERR") && e != g) { size_t i = 0; while (i < e.size() && i < g.size() && e[i] == g[i]) ++i; size_t b = i > 80 ? i - 80 : 0; fprintf(stderr, "at %zu\n--- alone\n%s\n--- here\n%s\n", i, e.substr(b, 400).c_str(), g.substr(b, 400).c_str()); } }
// several archives whose uses alternate in one thread
VF_NATIVE_HARNESS(interleaved) {
    fresh_start(); int n = vf_irange("programs", 2, 4); std::vector<Program> p; std::vector<std::string> e; for (int i = 0; i < n; ++i) { p.push_back(one(p)); e.push_back(fresh(p[i])); vf_assume(e[i] != "no result"); }
    static const int V[] = { 0, 0xff, 1, 0x41 }; mallopt(M_PERTURB, PICK("memory", V));
    std::vector<Run*> r; for (int i = 0; i < n; ++i) r.push_back(new Run(p[i])); std::vector<int> live; for (int i = 0; i < n; ++i) live.push_back(i);
    while (!live.empty()) { int k = pick("who", live.size()); if (!r[live[k]]->next()) { if (vf_bool("free")) r[live[k]]->done(); live.erase(live.begin() + k); } }
    for (int i = 0; i < n; ++i) { r[i]->done(); std::string g = r[i]->s.out; delete r[i]; differ(e[i], g); vf_assert(g == e[i], "an archive gives what it gives alone while other archives are used in between"); }
    mallopt(M_PERTURB, 0); vf_reach("end");
}
// archives of several threads
VF_NATIVE_HARNESS(threads) {
    fresh_start(); int n = vf_irange("threads", 2, 8); std::vector<Program> p; std::vector<std::string> e, g(n); for (int i = 0; i < n; ++i) { p.push_back(one(p)); e.push_back(fresh(p[i])); vf_assume(e[i] != "no result"); }
    std::atomic<int> ready(0); std::vector<std::thread> t; int rounds = vf_irange("rounds", 1, 3);
    for (int i = 0; i < n; ++i) t.emplace_back([&, i] { ++ready; while (ready < n) std::this_thread::yield(); for (int k = 0; k < rounds; ++k) { std::string x = run(p[i]); if (k == 0 || x != e[i]) g[i] = x; } });
    for (auto& x : t) x.join();
    for (int i = 0; i < n; ++i) { differ(e[i], g[i]); vf_assert(g[i] == e[i], "an archive gives what it gives alone while other threads use theirs"); }
    vf_reach("end");
}
#endif
