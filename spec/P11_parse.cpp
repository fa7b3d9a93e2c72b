// P11: what a parse gives depends on the source, its language, encoding and options, not on what was done before or is done at the same time.
#include "nat.h"
#ifdef VF_NATIVE
#include <thread>
#include <atomic>
#include <sys/wait.h>
#include <signal.h>
#include <malloc.h>
using namespace nat;
struct Job { std::string lang, source, enc; unsigned long long opt; int tabs; bool solitary, prefix, filename, version, fd, hash; };
static std::string sep(const char* s) { return std::string("[") + (s ? s : "(null)") + "]"; }
static srcml_archive* archive(const Job& j) { srcml_archive* a = srcml_archive_create(); srcml_archive_set_options(a, j.opt); srcml_archive_set_tabstop(a, j.tabs); if (j.solitary) srcml_archive_enable_solitary_unit(a); if (j.prefix) { srcml_archive_register_namespace(a, "s", SRC); srcml_archive_register_namespace(a, "p", CPP); if (j.opt & SRCML_OPTION_POSITION) srcml_archive_register_namespace(a, "q", POS); srcml_archive_set_options(a, j.opt); } if (!j.hash) srcml_archive_disable_hash(a); return a; }
static srcml_unit* parse(srcml_archive* a, const Job& j, int* st) { srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, j.lang.c_str()); if (!j.enc.empty()) srcml_unit_set_src_encoding(u, j.enc.c_str()); if (j.filename) srcml_unit_set_filename(u, "d/f.x"); if (j.version) srcml_unit_set_version(u, "1<2");
    if (j.fd) { char f[] = "/tmp/vfnat11XXXXXX"; int d = mkstemp(f); unlink(f); if (write(d, j.source.data(), j.source.size()) < 0) abort(); lseek(d, 0, SEEK_SET); *st = srcml_unit_parse_fd(u, d); close(d); } else *st = srcml_unit_parse_memory(u, j.source.data(), j.source.size()); return u; }
static std::string run(const Job& j, srcml_archive* shared = 0) { srcml_archive* a = shared ? shared : archive(j); int st; srcml_unit* u = parse(a, j, &st); char b[64]; snprintf(b, sizeof b, "%d %d ", st, st ? 0 : srcml_unit_get_loc(u)); std::string r = b;
    if (!st) { r += sep(srcml_unit_get_hash(u)) + sep(srcml_unit_get_language(u)) + sep(srcml_unit_get_srcml(u)) + sep(srcml_unit_get_srcml_outer(u)) + sep(srcml_unit_get_srcml_inner(u)); } srcml_unit_free(u); if (!shared) srcml_archive_free(a); return r; }
// ---- a process that has parsed nothing, of which a copy does one job
static int g_to = -1, g_from = -1;
static bool all(int fd, void* p, size_t n, bool out) { char* c = (char*) p; while (n) { ssize_t k = out ? write(fd, c, n) : read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static void puts_(int fd, const std::string& s) { size_t n = s.size(); all(fd, &n, sizeof n, true); if (n) all(fd, (void*) s.data(), n, true); }
static bool gets_(int fd, std::string& s) { size_t n; if (!all(fd, &n, sizeof n, false)) return false; s.resize(n); return !n || all(fd, &s[0], n, false); }
struct Flags { unsigned long long opt; int tabs; bool solitary, prefix, filename, version, fd, hash; };
static void fresh_start() { static bool done = false; if (done) return; done = true; int a[2], b[2]; if (pipe(a) || pipe(b)) abort(); if (!fork()) { close(a[1]); close(b[0]); signal(SIGALRM, SIG_DFL);
        for (;;) { Job j; Flags f; if (!gets_(a[0], j.lang) || !gets_(a[0], j.source) || !gets_(a[0], j.enc) || !all(a[0], &f, sizeof f, false)) _exit(0); j.opt = f.opt; j.tabs = f.tabs; j.solitary = f.solitary; j.prefix = f.prefix; j.filename = f.filename; j.version = f.version; j.fd = f.fd; j.hash = f.hash;
            int p[2]; if (pipe(p)) _exit(1); pid_t c = fork(); if (!c) { alarm(20); puts_(p[1], run(j)); _exit(0); } close(p[1]); std::string r; bool ok = gets_(p[0], r); close(p[0]); int s; waitpid(c, &s, 0); puts_(b[1], ok ? r : "no result"); } }
    close(a[0]); close(b[1]); g_to = a[1]; g_from = b[0]; }
static std::string fresh(const Job& j) { Flags f = { j.opt, j.tabs, j.solitary, j.prefix, j.filename, j.version, j.fd, j.hash }; puts_(g_to, j.lang); puts_(g_to, j.source); puts_(g_to, j.enc); all(g_to, &f, sizeof f, true); std::string r; if (!gets_(g_from, r)) return "no result"; return r; }
static const unsigned long long OPTS[] = { 0, 0, SRCML_OPTION_POSITION, SRCML_OPTION_POSITION, SRCML_OPTION_CPP, SRCML_OPTION_CPP | SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP | SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_CPP | SRCML_OPTION_POSITION | SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0 };
static void config(Job& j) { j.opt = PICK("opt", OPTS); static const int T[] = { 8, 8, 1, 2, 4, 3 }; j.tabs = PICK("tabs", T); j.solitary = pick("solitary", 3) == 0; j.prefix = pick("prefix", 3) == 0; j.hash = pick("hash", 4) != 0; }
static void content(Job& j, int maxn) { j.lang = PICK("lang", LANGS); j.source = code("code", j.lang, maxn); static const char* const E[] = { "UTF-8", "UTF-8", "UTF-8", "ISO-8859-1", "ISO-8859-1", "ISO-8859-15", "ISO-8859-2", "utf-8", "UTF-16LE", "UCS2", "windows-1252", "", "" }; j.enc = PICK("enc", E); if (pick("high", 3) == 0) j.source += "// \xc2\xa4 \xc3\xa9 \xe2\x82\xac\n"; if (j.enc.compare(0, 3, "ISO") == 0 && vf_bool("bytes")) j.source += "/* \xa4\xe9\xbd */ "; j.filename = vf_bool("filename"); j.version = vf_bool("version"); j.fd = pick("fd", 4) == 0; }
static void differ(const char* what, const std::string& e, const std::string& g) { if (getenv("VF_STDERR") && e != g) { size_t i = 0; while (i < e.size() && i < g.size() && e[i] == g[i]) ++i; i = i > 60 ? i - 60 : 0; fprintf(stderr, "%s at %zu\n--- alone\n%s\n--- here\n%s\n", what, i, e.substr(i, 300).c_str(), g.substr(i, 300).c_str()); } }
// other uses of the library between parses
static void other() { switch (pick("other", 7)) {
    case 0: { srcml_archive* a = srcml_archive_create(); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "No language"); srcml_unit_parse_memory(u, "a", 1); srcml_unit_free(u); srcml_archive_free(a); break; }
    case 1: { Job j; j.lang = "C++"; j.source = "a; \xff\xfe b \x80"; j.enc = "No-encoding"; j.opt = 0; j.tabs = 8; j.solitary = j.prefix = j.filename = j.version = j.fd = false; j.hash = true; run(j); break; }
    case 2: { static const char D[] = "<unit xmlns=\"http://www.srcML.org/srcML/src\" xmlns:cpp=\"http://www.srcML.org/srcML/cpp\" revision=\"1.0.0\" options=\"CPP_TEXT_ELSE,CPPIF_CHECK\" tabs=\"3\"><unit language=\"Java\" src-encoding=\"UTF-16\">a<cpp:x/></unit></unit>"; srcml_archive* a = srcml_archive_create(); srcml_archive_read_open_memory(a, D, sizeof D - 1); srcml_unit* u = srcml_archive_read_unit(a); if (u) { srcml_unit_get_srcml(u); srcml_unit_free(u); } srcml_archive_close(a); srcml_archive_free(a); break; }
    case 3: { srcml_archive* a = srcml_archive_create(); srcml_archive_register_file_extension(a, "cpp", "Java"); srcml_archive_set_language(a, "C#"); srcml_archive_set_options(a, 127); srcml_archive_set_src_encoding(a, "UTF-16"); srcml_archive_set_xml_encoding(a, "ISO-8859-1"); srcml_archive_set_tabstop(a, 5); srcml_archive_register_namespace(a, "zz", CPP); srcml_unit* u = srcml_unit_create(a); srcml_unit_parse_memory(u, "class A { }", 11); srcml_unit_free(u); srcml_archive_free(a); break; }
    case 4: { srcml_archive* a = srcml_archive_create(); srcml_append_transform_xpath(a, "//src:name"); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); srcml_unit_parse_memory(u, "a = b;", 6); srcml_transform_result* r = 0; srcml_unit_apply_transforms(a, u, &r); if (r) srcml_transform_free(r); srcml_unit_free(u); srcml_archive_free(a); break; }
    case 5: { Job j; content(j, 2); config(j); j.source = j.source.substr(0, j.source.size() / 2) + " ({[ \" ' /* "; j.lang = "C"; j.source = "int a = 'x"; run(j); break; }
    default: break; } }
// memory that a parse gets holds what was there before: bytes of every kind, on the heap and on the stack
__attribute__((noinline)) static void stack(int v) { volatile char b[60000]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (char) v; }
static void dirty() { static const int V[] = { 0, 0xff, 1, 0x41, 0x80, 0x3c }; int v = PICK("memory", V); mallopt(M_PERTURB, v); stack(v); }
VF_NATIVE_HARNESS(history) {
    fresh_start(); Job shared; config(shared); srcml_archive* a = 0; if (pick("shared", 3)) a = archive(shared);
    for (int n = vf_irange("steps", 1, 6); n; --n) { Job j; bool s = a && pick("own", 3); if (s) j = shared; else config(j); content(j, 4); if (pick("between", 3) == 0) other();
        std::string e = fresh(j); vf_assume(e != "no result"); dirty(); std::string g = run(j, s ? a : 0); differ("history", e, g); vf_assert(e == g, "a parse gives what it gives in a process that has done nothing before");
        if (pick("again", 3) == 0) { dirty(); g = run(j, s ? a : 0); differ("again", e, g); vf_assert(e == g, "the same parse again gives the same"); }
        if (pick("attributes", 3) == 0) { // attributes, hash, solitary or not, and how the source comes do not change the markup of the source
            Job k = j; k.filename = !j.filename; k.version = !j.version; k.solitary = !j.solitary; k.hash = !j.hash; k.fd = !j.fd; int st, st2; srcml_archive* x = archive(j), * y = archive(k); srcml_unit* u = parse(x, j, &st), * v = parse(y, k, &st2); vf_assert(st == st2, "a parse succeeds or not whatever the attributes are");
            if (!st) { std::string p = str(srcml_unit_get_srcml_inner(u)), q = str(srcml_unit_get_srcml_inner(v)); differ("attributes", p, q); vf_assert(p == q && srcml_unit_get_loc(u) == srcml_unit_get_loc(v), "attributes of the unit do not change the markup of the source"); } srcml_unit_free(u); srcml_unit_free(v); srcml_archive_free(x); srcml_archive_free(y); } }
    if (a) srcml_archive_free(a); mallopt(M_PERTURB, 0); vf_reach("end");
}
VF_NATIVE_HARNESS(together) {
    fresh_start(); int n = vf_irange("threads", 2, 8), m = vf_irange("jobs", 1, 4); Job shared; config(shared); if (vf_bool("positions")) shared.opt |= SRCML_OPTION_POSITION; std::vector<std::vector<Job> > jobs(n); std::vector<std::vector<std::string> > e(n), g(n); std::vector<std::vector<int> > sh(n); bool same = pick("same", 3) == 0, any = false;
    for (int t = 0; t < n; ++t) for (int i = 0; i < m; ++i) { Job j; int s = pick("own", 3) != 0; if (s) j = shared; else config(j); content(j, 6); if (same && t) { j = jobs[0][i]; s = sh[0][i]; } std::string x = j.source; if (!same || !t) for (int k = vf_irange("times", 0, 8); k; --k) j.source += "\n" + x; any = any || s; jobs[t].push_back(j); sh[t].push_back(s); if (same && t) e[t].push_back(e[0][i]); else { e[t].push_back(fresh(j)); vf_assume(e[t].back() != "no result"); } }
    srcml_archive* a = any ? archive(shared) : 0; std::atomic<int> ready(0); std::vector<std::thread> th; int rounds = vf_irange("rounds", 1, 3);
    for (int t = 0; t < n; ++t) th.emplace_back([&, t] { ++ready; while (ready < n) std::this_thread::yield(); for (int r = 0; r < rounds; ++r) for (int i = 0; i < m; ++i) { std::string x = run(jobs[t][i], sh[t][i] ? a : 0); if ((int) g[t].size() <= i) g[t].push_back(x); else if (g[t][i] != x && x != e[t][i]) g[t][i] = x; } });
    for (auto& x : th) x.join(); if (a) srcml_archive_free(a);
    for (int t = 0; t < n; ++t) for (int i = 0; i < m; ++i) { differ("together", e[t][i], g[t][i]); vf_assert(e[t][i] == g[t][i], "a parse gives the same while other threads parse"); }
    vf_reach("end");
}
#endif
