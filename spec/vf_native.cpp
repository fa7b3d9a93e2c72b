// Native runtime of the contract harnesses: the same contracts, executed against the real code.
//   prog list
//   prog run <harness> <seed> <seconds> <maxcases> <replay-out>
//   prog replay <file>            (first line: harness; then "name kind value" lines)
// exit 0: no failure; 1: a contract failed (choices written to replay-out); 3: usage
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <list>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <exception>
#include <typeinfo>

struct vf_reg { const char* name; void (*f)(); vf_reg* next; };
static vf_reg* head;
extern "C" int vf_register(const char* n, void (*f)()) { vf_reg* r = new vf_reg; r->name = n; r->f = f; r->next = head; head = r; return 0; }

struct vf_discard {};
struct vf_failed {};

// ------------------------------------------------------------------ shared log of the current case
struct Shared { size_t len; size_t fails; unsigned long long cases, discards, asserts, reached; char label[512]; char log[1 << 22]; };
static Shared* sh;
static bool replaying;
static std::map<std::string, std::deque<std::pair<std::string, std::string> > > fed;
static uint64_t rs;
static std::list<std::string> keep;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static uint64_t below(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
static std::string hex(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r; for (size_t i = 0; i < s.size(); ++i) { r += d[(unsigned char) s[i] >> 4]; r += d[s[i] & 15]; } return r.empty() ? "-" : r; }
static std::string unhex(const std::string& h) { std::string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static void logit(const char* name, const char* kind, const std::string& v) {
    std::string l = std::string(name) + " " + kind + " " + v + "\n";
    if (sh->len + l.size() < sizeof(sh->log)) { memcpy(sh->log + sh->len, l.data(), l.size()); sh->len += l.size(); }
}
static bool feed(const char* name, const char* k, std::string& out) {
    if (fed.empty()) return false;
    std::map<std::string, std::deque<std::pair<std::string, std::string> > >::iterator i = fed.find(name);
    if (i == fed.end() || i->second.empty()) return false;
    out = i->second.front().second; std::string kind = i->second.front().first;
    if (kind != k && !(kind == "null") && !(k[0] == 's' && kind[0] == 's')) return false;
    i->second.pop_front();
    if (kind == "null") out = "\x01null";
    return true;
}
static uint64_t num(const char* name, uint64_t dflt) {
    std::string v;
    uint64_t r = dflt;
    if (feed(name, "int", v)) r = strtoull(v.c_str(), 0, 10);
    char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long) r);
    logit(name, "int", b);
    return r;
}
// strings and numbers that occur in the sources of the property (VF_DICT: "s hex" / "i number" lines)
static std::vector<std::string> dict; static std::vector<uint64_t> dictn;
static void load_dict() { static bool done; if (done) return; done = true; const char* f = getenv("VF_DICT"); if (!f) return; FILE* x = fopen(f, "r"); if (!x) return; char b[4096];
    while (fgets(b, sizeof b, x)) { std::string l(b); while (!l.empty() && l[l.size() - 1] == '\n') l.erase(l.size() - 1); if (l.size() < 3) continue; if (l[0] == 's') dict.push_back(unhex(l.substr(2))); else dictn.push_back(strtoull(l.c_str() + 2, 0, 10)); } fclose(x); }
static uint64_t interesting(int bits) {
    uint64_t m = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
    if (!dictn.empty() && below(6) == 0) return (dictn[below(dictn.size())] + below(3) - 1) & m;
    switch (below(8)) {
        case 0: return below(4); case 1: return below(64); case 2: return (1ULL << below(bits)) & m; case 3: return ((1ULL << below(bits)) - 1) & m;
        case 4: return (0 - below(4)) & m; case 5: return below(2000) & m;
        case 6: { uint64_t r = 0; int k = 1 + below(4); while (k--) r |= 1ULL << below(bits); return r & m; }
        default: return rnd() & m; }
}
extern "C" {
int vf_int(const char* n) { return (int) num(n, interesting(32)); }
unsigned vf_uint(const char* n) { return (unsigned) num(n, interesting(32)); }
unsigned long long vf_u64(const char* n) { return num(n, interesting(64)); }
char vf_char(const char* n) { static const char sp[] = "<>&\"' \n\r\t\v\0az09_:.\x7f\x80\xc3\xff"; return (char) num(n, below(2) ? (unsigned char) sp[below(sizeof sp - 1)] : below(256)); }
size_t vf_size(const char* n, size_t lo, size_t hi) {
    size_t d; uint64_t span = hi - lo + 1;
    if (span == 0 || span > 4096) { d = lo + (below(3) ? below(below(2) ? 8 : 300) : below(span ? span : ~0ULL)); if (d > hi) d = hi; } else d = lo + below(span);
    if (span == 0 || span > 30) if (!dictn.empty() && below(6) == 0) { uint64_t v = dictn[below(dictn.size())] + below(3) - 1; if (v >= lo && v <= hi) d = v; }
    size_t r = num(n, d); if (r < lo || r > hi) throw vf_discard(); return r; }
int vf_irange(const char* n, int lo, int hi) { return (int) vf_size(n, lo, hi); }
bool vf_bool(const char* n) { return num(n, below(2)) & 1; }
int vf_symbolic() { return 0; }

static const char* words[] = { "C++", "C", "Java", "C#", "Objective-C", "http://www.srcML.org/srcML/src", "http://www.srcML.org/srcML/cpp", "http://www.srcML.org/srcML/position", "http://www.srcML.org/srcML/diff",
    "a.cpp", "dir/b.java.gz", ".gz", ".", "..", "x.", "pos", "cpp", "UTF-8", "ISO-8859-1", "xml", "a;b", "abc", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "&lt;", "]]>", "--", "<a b='c'>", "1.0", "INSERT", "insert", "delete", "common", "src:type", "auto", "none", "\r\n", "\n", "\r", "if", "{}", "/*", "*/" };
static std::string piece(int mode) {
    // mode 0: any bytes; 1: no NUL; 2: valid UTF-8 legal in XML
    if (!dict.empty() && below(7) == 0) { const std::string& w = dict[below(dict.size())]; bool ok = true; for (size_t i = 0; i < w.size(); ++i) if (mode == 2 ? (unsigned char) w[i] >= 0x7f || ((unsigned char) w[i] < 32 && !strchr("\t\n\r", w[i])) : mode == 1 && !w[i]) ok = false; if (ok) return w; }
    switch (below(6)) {
        case 0: { static const char sp[] = "<>&\"'\n\t -./;:_="; return std::string(1, sp[below(sizeof sp - 1)]); }
        case 1: return words[below(sizeof words / sizeof *words)];
        case 2: if (mode == 2) { static const char* u[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x85", "z" }; return u[below(5)]; } return std::string(1, (char) (mode == 0 ? below(256) : 1 + below(255)));
        case 3: return std::string(1, (char) ('a' + below(26)));
        case 4: return std::string(1, (char) ('0' + below(10)));
        default: return std::string(1, (char) (mode == 2 ? 32 + below(95) : mode == 1 ? 1 + below(127) : below(128))); }
}
static std::string text(int mode) {
    uint64_t r = below(100);
    if (r < 8) return "";
    if (r < 14 && !dict.empty()) return piece(mode);
    if (r < 20) return words[below(sizeof words / sizeof *words)];
    size_t n = r < 80 ? 1 + below(6) : r < 97 ? below(40) : 0;
    std::string s;
    for (size_t i = 0; i < n; ++i) s += piece(mode);
    if (r >= 97) { static const size_t L[] = { 15, 16, 31, 32, 255, 256, 257, 510, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 5000 }; size_t want = L[below(17)]; if (!dictn.empty() && below(4) == 0) { uint64_t v = dictn[below(dictn.size())] + below(3) - 1; if (v < 70000) want = v; } 
        while (s.size() < want) s += below(10) ? std::string(1, (char) ('a' + below(26))) : piece(mode);
        if (mode != 2) s.resize(want); }
    return s;
}
static const char* str(const char* name, int mode, bool maybe) {
    std::string v, s; bool null = false;
    if (feed(name, "str", v)) { if (v == "\x01null") null = true; else s = unhex(v); }
    else { null = maybe && below(5) == 0; s = text(mode); }
    if (null && maybe) { logit(name, "null", "-"); return 0; }
    logit(name, "str", hex(s));
    keep.push_back(s);
    // exact-size heap copy so that ASan sees overruns
    char* p = (char*) malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1);
    static std::vector<char*> held; held.push_back(p); if (held.size() > 64) { free(held[0]); held.erase(held.begin()); }
    return p;
}
const char* vf_cstr(const char* n) { return str(n, 1, false); }
const char* vf_cstr_or_null(const char* n) { return str(n, 1, true); }
const char* vf_text(const char* n) { return str(n, 2, false); }
const char* vf_text_or_null(const char* n) { return str(n, 2, true); }
const char* vf_bytes(const char* n, size_t* len) {
    std::string v, s; if (feed(n, "str", v)) s = unhex(v); else s = text(0);
    logit(n, "str", hex(s)); keep.push_back(s); *len = s.size();
    char* p = (char*) malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size());
    static std::vector<char*> held; held.push_back(p); if (held.size() > 64) { free(held[0]); held.erase(held.begin()); }
    return p;
}
void vf_string(const char* n, std::string* out) { size_t l; const char* p = vf_bytes(n, &l); out->assign(p, l); }
void* vf_object(const char*, size_t) { throw vf_discard(); }
void vf_vector(void*, size_t, const char*, const char*, size_t) { throw vf_discard(); }
static std::map<int, std::pair<bool, std::string> > slots;
void vf_str_save(int k, const char* p) { slots[k] = std::make_pair(p != 0, std::string(p ? p : "")); }
bool vf_str_same(int k, const char* p) { std::pair<bool, std::string>& v = slots[k]; return v.first == (p != 0) && (!p || v.second == p); }
void vf_frame_save(const void*, size_t) {}
void vf_frame_check(const void*, size_t, size_t, size_t, size_t, size_t, const char*) {}
void vf_assume(bool c) { if (!c) throw vf_discard(); }
void vf_assert(bool c, const char* label) {
    ++sh->asserts;
    if (c) return;
    if (!sh->fails++) snprintf(sh->label, sizeof sh->label, "%s", label);
    throw vf_failed();
}
void vf_reach(const char*) { ++sh->reached; }
bool vf_streq(const char* a, const char* b) { return a == b || (a && b && strcmp(a, b) == 0); }
const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:detect_odr_violation=0"; }
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void onecase(void (*f)()) {
    sh->len = 0; keep.clear();
    try { f(); ++sh->cases; }
    catch (vf_discard&) { ++sh->discards; }
    catch (vf_failed&) { ++sh->cases; if (!sh->fails) sh->fails = 1; _exit(1); }
    catch (std::exception& e) { if (!sh->fails++) snprintf(sh->label, sizeof sh->label, "exception %s: %s escapes", typeid(e).name(), e.what()); _exit(1); }
    catch (...) { if (!sh->fails++) snprintf(sh->label, sizeof sh->label, "exception escapes"); _exit(1); }
    if (sh->fails) _exit(1);
}
static int supervise(void (*body)(), char* why, size_t n, double secs) {
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("VF_STDERR")) dup2(fd, 2);
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        body(); _exit(0);
    }
    // watchdog: a single case that makes no progress for 40 s is reported as "no result"
    int st; double last = now(); unsigned long long c0 = sh->cases + sh->discards;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        usleep(2000);
        if (sh->cases + sh->discards != c0) { c0 = sh->cases + sh->discards; last = now(); }
        if (now() - last > 40) { kill(p, SIGKILL); waitpid(p, &st, 0); snprintf(why, n, "timeout"); return 2; }
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (sh->fails) snprintf(why, n, "%s", sh->label);
    else if (WIFEXITED(st)) snprintf(why, n, WEXITSTATUS(st) == 99 ? "memory error (AddressSanitizer)" : "process exited with %d", WEXITSTATUS(st));
    else snprintf(why, n, "killed by signal %d", WTERMSIG(st));
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 2;
    return 1;
}
static void (*curf)(); static uint64_t cseed, cmax; static double csecs; static int tries;
static std::vector<std::string> lines;
static void body_run() {
    double t0 = now();
    for (uint64_t i = 0; i < cmax && now() - t0 < csecs; ++i) { rs = (cseed + 0x9E3779B97F4A7C15ULL * (i + 1)) | 1; rnd(); rnd(); onecase(curf); }
}
static void loadfed() {
    fed.clear();
    for (size_t i = 0; i < lines.size(); ++i) {
        size_t a = lines[i].find(' '), b = lines[i].find(' ', a + 1);
        if (a == std::string::npos || b == std::string::npos) continue;
        fed[lines[i].substr(0, a)].push_back(std::make_pair(lines[i].substr(a + 1, b - a - 1), lines[i].substr(b + 1)));
    }
}
static void body_replay() {
    for (int k = 0; k < tries; ++k) { loadfed(); rs = (cseed + 0x9E3779B97F4A7C15ULL * (k + 1)) | 1; rnd(); rnd(); onecase(curf); }
}
int main(int argc, char** argv) {
    sh = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc < 2) return 3;
    load_dict();
    if (!strcmp(argv[1], "list")) { for (vf_reg* r = head; r; r = r->next) puts(r->name); return 0; }
    std::string hname, out; char why[600] = "";
    int rc;
    if (!strcmp(argv[1], "run") && argc >= 7) {
        hname = argv[2]; cseed = strtoull(argv[3], 0, 10) * 1000003; csecs = atof(argv[4]); cmax = strtoull(argv[5], 0, 10); out = argv[6];
        for (vf_reg* r = head; r; r = r->next) if (hname == r->name) curf = r->f;
        if (!curf) return 3;
        rc = supervise(body_run, why, sizeof why, csecs);
    } else if (!strcmp(argv[1], "replay") && argc >= 3) {
        FILE* f = fopen(argv[2], "r"); if (!f) return 3;
        std::string cur; int c; std::vector<std::string> all;
        while ((c = fgetc(f)) != EOF) { if (c == '\n') { all.push_back(cur); cur.clear(); } else cur += (char) c; }
        fclose(f);
        if (all.empty()) return 3;
        hname = all[0]; size_t sp = hname.find(' '); if (sp != std::string::npos) hname = hname.substr(0, sp);
        lines.assign(all.begin() + 1, all.end());
        tries = argc > 3 ? atoi(argv[3]) : 1; out = argc > 4 ? argv[4] : ""; cseed = 1;
        for (vf_reg* r = head; r; r = r->next) if (hname == r->name) curf = r->f;
        if (!curf) return 3;
        rc = supervise(body_replay, why, sizeof why, 60);
    } else return 3;
    printf("cases=%llu discards=%llu asserts=%llu reached=%llu\n", sh->cases, sh->discards, sh->asserts, sh->reached);
    if (rc == 2 && !out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fprintf(f, "%s # %s\n", hname.c_str(), why); fwrite(sh->log, 1, sh->len, f); fclose(f); } }
    if (rc == 1) {
        printf("FAIL %s: %s\n", hname.c_str(), why);
        if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fprintf(f, "%s # %s\n", hname.c_str(), why); fwrite(sh->log, 1, sh->len, f); fclose(f); } }
    } else if (rc == 2) printf("NORESULT %s: %s\n", hname.c_str(), why);
    return rc == 2 ? 0 : rc;
}
