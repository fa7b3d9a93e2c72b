// P20: the client's queues with real threads: what is written must be what one request after the other gives, in the order in which
// they were scheduled.  Real: ParseQueue, srcml_consume, WriteQueue, srcml_write, log and messages; stand-ins: the pool of threads
// (spec/stubs/ctpl_stl.h, with delays), making directories and the parser test.
#include "nat.h"
#ifdef VF_NATIVE
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <atomic>
#include <ctime>
#include <memory>
#include "stubs/ctpl_stl.h"
#include <ParseQueue.hpp>
#include <WriteQueue.cpp>
#include <srcml_consume.cpp>
#define srcml_write_request vf_real_write
#include <srcml_write.cpp>
#undef srcml_write_request
#include <TraceLog.cpp>
#include <SRCMLStatus.cpp>
#include <srcml_options.cpp>
#include <OpenFileLimiter.cpp>
mkDir::mkDir() : arch(0), entry(0) {} mkDir::~mkDir() {} void mkDir::mkdir(const std::string& p) { ::mkdir(p.c_str(), 0700); }
void ParserTest::entry(const ParseRequest*, srcml_archive*, srcml_unit*) {} void ParserTest::report(srcml_archive*) {}
using namespace nat;
// what the writer is given
static WriteQueue* g_queue; static int g_given; static std::string g_wrong; static bool g_try;
void srcml_write_request(std::shared_ptr<ParseRequest> r, TraceLog& log, const srcml_output_dest& d) { ++g_given; if (r->status != SRCML_STATUS_OK && r->unit) g_wrong = "a request that failed has no unit"; if (g_queue && g_queue->ordered && r->position != g_given) g_wrong = "requests are written in the order of the positions, without gaps";
    if (g_try && g_queue) { bool free = false; for (int i = 0; i < 2000 && !free; ++i) { free = g_queue->qmutex.try_lock(); if (free) g_queue->qmutex.unlock(); else usleep(100); } if (!free) g_wrong = "the mutex is not held while a request is written"; }
    vf_real_write(r, log, d); }
static void given(int n) { vf_assert(g_wrong.empty(), g_wrong.empty() ? "requests are written as they should" : g_wrong.c_str()); vf_assert(g_given == n, "every request is written once"); }
enum Kind { SOURCE, DISK, READY, NO_LANGUAGE, BAD_LANGUAGE, NO_FILE, FAILED, FAILED_MESSAGE };
struct Item { Kind kind; bool file; std::string language, source; bool f, v, t, u; std::string filename, version, time, url; int delay; };
static const char* const SRCS[] = { "", "int a;\n", "a = b;", "void f() {\n  if (a < b && c) g(\"<&>\");\n}\n", "#define A 1\n#if A\nint b;\n#endif\n", "class A { int f(); };\n", "/* c */ x ? y : z;\n", "\n\n\n" };
static const char* const FILES[] = { "a.c", "./a.cpp", "././b.c", "d/a.c", "../a.c", ".a.c", "/a.c", "./", ".", "./.c", "a./b.c", "d/./e.c", "", "./../x.c", ".//y.c" };
static std::string clean(std::string f) { while (f.compare(0, 2, "./") == 0) f.erase(0, 2); return f; }
static std::string disk() { static Scratch d("p20.c"); static bool made = false; if (!made) spit(d.f, "int disk;\n"); made = true; return d.f; }
static Item item(bool transform) { Item i; int k = pick("kind", 20); i.kind = k < 11 ? SOURCE : k < 13 ? DISK : k < 15 ? READY : k == 15 ? NO_LANGUAGE : k == 16 ? BAD_LANGUAGE : k == 17 ? NO_FILE : k == 18 ? FAILED : FAILED_MESSAGE;
    if (transform && (i.kind == BAD_LANGUAGE)) i.kind = SOURCE;
    i.language = PICK("language", LANGS); for (int n = vf_irange("pieces", 0, 4); n; --n) i.source += PICK("piece", SRCS); if (pick("large", 12) == 0) { std::string s = i.source; for (int n = 0; n < 40; ++n) i.source += s; }
    i.f = pick("filename", 4) != 0; i.v = pick("version", 3) == 0; i.t = pick("time", 3) == 0; i.filename = PICK("name", FILES); i.version = "1." + std::to_string(pick("v", 9)); i.time = "T" + std::to_string(pick("t", 9)); i.file = (i.kind == NO_LANGUAGE || i.kind == FAILED || i.kind == FAILED_MESSAGE) && vf_bool("file"); i.delay = pick("delay", 4) ? 0 : pick("long", 1500); return i; }
static srcml_archive* archive(const std::vector<std::string>& xpath) { srcml_archive* a = srcml_archive_create(); srcml_archive_disable_solitary_unit(a); for (auto& x : xpath) srcml_append_transform_xpath(a, x.c_str()); return a; }
// what the unit of a request is, made without the client
static srcml_unit* unit(srcml_archive* a, const Item& i, int& st) { srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, i.language.c_str()); if (i.f) srcml_unit_set_filename(u, clean(i.filename).c_str()); if (i.v) srcml_unit_set_version(u, i.version.c_str()); if (i.t) srcml_unit_set_timestamp(u, i.time.c_str());
    st = i.kind == DISK ? srcml_unit_parse_filename(u, disk().c_str()) : srcml_unit_parse_memory(u, i.source.data(), i.source.size()); return u; }
struct Out { std::string xml, log, err; int written; };
static const int MODES[] = { 0, SRCML_COMMAND_XML_RAW, SRCML_COMMAND_XML_FRAGMENT };
static void newline(std::string& s) { if (s.size() && s[s.size() - 1] != '\n') s += '\n'; }
static void put(srcml_archive* a, const std::string& s) { srcml_archive_write_string(a, s.data(), (int) s.size()); }
static Out sequential(const std::vector<Item>& v, const std::vector<std::string>& xpath, int mode, bool verbose) {
    Out o; o.written = 0; srcml_archive* a = archive(xpath); char* b = 0; size_t n = 0; vf_assert(srcml_archive_write_open_memory(a, &b, &n) == 0, "opens"); int count = 0, skipped = 0;
    for (auto& i : v) { std::string name = i.f ? clean(i.filename) : "";
        if (i.kind == NO_LANGUAGE || i.kind == BAD_LANGUAGE) { std::ostringstream s; if (verbose) { s << "    - " << std::setw(52) << ' ' << (i.f ? i.filename : "") << '\n'; ++skipped; o.log += s.str(); } else o.err += "srcml: Extension not supported" + (i.file ? " " + i.filename : "") + "\n"; continue; }
        if (i.kind == FAILED) { o.err += "Internal error " + std::to_string(SRCML_STATUS_ERROR) + "\n"; continue; }
        if (i.kind == FAILED_MESSAGE) { o.err += "message\n"; continue; }
        if (i.kind == NO_FILE) { o.err += "srcml: Unable to open file " + (i.f ? i.filename : std::string()) + "\n"; continue; }
        int st; srcml_unit* u = unit(a, i, st); if (st) { o.err += "srcml: Unable to open file " + (i.f ? i.filename : std::string()) + "\n"; srcml_unit_free(u); continue; }
        ++o.written; srcml_transform_result* r = 0; srcml_unit_apply_transforms(a, u, &r); int type = r ? srcml_transform_get_type(r) : -1; bool done = false;
        if (type == SRCML_RESULT_NUMBER) { double d = srcml_transform_get_number(r); put(a, (d == (int) d ? std::to_string((int) d) : std::to_string(d)) + "\n"); done = true; }
        else if (type == SRCML_RESULT_BOOLEAN) { put(a, srcml_transform_get_bool(r) ? "true\n" : "false\n"); done = true; }
        else if (type == SRCML_RESULT_STRING) { std::string s = srcml_transform_get_string(r); if (s.empty()) s = "\n"; newline(s); put(a, s); done = true; }
        else if (r && srcml_transform_get_unit_size(r) > 0) for (int k = 0; k < srcml_transform_get_unit_size(r); ++k) srcml_archive_write_unit(a, srcml_transform_get_unit(r, k));
        else if (type == SRCML_RESULT_NONE) {}
        else if (mode == SRCML_COMMAND_XML_RAW) { std::string s = srcml_unit_get_srcml_inner(u); newline(s); put(a, s); }
        else if (mode == SRCML_COMMAND_XML_FRAGMENT) { std::string s = srcml_unit_get_srcml_outer(u); newline(s); put(a, s); }
        else srcml_archive_write_unit(a, u);
        if (verbose && !done && type != SRCML_RESULT_NONE) { std::ostringstream s; s << std::setw(5) << ++count << ' ' << std::setw(4) << std::left << i.language << ' ' << std::setw(5) << std::right << srcml_unit_get_loc(u); if (srcml_unit_get_hash(u)) s << ' ' << srcml_unit_get_hash(u); if (i.f) s << ' ' << name; s << '\n'; o.log += s.str(); }
        if (r) srcml_transform_free(r); srcml_unit_free(u); }
    srcml_archive_close(a); o.xml.assign(b, n); free(b); srcml_archive_free(a); return o; }
static std::shared_ptr<ParseRequest> request(srcml_archive* a, const Item& i, std::vector<srcml_unit*>&) { std::shared_ptr<ParseRequest> p(new ParseRequest); p->srcml_arch = a; p->language = i.language; if (i.f) p->filename = i.filename; if (i.v) p->version = i.version; if (i.t) p->time_stamp = i.time; p->buffer.assign(i.source.begin(), i.source.end());
    if (i.kind == DISK) p->disk_filename = disk(); if (i.file) p->disk_filename = i.filename; if (i.kind == NO_FILE) p->disk_filename = disk() + ".missing";
    if (i.kind == READY) { srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, i.language.c_str()); p->unit.reset(u); srcml_unit_parse_memory(u, i.source.data(), i.source.size()); p->needsparsing = false; }
    if (i.kind == BAD_LANGUAGE) p->language = "No such language"; if (i.kind == NO_LANGUAGE) p->status = SRCML_STATUS_UNSET_LANGUAGE; if (i.kind == FAILED) p->status = SRCML_STATUS_ERROR; if (i.kind == FAILED_MESSAGE) { p->status = SRCML_STATUS_IO_ERROR; p->errormsg = std::string("message"); } return p; }
struct Redirect { std::ostream& s; std::streambuf* b; std::ostringstream o; Redirect(std::ostream& x) : s(x), b(x.rdbuf()) { s.rdbuf(o.rdbuf()); } ~Redirect() { s.rdbuf(b); } };
static Out threads(const std::vector<Item>& v, const std::vector<std::string>& xpath, int mode, bool verbose, int n, unsigned jitter, bool ordered, int pause, std::vector<std::weak_ptr<ParseRequest> >* left) {
    Out o; SRCMLOptions::set(mode | (verbose ? SRCML_COMMAND_VERBOSE : 0)); srcml_archive* a = archive(xpath); char* b = 0; size_t size = 0; srcml_archive_write_open_memory(a, &b, &size); std::vector<srcml_unit*> units; static long long space[64]; const srcml_output_dest& dest = *(const srcml_output_dest*) (void*) space; ctpl::jitter() = jitter;
    { Redirect clog(std::clog), cerr(std::cerr); { TraceLog log; { WriteQueue w(log, dest, ordered); g_given = 0; g_wrong.clear(); g_try = jitter % 5 == 1; g_queue = &w; ParseQueue q(n, &w); for (auto& i : v) { std::shared_ptr<ParseRequest> p(request(a, i, units)); left->push_back(p); q.schedule(p); p.reset(); if (pause && i.delay) usleep(i.delay); }
            q.wait(); if (pause & 2) usleep(500); w.stop(); o.written = w.numWritten(); g_queue = 0; } o.log = clog.o.str(); } o.err = cerr.o.str(); }
    SRCMLOptions::set(0); srcml_archive_close(a); o.xml.assign(b, size); free(b); srcml_archive_free(a); return o; }
static bool bare(const Item& i) { return i.kind == BAD_LANGUAGE; }
VF_NATIVE_HARNESS(schedules) {
    disk(); std::vector<std::string> xpath; int x = pick("transform", 8); static const char* const XP[] = { "//src:name", "count(//src:name)", "//src:nothing", "string(//src:name)", "boolean(//src:if)" }; if (x < 5) xpath.push_back(XP[x]);
    int mode = x < 5 ? 0 : MODES[pick("mode", 8) > 5 ? pick("m", 3) : 0]; bool verbose = mode == 0 && x >= 5 && pick("verbose", 3) == 0; bool ordered = x < 5 || mode || verbose || pick("unordered", 5) != 0;
    std::vector<Item> v; for (int n = pick("many", 6) ? vf_irange("requests", 0, 8) : vf_irange("requests", 9, 50); n; --n) { v.push_back(item(x < 5)); Item& i = v.back(); if (i.kind == BAD_LANGUAGE) i.language = "No such language"; if (i.kind == READY && mode) i.kind = SOURCE; if (bare(i) && verbose) i.kind = SOURCE, i.language = "C"; }
    Out e = sequential(v, xpath, mode, verbose); std::vector<std::weak_ptr<ParseRequest> > left;
    int n = vf_irange("threads", 1, 8); unsigned jitter = pick("jitter", 3) ? 1 + pick("us", 1500) : 0; Out o = threads(v, xpath, mode, verbose, n, jitter, ordered, pick("pause", 4), &left);
    if (getenv("VF_STDERR") && (o.xml != e.xml || o.err != e.err || o.log != e.log || o.written != e.written)) fprintf(stderr, "--- expected (%d)\n%s\n[%s]\n[%s]\n--- got (%d)\n%s\n[%s]\n[%s]\n", e.written, e.xml.c_str(), e.err.c_str(), e.log.c_str(), o.written, o.xml.c_str(), o.err.c_str(), o.log.c_str());
    given((int) v.size());
    if (ordered) { vf_assert(o.xml == e.xml, "what is written is what one request after the other gives, in the order in which they were scheduled"); vf_assert(o.err == e.err, "every request that failed is told once, in order"); vf_assert(o.log == e.log, "the log is in order"); }
    else { std::vector<std::string> s[2]; for (int k = 0; k < 2; ++k) { const std::string& d = k ? o.xml : e.xml; srcml_archive* a = srcml_archive_create(); vf_assert(srcml_archive_read_open_memory(a, d.data(), d.size()) == 0, "what is written can be read"); if (e.written) while (srcml_unit* u = srcml_archive_read_unit(a)) { s[k].push_back(srcml_unit_get_srcml_outer(u)); srcml_unit_free(u); } srcml_archive_close(a); srcml_archive_free(a); std::sort(s[k].begin(), s[k].end()); }
        vf_assert(s[0] == s[1], "every unit is written once"); vf_assert(o.xml.size() == e.xml.size(), "nothing else is written"); }
    vf_assert(o.written == e.written, "the units written are counted"); for (auto& w : left) vf_assert(w.expired(), "a request is freed when it was written");
    vf_reach("end");
}
// the writer alone: requests that failed, given to it in any order by several threads
VF_NATIVE_HARNESS(writer) {
    SRCMLOptions::set(0); int n = pick("many", 8) ? vf_irange("n", 0, 60) : vf_irange("n", 60, 700); int producers = vf_irange("producers", 1, 4); int order = pick("order", 4); bool ordered = pick("unordered", 5) != 0; bool early = vf_bool("early");
    std::vector<int> o; for (int i = 1; i <= n; ++i) o.push_back(i); if (order == 1) std::reverse(o.begin(), o.end()); else if (order == 2) { unsigned x = vf_uint("seed"); for (size_t i = o.size(); i > 1; --i) { x = x * 1103515245u + 12345u; std::swap(o[i - 1], o[(x >> 8) % i]); } } else if (order == 3 && n > 1) std::rotate(o.begin(), o.begin() + 1, o.end());
    std::string expected; for (int i = 1; i <= n; ++i) expected += "m" + std::to_string(i) + "\n"; static long long space[64]; const srcml_output_dest& dest = *(const srcml_output_dest*) (void*) space; std::string got; std::vector<std::weak_ptr<ParseRequest> > left; bool freed = true;
    { Redirect cerr(std::cerr); TraceLog log; { WriteQueue w(log, dest, ordered); g_given = 0; g_wrong.clear(); g_try = false; g_queue = &w; if (early) usleep(300); std::vector<std::shared_ptr<ParseRequest> > v; for (int i = 0; i < n; ++i) { std::shared_ptr<ParseRequest> p(new ParseRequest); p->position = o[i]; p->status = SRCML_STATUS_ERROR; p->errormsg = "m" + std::to_string(o[i]); v.push_back(p); left.push_back(p); }
        std::vector<std::thread> t; for (int k = 0; k < producers; ++k) t.emplace_back([&, k] { for (int i = k; i < n; i += producers) { w.schedule(v[i]); if (i % 7 == 3) std::this_thread::yield(); } }); for (auto& x : t) x.join(); v.clear(); w.stop(); g_queue = 0; for (auto& x : left) freed = freed && x.expired(); vf_assert(w.numWritten() == 0, "a request that failed is not counted"); } got = cerr.o.str(); }
    given(n);
    if (!ordered) { std::vector<std::string> s[2]; for (int k = 0; k < 2; ++k) { std::istringstream in(k ? got : expected); std::string l; while (std::getline(in, l)) s[k].push_back(l); std::sort(s[k].begin(), s[k].end()); } vf_assert(s[0] == s[1], "every request is written once"); }
    else vf_assert(got == expected, "every request is written once, in the order of the positions"); vf_assert(freed, "a request is freed when it was written"); vf_reach("end");
}
#endif
