// P05/P06/P07: reading source.  The same bytes give the same result through every channel and in every chunking; encodings
// and line ends are normalised; the hash is the SHA-1 of the bytes; the lines are counted.
#include "nat.h"
#ifdef VF_NATIVE
#include <sys/socket.h>
#include <dirent.h>
#include <iconv.h>
int srcml_unit_set_hash(struct srcml_unit*, const char*);
using namespace nat;
struct Feed { const std::string* s; size_t p; std::vector<int> chunk; size_t k; int closed; bool afterend; };
static ssize_t feed_read(void* c, void* b, size_t n) { Feed* f = (Feed*) c; size_t m = f->s->size() - f->p; if (f->closed) f->afterend = true; if (m > n) m = n; if (!f->chunk.empty()) { size_t q = f->chunk[f->k++ % f->chunk.size()]; if (m > q) m = q; } memcpy(b, f->s->data() + f->p, m); f->p += m; return (ssize_t) m; }
static int feed_close(void* c) { ++((Feed*) c)->closed; return 0; }
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
struct Result { int status; std::string outer, inner, enc, hash, rev; bool hasenc, hashash; int loc; };
static srcml_archive* g_a; static srcml_unit* g_u;
static void begin(const std::string& lang, const char* uenc, const char* aenc, bool hash) { g_a = srcml_archive_create(); if (aenc) srcml_archive_set_src_encoding(g_a, aenc); if (hash) srcml_archive_enable_hash(g_a); else srcml_archive_disable_hash(g_a); g_u = srcml_unit_create(g_a); srcml_unit_set_language(g_u, lang.c_str()); if (uenc) srcml_unit_set_src_encoding(g_u, uenc); }
static Result finish(int st) { Result r; r.status = st; r.outer = str(srcml_unit_get_srcml_outer(g_u)); r.inner = str(srcml_unit_get_srcml_inner(g_u)); const char* e = srcml_unit_get_src_encoding(g_u); r.hasenc = e; r.enc = str(e); const char* h = srcml_unit_get_hash(g_u); r.hashash = h; r.hash = str(h); r.loc = srcml_unit_get_loc(g_u); srcml_unit_free(g_u); srcml_archive_free(g_a); g_u = 0; g_a = 0; return r; }
static void same(const Result& a, const Result& b, const char* ch) {
    bool ok = a.status == b.status && a.outer == b.outer && a.inner == b.inner && a.enc == b.enc && a.hasenc == b.hasenc && a.hash == b.hash && a.hashash == b.hashash && a.loc == b.loc;
    if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s: status %d/%d enc %s/%s hash %s/%s loc %d/%d\n[%s]\n[%s]\n", ch, a.status, b.status, a.enc.c_str(), b.enc.c_str(), a.hash.c_str(), b.hash.c_str(), a.loc, b.loc, a.outer.c_str(), b.outer.c_str());
    vf_assert(ok, ch); }
static const char* const ENCS[] = { "UTF-8", "UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE" };
static const char* bom(const std::string& e, size_t* n) { *n = e == "UTF-8" ? 3 : e.compare(0, 6, "UTF-16") == 0 ? 2 : e.compare(0, 6, "UTF-32") == 0 ? 4 : 0; return e == "UTF-8" ? "\xEF\xBB\xBF" : e == "UTF-16LE" ? "\xFF\xFE" : e == "UTF-16BE" ? "\xFE\xFF" : e == "UTF-32LE" ? "\xFF\xFE\0\0" : e == "UTF-32BE" ? "\0\0\xFE\xFF" : ""; }
// a source text whose interesting characters lie at any offset, also around the reader's buffer
static std::string big(const std::string& lang) {
    std::string s;
    if (pick("pad", 3) == 0) { static const int B[] = { 1024, 2048, 4096, 512, 1020, 3072, 256 }; int want = PICK("boundary", B) - vf_irange("before", 0, 12); s = "//"; while ((int) s.size() < want - 1) s += pick("padc", 12) ? "x" : "\xc3\xa9"; s += pick("padn", 2) ? "\n" : "\r\n"; if (pick("padshift", 2)) s = "\n" + s; }
    if (pick("dense", 6) == 0) { s += "//"; int n = vf_irange("densen", 200, 3000); const char* d = pick("densec", 2) ? "\xc3\xa9" : "\xe2\x82\xac"; for (int i = 0; i < n; ++i) s += d; s += "\n"; }
    s += code("code", lang, 4);
    if (pick("tail", 5) == 0) s += "\r\r\n\n\r";
    if (s.empty()) s = " ";
    return s; }
static std::string bytes(const std::string& lang, std::string& text, std::string& enc, std::string& declared, bool& hasbom) {
    text = big(lang); enc = PICK("encoding", ENCS); if (enc == "ISO-8859-1" && !latin1(text)) enc = "UTF-8";
    hasbom = enc != "ISO-8859-1" && vf_bool("bom"); size_t n; const char* b = bom(enc, &n); std::string s = encode(text, enc); if (hasbom) s = std::string(b, n) + s;
    // the declared encoding: needed when nothing else tells
    bool w = enc.compare(0, 5, "UTF-1") == 0 || enc.compare(0, 5, "UTF-3") == 0;
    declared = "";
    if (enc == "ISO-8859-1") declared = vf_bool("declare") ? "ISO-8859-1" : ""; else if (!hasbom) declared = enc; else if (vf_bool("declare")) declared = w ? enc.substr(0, 6) : enc;
    if (declared == "UTF-16BE" && pick("alias", 4) == 0) declared = "UTF-16be"; if (declared == "UTF-8" && pick("alias", 4) == 0) declared = "utf-8";
    return s; }
VF_NATIVE_HARNESS(channels) {
    std::string lang = PICK("lang", LANGS), text, enc, dec; bool hasbom; std::string s = bytes(lang, text, enc, dec, hasbom);
    if (pick("garbage", 8) == 0) { std::string b; vf_string("bytes", &b); enc = "ISO-8859-1"; dec = ""; for (size_t i = 0; i < b.size(); ++i) if ((unsigned char) b[i] < 0xA0 || (unsigned char) b[i] >= 0xEF) b[i] = 'x'; s = "/*" + b + "*/ a;"; }
    const char* u = 0; const char* a = 0; if (!dec.empty()) { if (vf_bool("onunit")) { u = dec.c_str(); if (pick("both", 3) == 0) a = "ISO-8859-1"; } else a = dec.c_str(); }
    bool hash = vf_bool("hash");
    begin(lang, u, a, hash); Result mem = finish(srcml_unit_parse_memory(g_u, s.data(), s.size()));
    vf_assert(mem.status == SRCML_STATUS_OK, "source in memory parses");
    int f0 = fds();
    switch (pick("channel", 6)) {
        case 0: { Scratch f("src"); spit(f.f, s); begin(lang, u, a, hash); same(mem, finish(srcml_unit_parse_filename(g_u, f.f.c_str())), "a file parses as its bytes in memory"); break; }
        case 1: { Scratch f("src"); spit(f.f, s); int fd = open(f.f.c_str(), O_RDONLY); begin(lang, u, a, hash); Result r = finish(srcml_unit_parse_fd(g_u, fd)); same(mem, r, "a file descriptor parses as its bytes in memory"); vf_assert(fcntl(fd, F_GETFD) != -1, "the file descriptor stays open"); close(fd); break; }
        case 2: { int p[2]; vf_assume(s.size() < 60000 && pipe(p) == 0); vf_assume(write(p[1], s.data(), s.size()) == (ssize_t) s.size()); close(p[1]); begin(lang, u, a, hash); Result r = finish(srcml_unit_parse_fd(g_u, p[0])); close(p[0]); same(mem, r, "a pipe parses as its bytes in memory"); break; }
        case 3: { Scratch f("src"); spit(f.f, s); FILE* x = fopen(f.f.c_str(), "rb"); begin(lang, u, a, hash); Result r = finish(srcml_unit_parse_FILE(g_u, x)); same(mem, r, "a FILE parses as its bytes in memory"); vf_assert(fileno(x) >= 0 && fcntl(fileno(x), F_GETFD) != -1, "the FILE stays open"); fclose(x); break; }
        default: { Feed f; f.s = &s; f.p = 0; f.k = 0; f.closed = 0; f.afterend = false; static const int C[] = { 1, 2, 3, 4, 5, 7, 64, 100, 1000, 1023, 1024, 1025, 4096 }; for (int n = vf_irange("chunks", 0, 4); n; --n) f.chunk.push_back(PICK("chunk", C));
            bool cl = vf_irange("close", 0, 4) != 0; begin(lang, u, a, hash); Result r = finish(srcml_unit_parse_io(g_u, &f, feed_read, cl ? feed_close : 0)); same(mem, r, "a callback parses as its bytes in memory"); vf_assert(f.closed == (cl ? 1 : 0), "the close callback is called exactly once"); vf_assert(!f.afterend, "nothing is read after the close callback"); } }
    vf_assert(fds() == f0, "parsing leaves no descriptor open");
    vf_reach("end");
}
VF_NATIVE_HARNESS(encodings) {
    std::string lang = PICK("lang", LANGS), text, enc, dec; bool hasbom; std::string s = bytes(lang, text, enc, dec, hasbom);
    const char* u = 0; const char* a = 0; if (!dec.empty()) { if (vf_bool("onunit")) { u = dec.c_str(); if (vf_bool("both")) a = PICK("other", ENCS); } else a = dec.c_str(); }
    begin(lang, 0, "UTF-8", false); Result ref = finish(srcml_unit_parse_memory(g_u, eol(text).data(), eol(text).size()));
    begin(lang, u, a, false); Result r; std::string dummy; Feed f; f.s = &s; f.p = 0; f.k = 0; f.closed = 0;
    if (vf_bool("callback")) { static const int C[] = { 1, 3, 7, 1000, 1024, 2000 }; f.chunk.push_back(PICK("chunk", C)); r = finish(srcml_unit_parse_io(g_u, &f, feed_read, feed_close)); } else r = finish(srcml_unit_parse_memory(g_u, s.data(), s.size()));
    vf_assert(r.status == SRCML_STATUS_OK && ref.status == SRCML_STATUS_OK, "source in any encoding parses");
    if (r.inner != ref.inner && getenv("VF_STDERR")) fprintf(stderr, "enc %s dec %s bom %d\n[%s]\n[%s]\n", enc.c_str(), dec.c_str(), hasbom, ref.inner.c_str(), r.inner.c_str());
    vf_assert(r.inner == ref.inner, "the markup does not depend on the encoding and the line ends of the source");
    std::string want = !dec.empty() ? dec : hasbom ? enc.compare(0, 6, "UTF-16") == 0 ? "UTF-16" : enc.compare(0, 6, "UTF-32") == 0 ? "UTF-32" : "UTF-8" : "ISO-8859-1"; for (size_t i = 0; i < want.size(); ++i) want[i] = toupper(want[i]);
    vf_assert(r.enc == want, "the source encoding of the unit is the declared one, else that of the byte order mark, else ISO-8859-1");
    vf_assert(r.loc == ref.loc, "the number of lines does not depend on the encoding");
    vf_reach("end");
}
VF_NATIVE_HARNESS(unknown_encoding) {
    std::string s = "int a;\n"; const char* e = vf_cstr("encoding"); std::string n = e; vf_assume(n.find('/') == std::string::npos && n.find(',') == std::string::npos && n.find(':') == std::string::npos && !n.empty()); for (size_t i = 0; i < n.size(); ++i) if ((unsigned char) n[i] >= 0x80) vf_assume(false);
    void* ic = (void*) iconv_open("UTF-8", e); bool known = ic != (void*) -1; if (known) iconv_close((iconv_t) ic); vf_assume(!known);
    begin("C", e, 0, true); std::string before = str(srcml_unit_get_srcml_outer(g_u)); Result r = finish(vf_bool("mem") ? srcml_unit_parse_memory(g_u, s.data(), s.size()) : srcml_unit_parse_filename(g_u, "/proc/self/cmdline"));
    vf_assert(r.status == SRCML_STATUS_INVALID_ARGUMENT, "an encoding that is not known is refused"); vf_assert(r.enc == n && !r.hashash && r.outer == before, "the refusal changes nothing"); vf_reach("end");
}
VF_NATIVE_HARNESS(hash_lines) {
    std::string lang = PICK("lang", LANGS), text, enc, dec; bool hasbom; std::string s = bytes(lang, text, enc, dec, hasbom);
    bool hash = pick("hash", 4) != 0, preset = pick("preset", 4) == 0;
    begin(lang, dec.empty() ? 0 : dec.c_str(), 0, hash); std::string h; if (preset) { h = "0123456789abcdef0123456789abcdef01234567"; srcml_unit_set_hash(g_u, h.c_str()); }
    Result r; Feed f; f.s = &s; f.p = 0; f.k = 0; f.closed = 0;
    if (vf_bool("callback")) { static const int C[] = { 1, 3, 7, 1000, 1024, 2000 }; f.chunk.push_back(PICK("chunk", C)); r = finish(srcml_unit_parse_io(g_u, &f, feed_read, feed_close)); } else r = finish(srcml_unit_parse_memory(g_u, s.data(), s.size()));
    vf_assert(r.status == SRCML_STATUS_OK, "source parses");
    if (preset) vf_assert(r.hash == h, "a hash that is set is kept"); else if (!hash) vf_assert(!r.hashash, "no hash without the hash option"); else { if (r.hash != sha1(s) && getenv("VF_STDERR")) fprintf(stderr, "%s %s %zu\n", r.hash.c_str(), sha1(s).c_str(), s.size()); vf_assert(r.hash == sha1(s), "the hash is the SHA-1 of exactly the bytes of the source"); }
    Node x; bool ok = xml(r.outer, x); vf_assert(ok, "the unit is well-formed"); const std::string* ah = x.attr("hash"); vf_assert((ah != 0) == r.hashash && (!ah || *ah == r.hash), "the hash is recorded in the unit");
    std::string t = eol(text); int lines = 0; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\n') ++lines; if (t.empty() || t[t.size() - 1] != '\n') ++lines;
    if (r.loc != lines && getenv("VF_STDERR")) fprintf(stderr, "loc %d want %d\n", r.loc, lines);
    vf_assert(r.loc == lines, "the lines of code are the lines of the source");
    // the same hash and lines after the archive is written and read
    char* b = 0; size_t n = 0; g_a = srcml_archive_create(); if (hash) srcml_archive_enable_hash(g_a); else srcml_archive_disable_hash(g_a); bool solo = vf_bool("solitary"); if (solo) srcml_archive_enable_solitary_unit(g_a); srcml_archive_write_open_memory(g_a, &b, &n);
    g_u = srcml_unit_create(g_a); srcml_unit_set_language(g_u, lang.c_str()); if (!dec.empty()) srcml_unit_set_src_encoding(g_u, dec.c_str()); if (preset) srcml_unit_set_hash(g_u, h.c_str()); srcml_unit_parse_memory(g_u, s.data(), s.size());
    vf_assert(srcml_archive_write_unit(g_a, g_u) == SRCML_STATUS_OK, "the unit is written"); srcml_unit_free(g_u); g_u = 0; srcml_archive_close(g_a); srcml_archive_free(g_a); std::string doc(b, n); srcml_memory_free(b);
    srcml_archive* q = srcml_archive_create(); vf_assert(srcml_archive_read_open_memory(q, doc.data(), doc.size()) == SRCML_STATUS_OK, "the archive is read"); srcml_unit* v = srcml_archive_read_unit(q); vf_assert(v != 0, "the unit is read");
    if (v) { vf_assert(str(srcml_unit_get_hash(v)) == r.hash && (srcml_unit_get_hash(v) != 0) == r.hashash, "the hash is the same after writing and reading"); int l = srcml_unit_get_loc(v); if (l != lines && getenv("VF_STDERR")) fprintf(stderr, "read loc %d want %d\n%s\n", l, lines, doc.c_str()); vf_assert(l == lines, "the lines of code are the same after writing and reading"); srcml_unit_free(v); }
    srcml_archive_close(q); srcml_archive_free(q);
    vf_reach("end");
}
#endif
