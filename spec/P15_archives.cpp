// P15: what is written to an archive is what is read from it, through every channel, in order.
#include "nat.h"
#ifdef VF_NATIVE
using namespace nat; enum { OPT_TEXT_ELSE = 1 << 4, OPT_IF0 = 1 << 5, OPT_LINE = 1 << 10 };
int srcml_unit_set_hash(struct srcml_unit*, const char*);
int srcml_archive_register_macro(struct srcml_archive*, const char*, const char*); size_t srcml_archive_get_macro_list_size(const struct srcml_archive*);
const char* srcml_archive_get_macro_token(const struct srcml_archive*, size_t); const char* srcml_archive_get_macro_type(const struct srcml_archive*, size_t);
static const char* const VALUES[] = { "a", "", "x>y", "a \"q\" b", "<&>'", "&#38;", "a\nb", " url=\"no\"", "\xc3\xa9/\xe2\x82\xac.c", "very/long/path/name.cpp", "it's", "c\td", "&amp;" };
static std::string last = "a";
static std::string value1(const char* n) { if (pick(n, 3) == 0) { const char* t = vf_text(n); std::string s = t; for (size_t i = 0; i < s.size(); ++i) if ((unsigned char) s[i] < ' ' && s[i] != '\n' && s[i] != '\t') s[i] = '.'; return s; } return PICK(n, VALUES); }
// now and then the value used before
static std::string value(const char* n) { return pick("same", 4) == 0 ? last : last = value1(n); }
struct Config { bool solo, hash, url, version, lang; std::string u, v, enc, pit, pid; unsigned long long opts; int tabs; std::vector<std::pair<std::string, std::string> > ns, macros; };
static Config config() {
    Config c; c.solo = pick("solitary", 4) == 0; c.hash = pick("nohash", 4) != 0; c.url = vf_bool("url"); c.u = c.url ? value("url") : ""; c.version = vf_bool("version"); c.v = c.version ? value("version") : ""; static const char* const E[] = { "", "", "", "UTF-8", "ISO-8859-1", "UTF-16" }; c.enc = PICK("encoding", E);
    c.opts = 0; if (pick("opt", 3) == 0) { c.opts = vf_irange("options", 0, 127); } static const int WIDE[] = { 16, 19, 20, 21, 32, 63, 64, 99, 100, 127 }; c.tabs = pick("tab", 3) == 0 ? vf_irange("tabs", 1, 12) : pick("wide", 4) == 0 ? PICK("tabs", WIDE) : 8; last = "a"; if (pick("pi", 5) == 0) { c.pit = "pi-t"; static const char* const D[] = { "data", "a=\"b\" <c>", "" }; c.pid = PICK("pidata", D); }
    static const char* const P[] = { "x", "url", "a.b-c", "_xmlns", "unit" }; static const char* const W[] = { "http://x.org", "http://y.org?a=1&b=2", "url", "it's", "a#b" }; std::set<std::string> used;
    for (int n = vf_irange("namespaces", 0, 3); n; --n) { std::string p = PICK("prefix", P), u = PICK("uri", W); if (used.insert(p).second && used.insert(u).second) c.ns.push_back(std::make_pair(p, u)); } if (pick("src", 6) == 0) c.ns.push_back(std::make_pair("src", SRC)); if (pick("cpp", 6) == 0) c.ns.push_back(std::make_pair("c", CPP));
    static const char* const TOKEN[] = { "MACRO", "M", "MAX", "T&<", "X", "macro", "_" }; static const char* const TYPE[] = { "src:macro", "src:macro", "src:type", "src:name", "src" }; for (int n = pick("macro", 4) == 0 ? vf_irange("macros", 1, 4) : 0; n; --n) { const char* t = PICK("token", TOKEN); c.macros.push_back(std::make_pair(t, PICK("type", TYPE))); }
    return c; }
static srcml_archive* create(const Config& c) {
    srcml_archive* a = srcml_archive_create(); if (c.solo) srcml_archive_enable_solitary_unit(a); if (!c.hash) srcml_archive_disable_hash(a); if (c.url) srcml_archive_set_url(a, c.u.c_str()); if (c.version) srcml_archive_set_version(a, c.v.c_str()); if (!c.enc.empty()) srcml_archive_set_xml_encoding(a, c.enc.c_str());
    srcml_archive_enable_option(a, c.opts & ~(unsigned long long) SRCML_OPTION_NO_XML_DECL); srcml_archive_set_tabstop(a, c.tabs); if (!c.pit.empty()) srcml_archive_set_processing_instruction(a, c.pit.c_str(), c.pid.c_str());
    for (size_t i = 0; i < c.ns.size(); ++i) srcml_archive_register_namespace(a, c.ns[i].first.c_str(), c.ns[i].second.c_str()); for (size_t i = 0; i < c.macros.size(); ++i) srcml_archive_register_macro(a, c.macros[i].first.c_str(), c.macros[i].second.c_str());
    return a; }
struct Spec { std::string lang, file, version, stamp, hash, text; bool hf, hv, ht, hh; };
static Spec unit_spec(const Config& c) {
    Spec s; s.lang = PICK("lang", LANGS); s.hf = vf_bool("filename"); s.file = s.hf ? value("filename") : ""; s.hv = vf_bool("uversion"); s.version = s.hv ? value("uversion") : ""; s.ht = vf_bool("timestamp"); s.stamp = s.ht ? value("timestamp") : ""; s.hh = pick("sethash", 4) == 0; s.hash = s.hh ? value("hash") : "";
    static const char* const TINY[] = { "", "", "\n", " ", "\t", ";", "a", "\n\n", "}", "\r\n", "/", "\xc3\xa9", "<", "&" }; s.text = pick("tiny", 6) == 0 ? PICK("empty", TINY) : code("code", s.lang, 3); if (!s.text.empty() && s.lang != "Java" && s.lang != "C#" && vf_bool("usecpp")) s.text = "#define A 1\n" + s.text; if (pick("control", 8) == 0) s.text = "// \x01\n" + s.text; (void) c; return s; }
static srcml_unit* make(srcml_archive* a, const Spec& s) {
    srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, s.lang.c_str()); srcml_unit_set_src_encoding(u, "UTF-8"); if (s.hf) srcml_unit_set_filename(u, s.file.c_str()); if (s.hv) srcml_unit_set_version(u, s.version.c_str()); if (s.ht) srcml_unit_set_timestamp(u, s.stamp.c_str()); if (s.hh) srcml_unit_set_hash(u, s.hash.c_str());
    vf_assert(srcml_unit_parse_memory(u, s.text.data(), s.text.size()) == SRCML_STATUS_OK, "source parses"); return u; }
static std::string o(const char* s) { return s ? std::string("[") + s + "]" : "-"; }
struct Unit { std::string at, inner; int loc; };
static std::string attrs(srcml_unit* u) { return o(srcml_unit_get_language(u)) + o(srcml_unit_get_filename(u)) + o(srcml_unit_get_version(u)) + o(srcml_unit_get_timestamp(u)) + o(srcml_unit_get_hash(u)) + o(srcml_unit_get_revision(u)); }
static Unit unit(srcml_unit* u) { Unit r; r.at = attrs(u); r.inner = unref(str(srcml_unit_get_srcml_inner(u))); r.loc = srcml_unit_get_loc(u); return r; }
static void same(const Unit& x, const Unit& y, const char* what) { bool ok = x.at == y.at && x.inner == y.inner && x.loc == y.loc; if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s\n%s\n%s\n%s\n%s\nloc %d %d\n", what, x.at.c_str(), y.at.c_str(), x.inner.c_str(), y.inner.c_str(), x.loc, y.loc); vf_assert(ok, what); }
// ---- channels
struct Out { std::string s; int closed; };
static int out_write(void* c, const char* b, int n) { ((Out*) c)->s.append(b, n); return n; }
static int out_close(void* c) { ++((Out*) c)->closed; return 0; }
struct In { const std::string* s; size_t p; std::vector<int> chunk; size_t k; int closed; };
static int in_read(void* c, char* b, int n) { In* f = (In*) c; size_t m = f->s->size() - f->p; if (m > (size_t) n) m = n; if (!f->chunk.empty()) { size_t q = f->chunk[f->k++ % f->chunk.size()]; if (m > q) m = q; } memcpy(b, f->s->data() + f->p, m); f->p += m; return (int) m; }
static int in_close(void* c) { ++((In*) c)->closed; return 0; }
static const char* const CH[] = { "memory", "filename", "FILE", "fd", "io" };
static void units(srcml_archive* a, const std::vector<Spec>& v, std::vector<Unit>* made) { for (size_t i = 0; i < v.size(); ++i) { srcml_unit* u = make(a, v[i]); vf_assert(srcml_archive_write_unit(a, u) == SRCML_STATUS_OK, "the unit is written"); if (made) made->push_back(unit(u)); srcml_unit_free(u); } }
static std::string write(srcml_archive* a, const std::vector<Spec>& v, int ch, std::vector<Unit>* made) {
    char* b = 0; size_t n = 0; Scratch f("out"); FILE* x = 0; int fd = -1; Out out; out.closed = 0; bool cl = false; std::string r; int st = 0;
    switch (ch) { case 0: st = srcml_archive_write_open_memory(a, &b, &n); break; case 1: st = srcml_archive_write_open_filename(a, f.f.c_str()); break; case 2: x = fopen(f.f.c_str(), "wb"); st = srcml_archive_write_open_FILE(a, x); break; case 3: fd = open(f.f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); st = srcml_archive_write_open_fd(a, fd); break; default: cl = vf_bool("close"); st = srcml_archive_write_open_io(a, &out, out_write, cl ? out_close : 0); }
    vf_assert(st == SRCML_STATUS_OK, "the archive is opened for writing"); units(a, v, made); srcml_archive_close(a);
    switch (ch) { case 0: r = std::string(b, n); srcml_memory_free(b); break; case 1: r = slurp(f.f); break; case 2: vf_assert(fclose(x) == 0, "a FILE of the caller stays open"); r = slurp(f.f); break; case 3: vf_assert(close(fd) == 0, "a descriptor of the caller stays open"); r = slurp(f.f); break; default: vf_assert(out.closed == (cl ? 1 : 0), "the close callback is called once"); r = out.s; }
    return r; }
struct Reader { srcml_archive* a; Scratch* f; FILE* x; In* in; size_t at; bool cl; const std::string* doc;
    Reader(srcml_archive* a, const std::string& d, int ch, const char* tag) : a(a), f(0), x(0), in(0), at(0), cl(false), doc(&d) { int st = 0; switch (ch) {
        case 0: st = srcml_archive_read_open_memory(a, d.data(), d.size()); break; case 1: f = new Scratch(tag); spit(f->f, d); st = srcml_archive_read_open_filename(a, f->f.c_str()); break; case 2: f = new Scratch(tag); spit(f->f, d); x = fopen(f->f.c_str(), "rb"); st = srcml_archive_read_open_FILE(a, x); break;
        case 3: f = new Scratch(tag); spit(f->f, d); st = srcml_archive_read_open_fd(a, open(f->f.c_str(), O_RDONLY)); break;
        default: in = new In; in->s = doc; in->p = 0; in->k = 0; in->closed = 0; static const int C[] = { 64, 65, 100, 127, 1000, 4096 }; for (int n = vf_irange("chunks", 0, 3); n; --n) in->chunk.push_back(PICK("chunk", C)); if (d.size() > 20000) in->chunk.clear(); cl = vf_bool("close"); st = srcml_archive_read_open_io(a, in, in_read, cl ? in_close : 0); }
        vf_assert(st == SRCML_STATUS_OK, "the archive is opened for reading"); }
    void close() { srcml_archive_close(a); if (x) { vf_assert(fclose(x) == 0, "a FILE of the caller stays open"); x = 0; } if (in) { vf_assert(in->closed == (cl ? 1 : 0), "the close callback is called once"); delete in; in = 0; } delete f; f = 0; } };
static std::set<std::string> spaces(const srcml_archive* a) { std::set<std::string> s; for (size_t i = 0; i < srcml_archive_get_namespace_size(a); ++i) s.insert(str(srcml_archive_get_namespace_prefix(a, i)) + "=" + str(srcml_archive_get_namespace_uri(a, i))); return s; }
static std::string archive_attrs(const srcml_archive* a, const Config& c, const char* version) {
    std::string r = o(srcml_archive_get_url(a)) + o(version) + o(srcml_archive_get_revision(a)) + o(srcml_archive_get_processing_instruction_target(a)) + o(srcml_archive_get_processing_instruction_data(a)); char b[80]; snprintf(b, sizeof b, " %llu", (unsigned long long) srcml_archive_get_options(a) & (OPT_TEXT_ELSE | OPT_IF0 | OPT_LINE)); r += b; if (c.opts & SRCML_OPTION_POSITION) { snprintf(b, sizeof b, " %d", (int) srcml_archive_get_tabstop(a)); r += b; }
    if (!c.solo) for (size_t i = 0; i < srcml_archive_get_macro_list_size(a); ++i) r += o(srcml_archive_get_macro_token(a, i)) + o(srcml_archive_get_macro_type(a, i)); return r; }
static void check_archive(srcml_archive* r, srcml_archive* w, const Config& c, const std::vector<Spec>& v) {
    // the root of a solitary document is the unit, and has its version
    std::string x = archive_attrs(w, c, c.solo ? v[0].hv ? v[0].version.c_str() : 0 : srcml_archive_get_version(w)), y = archive_attrs(r, c, srcml_archive_get_version(r));
    if (x != y && getenv("VF_STDERR")) fprintf(stderr, "written %s\nread    %s\n", x.c_str(), y.c_str()); vf_assert(x == y, "the archive has the attributes it was written with");
    for (size_t i = 0; i < c.ns.size(); ++i) { const char* u = srcml_archive_get_uri_from_prefix(r, c.ns[i].first.c_str()); bool used = c.ns[i].second != CPP; if (used) vf_assert(u && c.ns[i].second == u, "the archive has the namespaces it was written with"); } }
// reads or skips the next unit and checks it
static void step(Reader& r, const std::vector<Unit>& made, srcml_archive* copy, bool skips) {
    if (skips && pick("skip", 3) == 0) { int k = srcml_archive_skip_unit(r.a); vf_assert((k != 0) == (r.at < made.size()), "exactly the units of the archive can be skipped"); ++r.at; return; }
    srcml_unit* u = srcml_archive_read_unit(r.a); vf_assert((u != 0) == (r.at < made.size()), "exactly the units of the archive are read"); if (u) { same(made[r.at], unit(u), "a unit is read as it was written"); if (copy) vf_assert(srcml_archive_write_unit(copy, u) == SRCML_STATUS_OK, "a unit that was read can be written"); srcml_unit_free(u); } ++r.at; }
VF_NATIVE_HARNESS(archives) {
    Config c = config(); std::vector<Spec> v; for (int n = c.solo ? 1 : vf_irange("units", 1, 4); n; --n) v.push_back(unit_spec(c));
    srcml_archive* a = create(c); std::vector<Unit> made; int ch = pick("write", 5); std::string doc = write(a, v, ch, &made);
    { Node x; std::string err; if (c.enc != "UTF-16") { bool ok = xml(utf8doc(doc), x, &err); if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s\n%s\n", err.c_str(), doc.c_str()); vf_assert(ok, "the document is well-formed"); } }
    // reopened, through another channel
    if (vf_bool("again")) { std::string d = write(a, v, pick("write2", 5), 0); if (d != doc && getenv("VF_STDERR")) fprintf(stderr, "%s\n---\n%s\n", doc.c_str(), d.c_str()); vf_assert(d == doc, "the same units give the same document through every channel"); }
    srcml_archive* r = srcml_archive_create(); Reader rd(r, doc, pick("read", 5), "in"); check_archive(r, a, c, v);
    srcml_archive* r2 = 0; Reader* rd2 = 0; if (pick("two", 3) == 0) { r2 = srcml_archive_create(); rd2 = new Reader(r2, doc, pick("read2", 5), "in2"); check_archive(r2, a, c, v); }
    // a copy of what is read
    srcml_archive* k = 0; char* kb = 0; size_t kn = 0; bool skips = vf_bool("skips"); if (!skips && pick("copy", 3) == 0) { k = create(c); srcml_archive_write_open_memory(k, &kb, &kn); }
    size_t stop = pick("stop", 4) == 0 && !k ? vf_irange("at", 0, (int) made.size()) : made.size() + 2;
    while (rd.at < stop) { if (rd2 && rd2->at < stop && vf_bool("other")) step(*rd2, made, 0, true); else step(rd, made, k, skips); }
    rd.close(); if (rd2) { if (vf_bool("rest")) while (rd2->at < made.size() + 1) step(*rd2, made, 0, true); rd2->close(); srcml_archive_free(r2); delete rd2; }
    if (k) { srcml_archive_close(k); srcml_archive_free(k); std::string kd(kb, kn); srcml_memory_free(kb); srcml_archive* q = srcml_archive_create(); Reader kr(q, kd, pick("read3", 5), "in3"); check_archive(q, a, c, v); while (kr.at < made.size() + 1) step(kr, made, 0, false); kr.close(); srcml_archive_free(q); }
    // the archive that was read can be used to read again
    if (pick("reread", 3) == 0) { Reader z(r, doc, pick("read4", 5), "in4"); check_archive(r, a, c, v); while (z.at < made.size() + 1) step(z, made, 0, true); z.close(); }
    srcml_archive_free(r); srcml_archive_free(a); vf_reach("end");
}
// documents that were not written by libsrcml: any order of attributes, attributes that are empty, other attributes, and any layout
static std::string attr(const std::string& v, char q) { std::string r; for (size_t i = 0; i < v.size(); ++i) switch (v[i]) { case '<': r += "&lt;"; break; case '&': r += "&amp;"; break; case '\n': r += "&#10;"; break; case '\t': r += "&#9;"; break; case '"': r += q == '"' ? "&quot;" : "\""; break; case '\'': r += q == '\'' ? "&apos;" : "'"; break; default: r += v[i]; } return r; }
VF_NATIVE_HARNESS(documents) {
    static const char* const NAME[] = { "language", "filename", "version", "timestamp", "hash", "revision" }; static const char* const OTHER[] = { "url", "options", "tabs", "dir", "item", "src-encoding", "languages" };
    static const char* const BODY[] = { "", "\n", "a", "<expr_stmt><expr><name>a</name></expr>;</expr_stmt>\n", "<comment type=\"block\">/* &lt;unit&gt; */</comment>", "<name>unit</name>", "&amp;&lt;", "<empty_stmt>;</empty_stmt>\n\n", "<escape char=\"0x1\"/>" };
    static const char* const GAP[] = { "\n\n", "", "\n", " ", "\t\n" }; last = "a";
    std::string d = vf_bool("decl") ? "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n" : ""; std::string rat[3]; static const char* const RN[] = { "url", "version", "revision" };
    bool has[3]; std::string root; for (int i = 0; i < 3; ++i) if ((has[i] = vf_bool("has"))) { rat[i] = value("root"); char q = vf_bool("quote") ? '"' : '\''; root += std::string(" ") + RN[i] + "=" + q + attr(rat[i], q) + q; }
    d += "<unit xmlns=\"" + std::string(SRC) + "\"" + root + ">" + PICK("gap", GAP); struct U { std::string at, rev, inner; }; std::vector<U> made; std::string gap = PICK("gap", GAP);
    for (int n = vf_irange("units", 1, 5); n; --n) {
        std::vector<std::string> at; std::string v[6]; bool h[6]; for (int i = 0; i < 6; ++i) { h[i] = i == 0 || vf_bool("attribute"); if (!h[i]) continue; v[i] = i == 0 ? std::string(PICK("lang", LANGS)) : value(NAME[i]); char q = vf_bool("quote") ? '"' : '\''; at.push_back(std::string(NAME[i]) + "=" + q + attr(v[i], q) + q); }
        std::set<std::string> names; for (int m = vf_irange("others", 0, 2); m; --m) { std::string n = PICK("other", OTHER); if (names.insert(n).second) at.push_back(n + "=\"" + attr(value("ov"), '"') + "\""); }
        for (size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[pick("order", (int) i)]);
        std::string e = "<unit"; for (size_t i = 0; i < at.size(); ++i) e += std::string(vf_bool("nl") ? "\n" : " ") + at[i]; U u; for (int m = vf_irange("body", 0, 2); m; --m) u.inner += PICK("part", BODY);
        e += u.inner.empty() && vf_bool("short") ? "/>" : ">" + u.inner + "</unit>"; for (int i = 0; i < 5; ++i) u.at += h[i] ? "[" + v[i] + "]" : "-"; u.rev = h[5] ? "[" + v[5] + "]" : o(srcml_version_string()); made.push_back(u); d += e + gap; }
    d += "</unit>"; if (vf_bool("end")) d += "\n"; if (getenv("VF_STDERR")) fprintf(stderr, "%s\n", d.c_str());
    srcml_archive* k = srcml_archive_create(); srcml_archive* r = srcml_archive_create(); Reader rd(r, d, pick("read", 5), "in"); std::string w; for (int i = 0; i < 3; ++i) w += has[i] ? "[" + rat[i] + "]" : o(i == 0 ? srcml_archive_get_url(k) : i == 1 ? srcml_archive_get_version(k) : srcml_archive_get_revision(k)); std::string g = o(srcml_archive_get_url(r)) + o(srcml_archive_get_version(r)) + o(srcml_archive_get_revision(r)); if (g != w && getenv("VF_STDERR")) fprintf(stderr, "\n%s\n%s\n", g.c_str(), w.c_str()); vf_assert(g == w, "the archive has the attributes of its root");
    char* kb = 0; size_t kn = 0; srcml_archive_disable_hash(k); srcml_archive_write_open_memory(k, &kb, &kn); bool skips = vf_bool("skips"); std::vector<size_t> kept;
    for (size_t i = 0; i < made.size() + 1; ++i) { if (skips && pick("skip", 3) == 0) { vf_assert((srcml_archive_skip_unit(r) != 0) == (i < made.size()), "exactly the units of the document can be skipped"); continue; }
        srcml_unit* u = srcml_archive_read_unit(r); vf_assert((u != 0) == (i < made.size()), "exactly the units of the document are read"); if (!u) continue;
        if (attrs(u) != made[i].at + made[i].rev && getenv("VF_STDERR")) fprintf(stderr, "\n%s\n%s\n", attrs(u).c_str(), made[i].at.c_str()); vf_assert(attrs(u) == made[i].at + made[i].rev, "a unit has the attributes in the document"); vf_assert(unref(str(srcml_unit_get_srcml_inner(u))) == unref(made[i].inner), "a unit has the contents in the document"); if (vf_bool("write")) { vf_assert(srcml_archive_write_unit(k, u) == SRCML_STATUS_OK, "a unit that was read can be written"); kept.push_back(i); } srcml_unit_free(u); }
    rd.close(); srcml_archive_free(r); srcml_archive_close(k); srcml_archive_free(k); std::string kd(kb, kn); srcml_memory_free(kb); { Node x; std::string err; bool ok = xml(utf8doc(kd), x, &err); if (!ok && getenv("VF_STDERR")) fprintf(stderr, "%s\n%s\n", err.c_str(), kd.c_str()); vf_assert(ok, "the document that is written is well-formed"); }
    /* an archive without units reads like an empty unit */ if (kept.empty()) { vf_reach("end"); return; } srcml_archive* q = srcml_archive_create(); Reader kr(q, kd, pick("read2", 5), "in2"); for (size_t i = 0; i < kept.size() + 1; ++i) { srcml_unit* u = srcml_archive_read_unit(q); vf_assert((u != 0) == (i < kept.size()), "exactly the units that were written are read"); if (!u) continue; vf_assert(attrs(u) == made[kept[i]].at + made[kept[i]].rev && unref(str(srcml_unit_get_srcml_inner(u))) == unref(made[kept[i]].inner), "a unit is read as it was written"); srcml_unit_free(u); }
    kr.close(); srcml_archive_free(q); vf_reach("end");
}
#endif
