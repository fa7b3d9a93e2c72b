// P12: unparsing, over the contracts of the reader, of the extraction of the source, and of libxml2's output buffers.
#include "api.h"
#ifndef VF_NATIVE
#include <new>
template<class T> static void none(boost::optional<T>* o) { new (o) boost::optional<T>(); }
static void any(const char* name, std::string& s, size_t max) { s = vf_cstr(name); vf_assume(s.size() < max); }
enum { FILENAME = 1, MEMORY, FILEP, FD, IO };
struct Ghost { xmlOutputBuffer* ob; int ob_open, writes; xmlBuffer* xb; int xb_open, detached; void* handler; int handlers; int what, fd; const void* arg; void *wcb, *ccb; size_t n; char* content; };
static Ghost G; static srcml_unit* g_unit; static std::string *g_src, *g_out; static bool g_fails; static int g_bodies, g_extracts;
// contract of srcml_sax2_reader::read_body: the unit is complete afterwards
extern "C" int vgs_read_body(srcml_sax2_reader* r, srcml_unit* u) { vf_assert((u == g_unit) & (r == u->archive->reader), "the body of this unit is read"); ++g_bodies; new (&u->src) boost::optional<std::string>(*g_src); u->read_body = true; return 1; }
// contract of extract_src: the source of the markup
extern "C" std::string vgs_extract_src(const std::string& srcml, boost::optional<int> revision) { vf_assert(&srcml == &g_unit->srcml, "the source is that of the unit"); ++g_extracts; return *g_src; }
extern "C" void* vgs_handler(const char* name) { vf_assert(vf_streq(name, g_unit->encoding ? g_unit->encoding->c_str() : g_unit->archive->src_encoding ? g_unit->archive->src_encoding->c_str() : "ISO-8859-1"), "the encoding is the unit's, or else the archive's, or else ISO-8859-1"); ++G.handlers; return G.handler; }
static xmlOutputBuffer* new_ob(int what, const void* arg, void* handler) { vf_assert(G.ob_open == 0, "one output is opened"); vf_assert((handler == G.handler) & (G.handlers == 1), "the output is converted to the encoding"); G.ob_open = 1; G.what = what; G.arg = arg; return G.ob = (xmlOutputBuffer*) vf_object("ob", sizeof(xmlOutputBuffer)); }
extern "C" xmlBuffer* vgs_xmlBufferCreate() { vf_assert(G.xb_open == 0, "one buffer is opened"); G.xb_open = 1; return G.xb = (xmlBuffer*) vf_object("xb", sizeof(xmlBuffer)); }
extern "C" xmlOutputBuffer* vgs_ob_buffer(xmlBuffer* b, void* h) { vf_assert((b != 0) & (b == G.xb), "the output goes to the buffer"); return new_ob(MEMORY, b, h); }
extern "C" xmlOutputBuffer* vgs_ob_filename(const char* f, void* h, int compress) { vf_assert(compress == 0, "the source is not compressed"); if (g_fails) return 0; return new_ob(FILENAME, f, h); }
extern "C" xmlOutputBuffer* vgs_ob_file(FILE* f, void* h) { return new_ob(FILEP, f, h); }
extern "C" xmlOutputBuffer* vgs_ob_fd(int fd, void* h) { G.fd = fd; return new_ob(FD, 0, h); }
extern "C" xmlOutputBuffer* vgs_ob_io(void* w, void* c, void* ctx, void* h) { G.wcb = w; G.ccb = c; return new_ob(IO, ctx, h); }
extern "C" int vgs_ob_write(xmlOutputBuffer* b, int n, const char* s) { vf_assert((b == G.ob) & (G.ob_open == 1), "the output that was opened is written"); vf_assert(n >= 0, "the length is that of the text"); g_out->append(s, (size_t) n); ++G.writes; return n; }
extern "C" int vgs_ob_close(xmlOutputBuffer* b) { vf_assert((b == G.ob) & (G.ob_open == 1), "the output that is open is closed, once"); G.ob_open = 2; return 0; }
extern "C" int vgs_length(const xmlBuffer* b) { vf_assert((b == G.xb) & (G.xb_open == 1) & (G.detached == 0), "the length is that of the buffer"); vf_assert(G.ob_open == 2, "the output is complete before its length is taken"); return (int) G.n; }
extern "C" char* vgs_detach(xmlBuffer* b) { vf_assert((b == G.xb) & (G.xb_open == 1) & (G.detached == 0), "the buffer is handed over, once"); vf_assert(G.ob_open == 2, "the output is complete before it is handed over"); G.detached = 1; return G.content; }
extern "C" void vgs_xmlBufferFree(xmlBuffer* b) { vf_assert((b == G.xb) & (G.xb_open == 1), "the buffer is freed once"); vf_assert(G.ob_open == 2, "the output to a buffer is closed before the buffer is freed"); G.xb_open = 2; }
extern "C" bool vg_eol_is(const std::string* out, const std::string* src);    // out is src with every line feed replaced by the line end chosen
extern "C" void vg_eol(int kind);
static bool reads(srcml_unit* u) { int t = u->archive->type; return (t == SRCML_ARCHIVE_READ) | (t == SRCML_ARCHIVE_RW); }
// a unit in any state, whose source is *g_src: read (with its source), parsed (only the markup), or only its header read
static srcml_unit* unit(int eol, bool enc = false) {
    srcml_unit* u = g_unit = arb_unit(); G.ob_open = G.writes = G.xb_open = G.detached = G.handlers = G.what = 0; G.ob = 0; G.xb = 0; G.handler = vf_object("handler", 8); G.n = vf_size("size", 0, 1u << 30); G.content = (char*) vf_object("text", 8); g_bodies = g_extracts = 0;
    g_src = new std::string; any("source", *g_src, 1u << 28); g_out = new std::string; g_fails = false; u->eol = eol; vg_eol(eol); none(&u->archive->revision_number);
    u->read_header = vf_bool("header"); u->read_body = vf_bool("body"); none(&u->src); if (!enc) { none(&u->encoding); none(&u->archive->src_encoding); } return u; }
static bool same_source(srcml_unit* u) { vf_str_save(5, g_src->c_str()); return vf_str_same(5, u->src ? u->src->c_str() : 0); }
static int unparse(srcml_unit* u, int ch, char** b, size_t* n) {
    const char* name = vf_cstr("name"); FILE* f = (FILE*) vf_object("file", 8); int fd = vf_irange("fd", 0, 1 << 20); void* ctx = vf_object("context", 8); int (*w)(void*, const char*, int) = (int (*)(void*, const char*, int)) vf_object("wcb", 1); int (*c)(void*) = vf_bool("close") ? (int (*)(void*)) vf_object("ccb", 1) : 0; int r = 0;
    switch (ch) { case FILENAME: r = srcml_unit_unparse_filename(u, name); break; case MEMORY: r = srcml_unit_unparse_memory(u, b, n); break; case FILEP: r = srcml_unit_unparse_FILE(u, f); break; case FD: r = srcml_unit_unparse_fd(u, fd); break; default: r = srcml_unit_unparse_io(u, ctx, w, c); }
    if (r || !G.what) return r;
    vf_assert(G.what == ch, "the output is the one that was asked for"); if (ch == FILENAME) vf_assert(G.arg == name, "the file that was named is written"); if (ch == FILEP) vf_assert(G.arg == f, "the FILE that was given is written"); if (ch == FD) vf_assert(G.fd == fd, "the descriptor that was given is written"); if (ch == IO) vf_assert((G.arg == ctx) & (G.wcb == (void*) w) & (G.ccb == (void*) c), "the callbacks that were given are used"); return r; }
enum { HEADER, PARSED, READ };
static void one(int eol, int ch, int how, bool enc = false) {
    srcml_unit* u = unit(eol, enc); u->archive->type = vf_bool("rw") ? SRCML_ARCHIVE_RW : SRCML_ARCHIVE_READ; u->read_body = how != HEADER; u->read_header = true; bool body = u->read_body; if (how == READ) new (&u->src) boost::optional<std::string>(*g_src); bool had = how == READ;
    char* b = 0; size_t n = 0; g_fails = (ch == FILENAME) & vf_bool("fails"); int r = unparse(u, ch, &b, &n);
    vf_assert(r == (g_fails ? SRCML_STATUS_IO_ERROR : SRCML_STATUS_OK), "the unit is unparsed, or an output that cannot be opened is reported"); if (r) { vf_assert((G.writes == 0) & (G.ob_open == 0), "nothing is written to an output that cannot be opened"); return; }
    vf_assert((G.ob_open == 2) & (G.writes == 1), "the output is written and closed"); vf_assert(g_bodies == (int) !body, "the body is read when it is needed, once"); vf_assert(g_extracts == (int) (body & !had), "the source is extracted when it was not read");
    vf_assert(vg_eol_is(g_out, g_src), "the source is written, all and only it, with the line ends of the unit"); vf_assert(same_source(u), "the source of the unit is kept");
    if (ch == MEMORY) vf_assert((b == G.content) & (n == G.n) & (G.xb_open == 2) & (G.detached == 1), "the caller gets the whole output"); vf_reach("end"); }
VF_HARNESS(read_memory_auto) { one(SOURCE_OUTPUT_EOL_AUTO, MEMORY, READ); }
VF_HARNESS(read_filename_auto) { one(SOURCE_OUTPUT_EOL_AUTO, FILENAME, READ); }
VF_HARNESS(read_filep_auto) { one(SOURCE_OUTPUT_EOL_AUTO, FILEP, READ); }
VF_HARNESS(read_fd_auto) { one(SOURCE_OUTPUT_EOL_AUTO, FD, READ); }
VF_HARNESS(read_io_auto) { one(SOURCE_OUTPUT_EOL_AUTO, IO, READ); }
VF_HARNESS(parsed_memory_auto) { one(SOURCE_OUTPUT_EOL_AUTO, MEMORY, PARSED); }
VF_HARNESS(header_filename_auto) { one(SOURCE_OUTPUT_EOL_AUTO, FILENAME, HEADER); }
VF_HARNESS(read_memory_lf) { one(SOURCE_OUTPUT_EOL_LF, MEMORY, READ); }
VF_HARNESS(parsed_io_lf) { one(SOURCE_OUTPUT_EOL_LF, IO, PARSED); }
VF_HARNESS(header_fd_lf) { one(SOURCE_OUTPUT_EOL_LF, FD, HEADER); }
VF_HARNESS(read_memory_cr) { one(SOURCE_OUTPUT_EOL_CR, MEMORY, READ); }
VF_HARNESS(parsed_io_cr) { one(SOURCE_OUTPUT_EOL_CR, IO, PARSED); }
VF_HARNESS(header_fd_cr) { one(SOURCE_OUTPUT_EOL_CR, FD, HEADER); }
VF_HARNESS(read_memory_crlf) { one(SOURCE_OUTPUT_EOL_CRLF, MEMORY, READ); }
VF_HARNESS(parsed_io_crlf) { one(SOURCE_OUTPUT_EOL_CRLF, IO, PARSED); }
VF_HARNESS(header_fd_crlf) { one(SOURCE_OUTPUT_EOL_CRLF, FD, HEADER); }
VF_HARNESS(encodings) { one(SOURCE_OUTPUT_EOL_AUTO, FD, READ, true); }
VF_HARNESS(refused) {
    int ch = vf_irange("channel", FILENAME, IO); srcml_unit* u = unit(SOURCE_OUTPUT_EOL_AUTO); bool can = reads(u); vf_assume(!can | (!u->read_body & !u->read_header)); char* b = 0; size_t n = 0; int r = unparse(u, ch, &b, &n);
    vf_assert(r == (can ? SRCML_STATUS_UNINITIALIZED_UNIT : SRCML_STATUS_INVALID_IO_OPERATION), "only a unit with contents, of an archive that is open for reading, is unparsed"); vf_assert((G.writes == 0) & (G.ob_open == 0) & (b == 0) & (n == 0), "nothing is written when a unit is not unparsed"); vf_reach("end"); }
// unparsed again, with other line ends: from the same source
VF_HARNESS(again) {
    srcml_unit* u = unit(SOURCE_OUTPUT_EOL_AUTO); vf_assume(reads(u)); u->read_body = u->read_header = true; none(&u->encoding); none(&u->archive->src_encoding); char* b = 0; size_t n = 0; srcml_unit_unparse_io(u, vf_object("context", 8), (int (*)(void*, const char*, int)) vf_object("wcb", 1), 0); vf_assert(vg_eol_is(g_out, g_src), "the source is written");
    G.ob_open = 0; G.handlers = 0; g_out = new std::string; srcml_unit_set_eol(u, SOURCE_OUTPUT_EOL_CRLF); vg_eol(SOURCE_OUTPUT_EOL_CRLF); vf_assert(srcml_unit_unparse_io(u, vf_object("context", 8), (int (*)(void*, const char*, int)) vf_object("wcb", 1), 0) == SRCML_STATUS_OK, "a unit is unparsed again"); vf_assert(vg_eol_is(g_out, g_src), "the same source is written again"); vf_assert(g_extracts == 1, "the source is extracted once"); vf_reach("end");
}
#endif
