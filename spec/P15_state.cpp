// P15: reading, skipping, writing and closing an archive, over the contracts of the reader and of the translator.
#include "api.h"
#ifndef VF_NATIVE
#include <srcml_sax2_reader.hpp>
#include <srcml_reader_handler.hpp>
#include <new>
template<class T> static void none(boost::optional<T>* o) { new (o) boost::optional<T>(); }
// contract of the reader: a document with units g_at .. g_n-1 to come
static srcml_archive* g_a; static size_t g_at, g_n; static int g_headers, g_bodies, g_added; static srcml_unit* g_newu; static const srcml_unit* g_last; static srcml_unit* g_cur;
extern "C" srcml_unit* vgs_unit_create(srcml_archive* a) { vf_assert(a == g_a, "a unit of this archive is created"); g_newu = (srcml_unit*) vf_object("newunit", sizeof(srcml_unit)); g_newu->archive = a; g_newu->read_body = false; g_newu->read_header = false; g_newu->output_buffer = 0; g_newu->unit_translator = 0; return g_newu; }
static int g_freed; extern "C" void vgs_unit_free(srcml_unit* u) { vf_assert((u == g_newu) & (g_freed == 0), "only the unit that was created is freed, once"); ++g_freed; }
extern "C" int vgs_read_header(srcml_sax2_reader* r, srcml_unit* u) { vf_assert((r == g_a->reader) & (u != 0), "the reader of this archive is used"); ++g_headers; if (g_at >= g_n) return 0; ++g_at; g_cur = u; u->read_header = true; return 1; }
extern "C" int vgs_read_body(srcml_sax2_reader* r, srcml_unit* u) { vf_assert((u != 0) & (r == u->archive->reader), "the reader of the unit's archive is used"); ++g_bodies; if (u != g_cur) return 0; g_cur = 0; u->read_body = true; return 1; }
extern "C" bool vgs_add_unit(srcml_translator* t, const srcml_unit* u) { vf_assert(t == g_a->translator, "the translator of this archive is used"); ++g_added; g_last = u; return true; }
static bool readable(int t) { return (t == SRCML_ARCHIVE_READ) | (t == SRCML_ARCHIVE_RW); }
static srcml_archive* reading() { srcml_archive* a = g_a = arb_archive(); g_n = vf_size("units", 0, 1u << 20); g_at = vf_size("at", 0, 1u << 20); vf_assume(g_at <= g_n); g_headers = g_bodies = g_added = 0; g_cur = 0; g_newu = 0; g_last = 0; g_freed = 0; return a; }
VF_HARNESS(read_unit) {
    srcml_archive* a = reading(); size_t at = g_at; bool more = at < g_n, can = readable(a->type); int type = a->type;
    srcml_unit* u = srcml_archive_read_unit(a);
    vf_assert((u != 0) == (can & more), "a unit is read exactly when one is left");
    vf_assert(g_at == at + (size_t) (can & more), "the next unit is read, and only it");
    vf_assert((g_newu == 0) | ((g_freed != 0) == (u == 0)), "a unit that is returned is kept, and no other"); if (u) { vf_assert((u->archive == a) & u->read_header & u->read_body, "the unit that is read is complete"); vf_assert((g_headers == 1) & (g_bodies == 1), "each part of the unit is read once"); }
    if (!can) vf_assert((g_headers == 0) & (g_bodies == 0), "nothing is read from an archive that is not open for reading");
    vf_assert(a->type == type, "reading does not change how the archive is open"); vf_reach("end");
}
VF_HARNESS(skip_unit) {
    srcml_archive* a = reading(); size_t at = g_at; bool more = at < g_n, can = readable(a->type);
    int k = srcml_archive_skip_unit(a);
    vf_assert((k != 0) == (can & more), "a unit is skipped exactly when one is left");
    vf_assert(g_at == at + (size_t) (can & more), "the next unit is skipped, and only it"); vf_assert(g_bodies == 0, "the body of a unit that is skipped is not collected"); vf_assert((g_newu == 0) | (g_freed == 1), "nothing of a unit that is skipped is kept"); vf_reach("end");
}
VF_HARNESS(null_archive) { vf_assert(srcml_archive_read_unit(0) == 0, "no unit of no archive"); vf_assert(srcml_archive_skip_unit(0) == 0, "no unit of no archive"); srcml_archive_close(0); vf_reach("end"); }
// an archive that is open for writing gets exactly the unit
VF_HARNESS(write_unit) {
    srcml_archive* a = reading(); srcml_unit* u = arb_unit(); u->read_header = vf_bool("header"); u->read_body = vf_bool("body"); vf_assume(u->read_header | !u->read_body); vf_assume(u->archive != a); vf_assume(a->translator != 0); if (vf_bool("at")) g_cur = u;
    bool body = u->read_body, header = u->read_header, can = readable(u->archive->type), w = (a->type == SRCML_ARCHIVE_WRITE) | (a->type == SRCML_ARCHIVE_RW), has = body | (header & can & (g_cur == u));
    int r = srcml_archive_write_unit(a, u);
    if (!has) vf_assert(r == SRCML_STATUS_UNINITIALIZED_UNIT, "a unit without contents is not written"); else if (!w) vf_assert(r == SRCML_STATUS_INVALID_IO_OPERATION, "an archive that is not open for writing gets no unit"); else vf_assert(r == SRCML_STATUS_OK, "the unit is written");
    vf_assert(g_added == (int) (has & w), "the unit is written once, or not at all"); if (g_added) vf_assert(g_last == u, "the unit that is given is written"); vf_reach("end");
}

// ---- opening and closing: the contracts of libxml2, of the reader and of the translator, with ghost resources
struct Ghost { xmlOutputBuffer* ob; int ob_open; xmlBuffer* xb; int xb_open, detached; srcml_translator* tr; int tr_open, tr_closed; srcml_sax2_reader* rd; int rd_open; xmlParserInputBuffer* in; size_t use; char* content; int what; const void* arg; int fd; void* wcb; void* ccb; }; static Ghost G;
static void reset() { G.ob = 0; G.xb = 0; G.tr = 0; G.rd = 0; G.in = 0; G.ob_open = G.xb_open = G.detached = G.tr_open = G.tr_closed = G.rd_open = G.what = G.fd = 0; G.use = 0; G.content = 0; G.arg = G.wcb = G.ccb = 0; }
static xmlOutputBuffer* new_ob(int what, const void* arg) { vf_assert(G.ob_open == 0, "one output is opened"); G.ob_open = 1; G.what = what; G.arg = arg; return G.ob = (xmlOutputBuffer*) vf_object("ob", sizeof(xmlOutputBuffer)); }
enum { FILENAME = 1, MEMORY, FILEP, FD, IO };
extern "C" xmlBuffer* vgs_xmlBufferCreate() { vf_assert(G.xb_open == 0, "one buffer is opened"); G.xb_open = 1; return G.xb = (xmlBuffer*) vf_object("xb", sizeof(xmlBuffer)); }
extern "C" xmlOutputBuffer* vgs_ob_buffer(xmlBuffer* b, void*) { vf_assert((b != 0) & (b == G.xb), "the output goes to the buffer of the archive"); return new_ob(MEMORY, b); }
static bool g_fails;
extern "C" xmlOutputBuffer* vgs_ob_filename(const char* f, void* enc, int compress) { vf_assert((enc == 0) & (compress == 0), "the output is neither converted nor compressed here"); if (g_fails) return 0; return new_ob(FILENAME, f); }
extern "C" xmlOutputBuffer* vgs_ob_file(FILE* f, void* enc) { vf_assert(enc == 0, "the output is not converted here"); return new_ob(FILEP, f); }
extern "C" xmlOutputBuffer* vgs_ob_fd(int fd, void* enc) { vf_assert(enc == 0, "the output is not converted here"); G.fd = fd; return new_ob(FD, 0); }
extern "C" xmlOutputBuffer* vgs_ob_io(void* w, void* c, void* ctx, void* enc) { vf_assert(enc == 0, "the output is not converted here"); G.wcb = w; G.ccb = c; return new_ob(IO, ctx); }
extern "C" int vgs_ob_close(xmlOutputBuffer* b) { vf_assert((b == G.ob) & (G.ob_open == 1), "the output that is open is closed, once"); G.ob_open = 0; return 0; }
extern "C" char* vgs_detach(xmlBuffer* b) { vf_assert((b == G.xb) & (G.xb_open == 1) & (G.detached == 0), "the buffer of the archive is handed over, once"); vf_assert(G.ob_open == 0, "the output is complete before it is handed over"); G.detached = 1; b->use = 0; b->content = 0; return G.content; }
extern "C" void vgs_xmlBufferFree(xmlBuffer* b) { vf_assert((b == G.xb) & (G.xb_open == 1), "the buffer is freed once"); vf_assert(G.ob_open == 0, "the output to a buffer is closed before the buffer is freed"); G.xb_open = 0; }
static int g_language; extern "C" int vgs_check_language(const char* l) { vf_assert(vf_streq(l, g_a->language ? g_a->language->c_str() : 0), "the language is the archive's"); return g_language; }
extern "C" void vgs_tr_new(srcml_translator* t, xmlOutputBuffer* ob, const char* enc, OPTION_TYPE* op, const void* ns, void*, size_t tab, int language, const char* rev, const char* url, const char* file, const char* version, const void* attributes, const char* stamp, const char* hash, const char* senc) {
    vf_assert(G.tr_open == 0, "one translator is created"); G.tr_open = 1; G.tr = t;
    vf_assert((ob == g_a->output_buffer) & (op == &g_a->options) & (ns == &g_a->namespaces) & (tab == g_a->tabstop) & (attributes == &g_a->attributes), "the translator writes to the output of the archive, with its options, namespaces, tab stop and attributes");
    vf_assert(vf_streq(enc, g_a->encoding ? g_a->encoding->c_str() : "UTF-8"), "the document has the encoding of the archive"); vf_assert(vf_streq(rev, g_a->revision ? g_a->revision->c_str() : 0) & vf_streq(url, g_a->url ? g_a->url->c_str() : 0) & vf_streq(version, g_a->version ? g_a->version->c_str() : 0), "the root has the revision, the url and the version of the archive");
    vf_assert((language == g_language) & (file == 0) & (stamp == 0) & (hash == 0) & (senc == 0), "the root has nothing of a unit"); }
static int g_macros;
extern "C" void vgs_macros(srcml_translator* t, const void* l) { vf_assert((t == G.tr) & (l == &g_a->user_macro_list), "the root has the macros of the archive"); ++g_macros; }
extern "C" void vgs_tr_close(srcml_translator* t) { vf_assert((t == G.tr) & (G.tr_open == 1) & (G.tr_closed == 0) & (G.ob_open == 1), "the document is ended once"); G.tr_closed = 1; G.ob_open = 0; if (G.xb) G.xb->use = (unsigned) G.use; }
extern "C" void vgs_tr_delete(srcml_translator* t) { vf_assert((t == G.tr) & (G.tr_open == 1), "the translator is freed once"); G.tr_open = 0; }
extern "C" void vgs_rd_delete(srcml_sax2_reader* r) { vf_assert((r == G.rd) & (G.rd_open == 1), "the reader is freed once"); G.rd_open = 0; }
extern "C" void vgs_free(void*) { }
// the state of a closed archive
static bool closed(srcml_archive* a) { return (a->type == SRCML_ARCHIVE_INVALID) & (a->translator == 0) & (a->reader == 0) & (a->output_buffer == 0) & (a->xbuffer == 0) & (a->buffer == 0) & (a->size == 0) & !a->rawwrites; }
static srcml_archive* fresh() { reset(); g_macros = 0; g_language = vf_int("language"); g_added = 0; g_last = 0; srcml_archive* a = g_a = arb_archive(); a->type = SRCML_ARCHIVE_INVALID; a->translator = 0; a->reader = 0; a->output_buffer = 0; a->xbuffer = 0; a->buffer = 0; a->size = 0; a->rawwrites = false; return a; }
static void plain(srcml_archive* a) { none(&a->encoding); none(&a->revision); none(&a->url); none(&a->version); none(&a->language); }
static bool writing(srcml_archive* a) { return (a->type == SRCML_ARCHIVE_WRITE) & (a->translator == 0) & (a->reader == 0) & (a->output_buffer != 0) & (a->output_buffer == G.ob) & !a->rawwrites; }
static char* g_out; static size_t g_outn;
// opens an arbitrary channel and checks that exactly it is the output
static int open_write(srcml_archive* a) {
    int ch = vf_irange("channel", FILENAME, IO); g_fails = vf_bool("fails") & (ch == FILENAME); const char* name = vf_cstr("name"); FILE* f = (FILE*) vf_object("file", 8); int fd = vf_irange("fd", 0, 1 << 20); void* ctx = vf_object("context", 8); static int (*cb)(void*, const char*, int) = (int (*)(void*, const char*, int)) vf_object; static int (*cc)(void*) = (int (*)(void*)) vf_symbolic; bool c = vf_bool("close"); int r;
    switch (ch) { case FILENAME: r = srcml_archive_write_open_filename(a, name); break; case MEMORY: r = srcml_archive_write_open_memory(a, &g_out, &g_outn); break; case FILEP: r = srcml_archive_write_open_FILE(a, f); break; case FD: r = srcml_archive_write_open_fd(a, fd); break; default: r = srcml_archive_write_open_io(a, ctx, cb, c ? cc : 0); }
    vf_assert(r == (g_fails ? SRCML_STATUS_IO_ERROR : SRCML_STATUS_OK), "the archive is opened"); if (r) return r;
    vf_assert(G.what == ch, "the output is the channel that was opened"); if (ch == FILENAME) vf_assert(G.arg == name, "the file that was named is written"); if (ch == FILEP) vf_assert(G.arg == f, "the FILE that was given is written"); if (ch == FD) vf_assert(G.fd == fd, "the descriptor that was given is written"); if (ch == IO) vf_assert((G.arg == ctx) & (G.wcb == (void*) cb) & (G.ccb == (void*) (c ? cc : 0)), "the callbacks that were given are used");
    vf_assert(writing(a), "the archive is open for writing"); bool mem = ch == MEMORY; vf_assert(((a->buffer != 0) == mem) & ((a->size != 0) == mem) & ((a->xbuffer != 0) == mem), "only a memory archive has a buffer"); return r; }
// the root element and the document have what was set for the archive
VF_HARNESS(first_unit) {
    srcml_archive* a = fresh(); a->type = SRCML_ARCHIVE_WRITE; a->output_buffer = new_ob(FILENAME, 0); g_out = 0; srcml_unit* u = arb_unit(); u->read_header = u->read_body = true;
    vf_assert(srcml_archive_write_unit(a, u) == SRCML_STATUS_OK, "a unit is written"); vf_assert((a->translator != 0) & (a->translator == G.tr) & (g_added == 1) & (g_last == u) & (g_macros == 1), "the unit is written to this archive"); vf_reach("end");
}
VF_HARNESS(open_write_close) {
    srcml_archive* a = fresh(); plain(a); char* before = (char*) vf_object("old", 1); g_out = before; g_outn = 77; G.use = vf_size("use", 0, 1u << 30); G.content = (char*) vf_object("text", 1);
    int r = open_write(a); bool mem = a->buffer != 0;
    if (!r & vf_bool("unit")) { srcml_unit* u = arb_unit(); u->read_header = u->read_body = true; vf_assert(srcml_archive_write_unit(a, u) == SRCML_STATUS_OK, "a unit is written"); vf_assert((a->translator != 0) & (a->translator == G.tr) & (g_added == 1) & (g_last == u), "the unit is written to this archive"); srcml_unit* v = arb_unit(); v->read_header = v->read_body = true; vf_assert(srcml_archive_write_unit(a, v) == SRCML_STATUS_OK, "a unit is written"); vf_assert((a->translator == G.tr) & (g_added == 2) & (g_last == v), "a second unit is written to the same document"); }
    if (r) { srcml_archive_close(a); vf_reach("failed"); vf_assert(closed(a), "an archive that could not be opened is closed"); return; }
    srcml_archive_close(a);
    vf_assert(closed(a), "a closed archive can be opened again"); vf_assert((G.tr_closed == 1) & (g_macros == 1), "exactly one document is written, with the macros of the archive");
    vf_assert((G.ob_open == 0) & (G.xb_open == 0) & (G.tr_open == 0), "nothing stays open");
    if (mem) vf_assert((g_out == G.content) & (g_outn == G.use), "the document and its size are handed over"); else vf_assert((g_out == before) & (g_outn == 77), "no buffer is handed over");
    srcml_archive_close(a); vf_assert(closed(a), "closing twice is harmless"); vf_reach("end");
}
VF_HARNESS(close_reader) {
    srcml_archive* a = fresh(); a->type = SRCML_ARCHIVE_READ; G.rd = a->reader = (srcml_sax2_reader*) vf_object("reader", sizeof(srcml_sax2_reader)); G.rd_open = 1;
    srcml_archive_close(a); vf_assert(closed(a) & (G.rd_open == 0) & (G.ob_open == 0) & (G.tr_closed == 0), "a closed archive can be opened again"); vf_reach("end");
}
#endif
#ifndef VF_NATIVE
// ---- the reader's side of reading a header or a body; the parser's side, between resume and wait, is the contract of resume_and_wait
static srcml_sax2_reader* g_r; static srcml_unit* g_ru; static bool g_wantbody; static int g_resumed;
extern "C" void vgs_resume_and_wait(srcml_reader_handler* h) {
    vf_assert(h == &g_r->handler, "the parser of this reader goes on"); vf_assert(!h->is_done, "a parser that is done is not waited for"); vf_assert(h->unit == g_ru, "the parser reads into this unit"); vf_assert((h->collect_unit_body == g_wantbody) & (h->collect_unit_header == !g_wantbody), "the parser stops where it is asked to"); ++g_resumed; h->is_done = vf_bool("done"); }
static void reader(bool body) { g_r = (srcml_sax2_reader*) vf_object("reader", sizeof(srcml_sax2_reader)); g_ru = arb_unit(); g_ru->read_header = body; g_ru->read_body = false; g_wantbody = body; g_resumed = 0; if (body) g_r->handler.collect_unit_header = false; }
VF_HARNESS(reader_header) { reader(false); bool done = g_r->handler.is_done; int r = g_r->read_header(g_ru); vf_assert((r != 0) == !g_r->handler.is_done, "a header is read unless the document ended"); vf_assert(g_ru->read_header == (r != 0), "the unit has a header if one was read"); vf_assert(!g_ru->read_body, "no body is read with a header"); vf_assert(g_resumed == (done ? 0 : 1), "the parser goes on to the next unit, once"); if (!done) vf_assert(!g_r->handler.collect_unit_header & !g_r->handler.collect_unit_body, "afterwards nothing is asked of the parser"); vf_reach("end"); }
VF_HARNESS(reader_body) { reader(true); bool done = g_r->handler.is_done; int r = g_r->read_body(g_ru); vf_assert((r != 0) == !g_r->handler.is_done, "a body is read unless the document ended"); vf_assert(g_ru->read_body == (r != 0), "the unit has a body if one was read"); vf_assert(g_resumed == (done ? 0 : 1), "the parser goes on to the end of the unit, once"); if (!done) vf_assert(!g_r->handler.collect_unit_body, "afterwards nothing is asked of the parser"); vf_reach("end"); }
#endif
