// P05/P06/P07: the reader of source text.  What reaches the converter, the hash, the parser is one stream of bytes, whatever the
// chunks in which a channel delivers it.
#include <UTF8CharBuffer.hpp>
#include <fcntl.h>
#include "vf.h"
#ifndef VF_NATIVE
extern "C" {
    void vg_vector(std::vector<char>* v);                     // the vector holds any bytes
    ssize_t vg_read(void* context, void* buffer, size_t n);    // delivers 1..n bytes, or ends (0), or fails (-1)
    void vg_save(int slot, const std::vector<char>* v);
    bool vg_hashed_is_delivered();                             // the hash took exactly the bytes delivered so far
    bool vg_is_produced(const std::vector<char>* v);           // the bytes the converter produced last
    bool vg_stream(const std::vector<char>* raw, size_t left, size_t left0, int skip);  // converted ++ tail == old tail ++ delivered[skip..]
    size_t vg_delivered();
    unsigned vg_byte(int k);                                   // k-th byte delivered, 0 when there are fewer
    bool vg_conv_is(const std::string* encoding);              // the converter is for this encoding
    bool vg_converted_anything();
    void vg_plan(int shorts, bool end);
    bool vg_encoding(const std::string* encoding, const std::string* declared);   // declared, else that of the byte order mark of the bytes delivered, else ISO-8859-1
}
static ssize_t the_read(void* c, void* b, size_t n) { return vg_read(c, b, n); }
static UTF8CharBuffer* arb(bool fresh = false) {
    UTF8CharBuffer* b = (UTF8CharBuffer*) vf_object("buffer", sizeof(UTF8CharBuffer));
    if (fresh) { new (&b->raw) std::vector<char>(); new (&b->cooked) std::vector<char>(); } else { vg_vector(&b->raw); vg_vector(&b->cooked); } b->sio.read_callback = the_read; b->sio.close_callback = 0; b->trivial = false;
    b->inbytesleft = vf_size("left", 0, UTF8CharBuffer::SRCBUFSIZE - 1); b->cooked_size = vf_size("room", 1, 1ul << 40); b->insize = vf_size("insize", 0, 1ul << 40); b->pos = vf_size("pos", 0, 1ul << 40);
    return b;
}
static UTF8CharBuffer* g_b; static size_t g_left0; static bool g_first, g_hash;
static bool bom8() { return (vg_byte(0) == 0xEF) & (vg_byte(1) == 0xBB) & (vg_byte(2) == 0xBF); }
// the contract of readChars() at its own recursive call: the same stream, nothing to use yet
extern "C" size_t vfs_recursive(UTF8CharBuffer* b) {
    vf_assert((b == g_b) & ((b->insize == 0) | (b->pos >= b->insize)) & !b->firstRead, "the reader goes on with the same stream");
    if (g_first && bom8()) vf_assert(vg_stream(&b->raw, b->inbytesleft, 0, 3), "no byte is lost or repeated between two reads");
    else vf_assert(vg_stream(&b->raw, b->inbytesleft, g_left0, 0), "no byte is lost or repeated between two reads");
    if (g_hash) vf_assert(vg_hashed_is_delivered(), "the hash takes exactly the bytes of the source");
    vf_assert(vg_is_produced(&b->cooked) & (b->cooked.size() == 0), "no converted text is thrown away");
    vf_reach("again"); vf_assume(false); return 0;
}
VF_HARNESS(read_more) {
    UTF8CharBuffer* b = arb(); g_b = b; g_hash = b->hashneeded; g_first = false;
    vf_assume(!b->firstRead && (b->insize == 0 || b->pos >= b->insize));
    vf_assume(b->inbytesleft <= b->raw.size() && b->raw.size() <= UTF8CharBuffer::SRCBUFSIZE);
    b->ic = (iconv_t) vf_object("converter", 8);
    size_t left0 = b->inbytesleft; g_left0 = left0; vg_save(0, &b->raw);
    std::string enc(b->encoding);
    ssize_t n = b->readChars();
    if (vg_delivered() == 0) { vf_assert((n == 0) & !vg_converted_anything(), "the source ends when the channel has nothing more"); vf_reach("end of file"); return; }
    vf_assert((n == (ssize_t) b->cooked.size()) & vg_is_produced(&b->cooked), "the text is exactly what the converter produced");
    vf_assert(b->pos == 0, "the text is read from its start");
    vf_assert(vg_stream(&b->raw, b->inbytesleft, left0, 0), "the converter gets exactly the bytes of the source, in order");
    if (b->hashneeded) vf_assert(vg_hashed_is_delivered(), "the hash takes exactly the bytes of the source");
    vf_assert((b->encoding == enc) & !b->firstRead, "the encoding does not change later on");
    vf_reach("end");
}
// the first read: `shorts` deliveries that together have less than four bytes, then the end or a delivery that makes it four or more
static void first(int shorts, bool end) {
    vg_plan(shorts, end);
    UTF8CharBuffer* b = arb(true); g_b = b; g_hash = b->hashneeded; g_left0 = 0;
    b->hashneeded = true; g_hash = true; b->firstRead = true; b->insize = 0; b->pos = 0; b->inbytesleft = 0; b->ic = 0; g_first = true;
    vg_save(0, &b->raw);
    std::string declared(b->encoding);
    ssize_t n = b->readChars();
    if (vg_delivered() == 0) { vf_assert((n == 0) & !vg_converted_anything(), "an empty source has no text"); vf_reach("empty"); return; }
    bool b8 = bom8();
    vf_assert(vg_encoding(&b->encoding, &declared), "the encoding is the declared one, else that of the byte order mark, else ISO-8859-1");
    vf_assert(vg_conv_is(&b->encoding), "the converter is for the encoding of the source");
    if (b->hashneeded) vf_assert(vg_hashed_is_delivered(), "the hash takes exactly the bytes of the source");
    if (!vg_converted_anything()) { vf_assert(n == 0, "an encoding that is not known gives no text"); vf_reach("unknown encoding"); return; }
    vf_assert((n == (ssize_t) b->cooked.size()) & vg_is_produced(&b->cooked), "the text is exactly what the converter produced");
    vf_assert((b->pos == 0) & !b->firstRead, "the text is read from its start");
    if (b8) vf_assert(vg_stream(&b->raw, b->inbytesleft, 0, 3), "the converter gets exactly the bytes of the source after the byte order mark");
    else vf_assert(vg_stream(&b->raw, b->inbytesleft, 0, 0), "the converter gets exactly the bytes of the source, in order");
    vf_reach("end");
}
VF_HARNESS(read_first_at_once) { first(0, false); }
VF_HARNESS(read_first_empty) { first(0, true); }
VF_HARNESS(read_first_short) { first(1, true); }
VF_HARNESS(read_first_two) { first(1, false); }
VF_HARNESS(read_first_two_short) { first(2, true); }
VF_HARNESS(read_first_three) { first(2, false); }
VF_HARNESS(read_first_three_short) { first(3, true); }
VF_HARNESS(read_first_four) { first(3, false); }
// one character: what the parser sees is the text with CR and CRLF as LF, whatever the chunks
extern "C" { void vg_stream_init(UTF8CharBuffer* b, size_t cooked, size_t pos, size_t insize); unsigned vg_next(int k); bool vg_rest_is(int k); size_t vg_length(); }
extern "C" char vtable_of_buffer[] asm("_ZTV14UTF8CharBuffer");
VF_HARNESS(get_char) {
    UTF8CharBuffer* b = arb(); *(void**) b = vtable_of_buffer + 16;
    vf_assume(b->pos <= b->insize && b->insize == b->cooked.size() && b->loc >= 0 && b->loc < 2147483647);
    vg_stream_init(b, __builtin_offsetof(UTF8CharBuffer, cooked), __builtin_offsetof(UTF8CharBuffer, pos), __builtin_offsetof(UTF8CharBuffer, insize));
    bool lastcr = b->lastcr; int loc = b->loc, last = b->lastchar;
    int c = b->UTF8CharBuffer::getChar();
    size_t n = vg_length();
    if (lastcr && n > 0 && vg_next(0) == '\n') {
        if (c == -1) { vf_assert(n == 1, "the text ends only at its end"); vf_assert((b->loc == loc) & (b->lastchar == last), "the end of the text is no character"); vf_reach("end of file after CRLF"); return; }
        vf_assert(n > 1, "no character after the end of the text");
        unsigned x = vg_next(1);
        vf_assert(c == (int) (x == '\r' ? '\n' : x), "CR and CRLF are read as LF, any other byte as it is");
        vf_assert(b->lastcr == (x == '\r'), "an LF after a CR is recognised");
        vf_assert((b->loc == loc + (c == '\n' ? 1 : 0)) & (b->lastchar == c), "each line end is counted once");
        vf_assert(vg_rest_is(2), "the text is read on without loss");
        vf_reach("after CRLF");
    } else {
        if (c == -1) { vf_assert(n == 0, "the text ends only at its end"); vf_assert((b->loc == loc) & (b->lastchar == last), "the end of the text is no character"); vf_reach("end of file"); return; }
        vf_assert(n > 0, "no character after the end of the text");
        unsigned x = vg_next(0);
        vf_assert(c == (int) (x == '\r' ? '\n' : x), "CR and CRLF are read as LF, any other byte as it is");
        vf_assert(b->lastcr == (x == '\r'), "an LF after a CR is recognised");
        vf_assert((b->loc == loc + (c == '\n' ? 1 : 0)) & (b->lastchar == c), "each line end is counted once");
        vf_assert(vg_rest_is(1), "the text is read on without loss");
        vf_reach("end");
    }
}
VF_HARNESS(lines) {
    UTF8CharBuffer* b = (UTF8CharBuffer*) vf_object("buffer", sizeof(UTF8CharBuffer));
    vf_assume(b->loc >= 0 && b->loc < 2147483647);
    int n = b->getLOC();
    vf_assert(n == b->loc + (b->lastchar == '\n' ? 0 : 1), "the lines are the line ends, and one more for text after the last");
    vf_reach("end");
}
// the end of reading: the channel is closed once, and the hash is the digest in hexadecimal
extern "C" { bool vg_is_digest(const std::string* s); }
static int g_closed; static void* g_context;
static int the_close(void* c) { vf_assert(c == g_context, "the close callback gets its context"); ++g_closed; return 0; }
VF_HARNESS(close_and_hash) {
    UTF8CharBuffer* b = arb(true); boost::optional<std::string> h; *(void**) ((char*) b + __builtin_offsetof(UTF8CharBuffer, loc) - 8) = &h;
    bool cl = vf_bool("close"), ctx = vf_bool("context"); b->sio.close_callback = cl ? the_close : 0; g_context = ctx ? vf_object("context", 8) : 0; b->sio.context = g_context; b->ic = vf_bool("converter") ? (iconv_t) vf_object("conv", 8) : 0;
    bool hash = vf_bool("hash"); b->hashneeded = hash;
    b->UTF8CharBuffer::~UTF8CharBuffer();
    vf_assert(g_closed == (cl && ctx ? 1 : 0), "the close callback is called exactly once");
    vf_assert(!!h == hash, "a hash is made exactly when asked for");
    if (!hash) { vf_reach("no hash"); return; }
    vf_assert(vg_is_digest(&*h), "the hash is the digest in forty hexadecimal digits");
    vf_reach("end");
}
// source in memory: all of it at once
extern "C" void vg_deliver(const char* b, size_t n);
VF_HARNESS(read_memory) {
    size_t n; const char* p = vf_bytes("source", &n); vf_assume(n > 0 && n < (1ul << 28)); vg_deliver(p, n);
    boost::optional<std::string> h; bool hash = true;
    g_hash = hash; g_first = true; g_left0 = 0;
    UTF8CharBuffer* b = new UTF8CharBuffer(p, n, vf_bool("declared") ? "X" : 0, hash, h);
    if (hash) vf_assert(vg_hashed_is_delivered(), "the hash takes exactly the bytes of the source");
    if (!vg_converted_anything()) { vf_assert(b->insize == 0, "an encoding that is not known gives no text"); vf_reach("unknown encoding"); return; }
    vf_assert((b->insize == b->cooked.size()) & vg_is_produced(&b->cooked), "the text is exactly what the converter produced");
    vf_assert((b->pos == 0) & !b->firstRead & (b->loc == 0) & !b->lastcr, "the text is read from its start");
    if (bom8()) vf_assert(vg_stream(&b->raw, b->inbytesleft, 0, 3), "the converter gets exactly the bytes of the source after the byte order mark");
    else vf_assert(vg_stream(&b->raw, b->inbytesleft, 0, 0), "the converter gets exactly the bytes of the source, in order");
    vf_reach("end");
}
// the other channels: the bytes are those of the callback, and nothing else is read
static UTF8CharBuffer* g_made;
static int g_reads, g_opens, g_closes, g_fd, g_flags; static void* g_to; static size_t g_want; static long g_got; static const char* g_name; static bool g_eof;
extern "C" long vgs_read(int fd, void* b, size_t n) { ++g_reads; g_fd = fd; g_to = b; g_want = n; return g_got; }
extern "C" int vgs_open(const char* n, int f) { ++g_opens; g_name = n; g_flags = f; return g_fd; }
extern "C" int vgs_close(int fd) { ++g_closes; g_fd = fd; return 0; }
extern "C" size_t vgs_fread(void* b, size_t z, size_t n, FILE* f) { ++g_reads; g_to = f; vf_assert(z == 1, "bytes are read"); g_want = n; return (size_t) g_got; }
extern "C" int vgs_feof(FILE*) { return g_eof; }
// what a channel must do for reads: exactly one system read into the given place, whose result is passed on
static void reads(UTF8CharBuffer* b, int fd) {
    size_t n = vf_size("n", 1, 1ul << 20); void* to = vf_object("buffer", 8); g_got = (long) vf_size("got", 0, 1ul << 20); if (vf_bool("error")) g_got = -1; g_reads = 0;
    long r = b->sio.read_callback(b->sio.context, to, n);
    vf_assert((g_reads == 1) & (g_fd == fd) & (g_to == to) & (g_want == n), "a read reads from the descriptor into the place given");
    vf_assert(r == g_got, "the result of a read is passed on");
}
VF_HARNESS(make_fd) {
    boost::optional<std::string> h; bool hash = vf_bool("hash"); int fd = vf_int("fd"); bool made = true; UTF8CharBuffer* b = 0; g_reads = g_opens = g_closes = 0;
    try { b = new UTF8CharBuffer(fd, "X", hash, h); } catch (const UTF8FileError&) { made = false; }
    vf_assert(made == (fd >= 0), "exactly the descriptors that can exist are accepted"); if (!made) { vf_reach("refused"); return; }
    vf_assert((b->hashneeded == hash) & !h, "the hash comes at the end"); reads(b, fd);
    b->sio.close_callback(b->sio.context); vf_assert((g_closes == 0) & (g_opens == 0), "the descriptor of the caller stays open"); vf_reach("end");
}
VF_HARNESS(make_file) {
    boost::optional<std::string> h; bool hash = vf_bool("hash"); const char* name = vf_cstr_or_null("name"); g_reads = g_opens = g_closes = 0; int fd = g_fd = (int) vf_size("fd", 0, 1 << 20); bool openable = vf_bool("openable"); if (!openable) g_fd = -1; bool made = true; UTF8CharBuffer* b = 0;
    try { b = new UTF8CharBuffer(name, "X", hash, h); } catch (const UTF8FileError&) { made = false; }
    vf_assert(made == (openable & (name != 0)), "exactly the files that can be opened are accepted"); if (!made) { vf_reach("refused"); return; }
    vf_assert((g_opens == 1) & (g_name == name) & ((g_flags & O_ACCMODE) == O_RDONLY), "the file is opened once, for reading"); vf_assert((b->hashneeded == hash) & !h, "the hash comes at the end"); reads(b, fd);
    b->sio.close_callback(b->sio.context); vf_assert((g_closes == 1) & (g_fd == fd), "the file is closed"); vf_reach("end");
}
VF_HARNESS(make_FILE) {
    boost::optional<std::string> h; bool hash = vf_bool("hash"); FILE* f = vf_bool("file") ? (FILE*) vf_object("stream", 8) : 0; bool made = true; UTF8CharBuffer* b = 0; g_reads = g_opens = g_closes = 0;
    try { b = new UTF8CharBuffer(f, "X", hash, h); } catch (const UTF8FileError&) { made = false; }
    vf_assert(made == (f != 0), "a FILE is needed"); if (!made) { vf_reach("refused"); return; }
    size_t n = vf_size("n", 1, 1ul << 20); g_got = (long) vf_size("got", 0, 1ul << 20); g_eof = vf_bool("eof");
    long r = b->sio.read_callback(b->sio.context, vf_object("buffer", 8), n);
    vf_assert((g_reads == 1) & (g_to == (void*) f) & (g_want == n), "a read reads from the FILE"); vf_assert(r == (g_got == 0 && !g_eof ? -1 : g_got), "the bytes read, or an error");
    if (b->sio.close_callback) b->sio.close_callback(b->sio.context); vf_assert(g_closes == 0, "the FILE of the caller stays open"); vf_reach("end");
}
VF_HARNESS(make_io) {
    boost::optional<std::string> h; bool hash = vf_bool("hash"); void* c = vf_bool("context") ? vf_object("context", 8) : 0; bool cl = vf_bool("close");
    UTF8CharBuffer* b = new UTF8CharBuffer(c, the_read, cl ? the_close : 0, "X", hash, h);
    vf_assert((b->sio.context == c) & (b->sio.read_callback == the_read) & (b->sio.close_callback == (cl ? the_close : 0)), "the callbacks are used as given");
    vf_assert((b->hashneeded == hash) & !h, "the hash comes at the end");
    vf_reach("end");
}
#endif
