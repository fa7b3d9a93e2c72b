// P12: unparsing gives the source that was parsed, in the encoding and with the line ends chosen, on every channel.
#include "nat.h"
#ifdef VF_NATIVE
using namespace nat;
static std::string utf16(const std::string& s, bool bom) { return (bom ? std::string("\xff\xfe") : std::string()) + encode(s, "UTF-16LE"); }
static std::string out(const std::string& text, const std::string& enc, int eol) {
    std::string t; for (size_t i = 0; i < text.size(); ++i) if (text[i] == '\n' && eol >= 2) t += eol == 2 ? "\r" : "\r\n"; else t += text[i];
    return enc == "UTF-16" ? utf16(t, true) : enc == "US-ASCII" ? t : encode(t, enc == "utf-8" ? "UTF-8" : enc == "latin1" ? "ISO-8859-1" : enc); }
static bool ascii(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] & 0x80) return false; return true; }
static const char* const ENC[] = { "", "", "UTF-8", "UTF-8", "ISO-8859-1", "ISO-8859-1", "UTF-16", "UTF-16LE", "UTF-16BE", "US-ASCII", "utf-8", "latin1" };
static std::string source(const std::string& lang) {
    static const char* const TINY[] = { "", "", "\n", "\n\n\n", "\r", "\r\n\r", " ", "a", "a\n", "\n\na", ";\r\n", "\xc3\xa9\n", "// \xf0\x9f\x98\x80\n", "\x01", "\x0b\n\x02", "/*\n\n*/", "\t\n", "'\n'", "]]>", "&lt;\n", "<a>\n", "&#10;", "\"\\n\"\n" };
    std::string s = pick("tiny", 3) == 0 ? PICK("text", TINY) : code("code", lang, 5); if (pick("cr", 4) == 0) { std::string t; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') switch (pick("end", 3)) { case 0: t += "\r"; break; case 1: t += "\r\n"; break; default: t += "\n"; } else t += s[i]; s = t; }
    if (pick("wide", 3) == 0) s += "// \xc3\xa9\xe2\x82\xac\n"; if (pick("latin", 4) == 0) s = "/* \xc3\xbc\xc2\xa0 */" + s; if (pick("ctl", 6) == 0) s = "// \x01\x1f\n" + s;
    if (pick("long", 10) == 0) { int n = vf_irange("times", 100, 600); int k = vf_irange("shift", 0, 9); std::string t(k, ' '); t += vf_bool("multibyte") ? "// \xe2\x82\xac\xf0\x9f\x98\x80 \xc3\xa9\n" : "/* abc\n  def */\n"; for (; n; --n) s += t; }
    return s; }
struct Sink { std::string s; int closed; std::vector<int> sizes; };
static int put(void* c, const char* b, int n) { ((Sink*) c)->s.append(b, n); return n; }
static int done(void* c) { ++((Sink*) c)->closed; return 0; }
static std::string unparse(srcml_unit* u, int ch) {
    Scratch f("src"); std::string r; int st = 0;
    switch (ch) {
    case 0: { char* b = 0; size_t n = 77; st = srcml_unit_unparse_memory(u, &b, &n); vf_assert(st == SRCML_STATUS_OK && b, "the unit is unparsed"); r = std::string(b, n); srcml_memory_free(b); break; }
    case 1: if (vf_bool("exists")) spit(f.f, "something that was there before and is longer than the source\n"); st = srcml_unit_unparse_filename(u, f.f.c_str()); r = slurp(f.f); break;
    case 2: { FILE* x = fopen(f.f.c_str(), "wb"); fputs("[", x); st = srcml_unit_unparse_FILE(u, x); vf_assert(fputs("]", x) >= 0 && fclose(x) == 0, "a FILE of the caller stays open"); r = slurp(f.f); vf_assert(r.size() >= 2 && r[0] == '[' && r[r.size() - 1] == ']', "the source is written where the FILE is"); r = r.substr(1, r.size() - 2); break; }
    case 3: { int fd = open(f.f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); vf_assert(write(fd, "[", 1) == 1, "scratch"); st = srcml_unit_unparse_fd(u, fd); vf_assert(write(fd, "]", 1) == 1 && close(fd) == 0, "a descriptor of the caller stays open"); r = slurp(f.f); vf_assert(r.size() >= 2 && r[0] == '[' && r[r.size() - 1] == ']', "the source is written where the descriptor is"); r = r.substr(1, r.size() - 2); break; }
    default: { Sink k; k.closed = 0; bool cl = vf_bool("close"); st = srcml_unit_unparse_io(u, &k, put, cl ? done : 0); vf_assert(k.closed == (cl ? 1 : 0), "the close callback is called once"); r = k.s; } }
    vf_assert(st == SRCML_STATUS_OK, "the unit is unparsed"); return r; }
// unparses and checks, once or several times with other choices
static void check(srcml_archive* r, srcml_unit* u, const std::string& text, std::string aenc, std::string uenc) {
    std::string before = str(srcml_unit_get_srcml(u)); int eol = 0; int loc = srcml_unit_get_loc(u);
    for (int n = vf_irange("times", 1, 3); n; --n) {
        if (vf_bool("seteol")) { eol = vf_irange("eol", 0, 3); vf_assert(srcml_unit_set_eol(u, eol) == SRCML_STATUS_OK, "the line end is chosen"); }
        if (pick("setenc", 3) == 0) { uenc = PICK("uenc", ENC); srcml_unit_set_src_encoding(u, uenc.empty() ? 0 : uenc.c_str()); }
        std::string enc = !uenc.empty() ? uenc : !aenc.empty() ? aenc : "ISO-8859-1";
        // only characters that the encoding has
        if (((enc == "ISO-8859-1" || enc == "latin1") && !latin1(text)) || (enc == "US-ASCII" && !ascii(text))) { uenc = enc = "UTF-8"; srcml_unit_set_src_encoding(u, "UTF-8"); }
        int ch = pick("channel", 5); std::string got = unparse(u, ch), want = out(text, enc, eol); if (got != want && getenv("VF_STDERR")) { fprintf(stderr, "channel %d encoding %s eol %d, %zu and %zu bytes\n", ch, enc.c_str(), eol, got.size(), want.size()); fwrite(got.data(), 1, got.size() > 400 ? 400 : got.size(), stderr); fprintf(stderr, "\n---\n"); fwrite(want.data(), 1, want.size() > 400 ? 400 : want.size(), stderr); }
        vf_assert(got == want, "unparsing gives the source, in its encoding and with the line ends chosen"); vf_assert(str(srcml_unit_get_srcml(u)) == before && srcml_unit_get_loc(u) == loc, "unparsing does not change the unit"); }
    (void) r; }
VF_NATIVE_HARNESS(unparse_read) {
    bool solo = pick("solitary", 4) == 0; srcml_archive* w = srcml_archive_create(); if (solo) srcml_archive_enable_solitary_unit(w); static const char* const XE[] = { "", "", "ISO-8859-1", "UTF-16" }; std::string xe = PICK("xml", XE); if (!xe.empty()) srcml_archive_set_xml_encoding(w, xe.c_str()); if (pick("position", 4) == 0) srcml_archive_enable_option(w, SRCML_OPTION_POSITION); if (pick("store", 4) == 0) srcml_archive_enable_option(w, SRCML_OPTION_STORE_ENCODING);
    char* b = 0; size_t n = 0; srcml_archive_write_open_memory(w, &b, &n); std::vector<std::string> text;
    for (int k = solo ? 1 : vf_irange("units", 1, 3); k; --k) { std::string lang = PICK("lang", LANGS), s = source(lang); srcml_unit* u = srcml_unit_create(w); srcml_unit_set_language(u, lang.c_str()); srcml_unit_set_src_encoding(u, "UTF-8"); vf_assert(srcml_unit_parse_memory(u, s.data(), s.size()) == SRCML_STATUS_OK, "source parses"); { char* ub = 0; size_t un = 0; vf_assert(srcml_unit_unparse_memory(u, &ub, &un) == SRCML_STATUS_INVALID_IO_OPERATION && !ub && !un, "a unit of an archive that is not open for reading is not unparsed"); } srcml_archive_write_unit(w, u); srcml_unit_free(u); text.push_back(eol(s)); }
    srcml_archive_close(w); srcml_archive_free(w); std::string doc(b, n); srcml_memory_free(b);
    srcml_archive* r = srcml_archive_create(); std::string ae = PICK("aenc", ENC); if (!ae.empty()) srcml_archive_set_src_encoding(r, ae.c_str()); srcml_archive_read_open_memory(r, doc.data(), doc.size());
    std::vector<srcml_unit*> us; bool later = vf_bool("later"); for (size_t i = 0; i < text.size(); ++i) { srcml_unit* u = srcml_archive_read_unit(r); vf_assert(u != 0, "the unit is read"); if (later) us.push_back(u); else { check(r, u, text[i], ae, ""); srcml_unit_free(u); } }
    for (size_t i = us.size(); i--;) { check(r, us[i], text[i], ae, ""); srcml_unit_free(us[i]); }
    // a unit that is parsed into an archive that is read
    if (pick("parsed", 3) == 0) { std::string lang = PICK("lang2", LANGS), s = source(lang); srcml_unit* u = srcml_unit_create(r); srcml_unit_set_language(u, lang.c_str()); srcml_unit_set_src_encoding(u, "UTF-8"); vf_assert(srcml_unit_parse_memory(u, s.data(), s.size()) == SRCML_STATUS_OK, "source parses"); check(r, u, eol(s), ae, "UTF-8");
        if (vf_bool("again")) { std::string t = source(lang); srcml_unit_set_src_encoding(u, "UTF-8"); srcml_unit_set_eol(u, 0); vf_assert(srcml_unit_parse_memory(u, t.data(), t.size()) == SRCML_STATUS_OK, "source parses again"); check(r, u, eol(t), ae, "UTF-8"); } srcml_unit_free(u); }
    srcml_archive_close(r); srcml_archive_free(r); vf_reach("end");
}
#endif
