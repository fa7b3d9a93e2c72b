A = 'src/libsrcml/srcml_archive.cpp'; U = 'src/libsrcml/srcml_unit.cpp'
seed('P01-empty-url', 'P01', [(A, 'archive->url = url ? std::string(url) : decltype(archive->url)();', 'archive->url = url && *url ? std::string(url) : decltype(archive->url)();')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_set_url(a, "u"); srcml_archive_set_url(a, ""); CHECK(eq(srcml_archive_get_url(a), "")); srcml_archive_free(a); return 0; }
''', 'an empty string', 'srcml_archive_get_url gives NULL after setting the empty string')
seed('P01-eol-width', 'P01', [(U, 'if (unit == nullptr || eol > SOURCE_OUTPUT_EOL_CRLF)', 'if (unit == nullptr || (unsigned short) eol > SOURCE_OUTPUT_EOL_CRLF)')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_unit* u = srcml_unit_create(a); CHECK(srcml_unit_set_eol(u, 65537) == SRCML_STATUS_INVALID_ARGUMENT); CHECK(srcml_unit_get_eol(u) <= 3); return 0; }
''', 'an end-of-line value above 16 bits', 'an end-of-line kind that does not exist is accepted')
seed('P01-diff-language', 'P01', [(A, '    archive->language = language ? std::string(language) : decltype(archive->language)();', '    archive->language = language ? std::string(language) : decltype(archive->language)();\n    if (!language && archive->version)\n        archive->version = boost::none;')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_set_version(a, "1"); srcml_archive_set_language(a, 0); CHECK(eq(srcml_archive_get_version(a), "1")); return 0; }
''', 'the language of an archive that has a version is cleared', 'clearing one attribute clears another one')
seed('P02-disable-toggle', 'P02', [(A, '    archive->options &= ~modoption;', '    archive->options ^= modoption;')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_set_options(a, SRCML_OPTION_POSITION); srcml_archive_disable_option(a, SRCML_OPTION_CPP); CHECK(srcml_archive_get_options(a) == SRCML_OPTION_POSITION); return 0; }
''', 'an option is disabled that is not enabled', 'disabling an inactive option enables it')
seed('P02-enable-cpp-solitary', 'P02', [(A, '''    int modoption = option % (1<<7);

    archive->options |= modoption;''', '''    int modoption = option % (1<<7);

    if (modoption == (1<<7) - 1)
        archive->options |= SRCML_OPTION_ARCHIVE;

    archive->options |= modoption;''')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_enable_solitary_unit(a); CHECK(srcml_archive_is_solitary_unit(a)); srcml_archive_enable_option(a, 127); CHECK(srcml_archive_is_solitary_unit(a)); return 0; }
''', 'all seven public options are enabled in one call', 'enabling options changes the solitary-unit switch')
R = 'src/libsrcml/language_extension_registry.cpp'
seed('P04-gz-only', 'P04', [(R, 'if ((path.size() > 3) && (path.substr(path.size() - 3) == ".gz"))', 'while ((path.size() > 3) && (path.substr(path.size() - 3) == ".gz"))')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_register_file_extension(a, "gz", "Java"); CHECK(eq(srcml_archive_check_extension(a, "a.cpp.gz.gz"), "Java")); return 0; }
''', 'a doubly compressed name with the extension gz registered', 'more than one .gz is stripped')
seed('P04-shadow-first', 'P04', [(R, '    language_extension apair = language_extension(ext, language);\n    registered_languages.push_back(apair);', '''    language_extension apair = language_extension(ext, language);
    int seen = 0;
    for (size_t i = 20; i < registered_languages.size(); ++i)
        if (get_extension(registered_languages[i]) == apair.first && ++seen == 3)
            return true;
    registered_languages.push_back(apair);''')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_register_file_extension(a, "x", "Java"); srcml_archive_register_file_extension(a, "x", "C#"); srcml_archive_register_file_extension(a, "x", "Java"); srcml_archive_register_file_extension(a, "x", "C"); CHECK(eq(srcml_archive_check_extension(a, "a.x"), "C")); return 0; }
''', 'the same extension is registered four times by the user', 'a later registration is dropped')
seed('P04-empty-ext', 'P04', [(R, '    if (pos != std::string::npos) {\n        extension', '    if (pos != std::string::npos && pos + 1 < path.size()) {\n        extension')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_register_file_extension(a, "", "Java"); CHECK(eq(srcml_archive_check_extension(a, "a."), "Java")); return 0; }
''', 'the empty extension is registered', 'a name ending in a dot has no extension')
X = 'src/libsrcml/srcml_transform.cpp'
seed('P19-unparse-fd', 'P19', [(U, 'if (unit == nullptr || srcml_fd < 0)', 'if (unit == nullptr || srcml_fd == -1)')],
r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_unit* u = srcml_unit_create(a); CHECK(srcml_unit_unparse_fd(u, -7) == SRCML_STATUS_INVALID_ARGUMENT); return 0; }
''', 'a negative descriptor other than -1', 'unparsing to a descriptor that cannot exist is not refused as invalid')
seed('P19-stringparam', 'P19', [(X, '''    if (archive->transformations.size() == 0)
        return SRCML_STATUS_NO_TRANSFORMATION;

    archive->transformations.back().xsl_parameters.push_back(xpath_param_name);

''', '''    if (archive->transformations.size() == 0)
        return *xpath_param_value ? SRCML_STATUS_NO_TRANSFORMATION : SRCML_STATUS_OK;

    archive->transformations.back().xsl_parameters.push_back(xpath_param_name);

''')],
r'''int main() { srcml_archive* a = srcml_archive_create(); CHECK(srcml_append_transform_stringparam(a, "p", "x") == SRCML_STATUS_NO_TRANSFORMATION); CHECK(srcml_append_transform_stringparam(a, "p", "") == SRCML_STATUS_NO_TRANSFORMATION); return 0; }
''', 'an empty parameter value without any transformation', 'a parameter that is dropped is reported as a success')
seed('P19-write-empty-unit', 'P19', [(A, '''    if (!unit->read_body && !unit->read_header)
        return SRCML_STATUS_UNINITIALIZED_UNIT;

    // if we haven't read a unit yet''', '''    if (!unit->read_body && !unit->read_header)
        return unit->language && archive->type == SRCML_ARCHIVE_WRITE ? SRCML_STATUS_OK : SRCML_STATUS_UNINITIALIZED_UNIT;

    // if we haven't read a unit yet''')],
r'''int main() { srcml_archive* a = srcml_archive_create(); char* b = 0; size_t n = 0; srcml_archive_write_open_memory(a, &b, &n); srcml_unit* u = srcml_unit_create(a); CHECK(srcml_archive_write_unit(a, u) == SRCML_STATUS_UNINITIALIZED_UNIT); srcml_unit_set_language(u, "C"); CHECK(srcml_archive_write_unit(a, u) == SRCML_STATUS_UNINITIALIZED_UNIT); return 0; }
''', 'a unit with a language but no content, in an archive open for writing', 'writing a unit without content is reported as a success')
O = 'src/parser/srcMLOutput.cpp'; SP = 'src/parser/StreamMLParser.hpp'
PARSE = r'''static std::string parse(const char* lang, const std::string& s, unsigned long long opt, const char* prefix = 0) { srcml_archive* a = srcml_archive_create(); srcml_archive_enable_option(a, opt); if (prefix) srcml_archive_register_namespace(a, prefix, "http://www.srcML.org/srcML/position"); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, lang); srcml_unit_set_src_encoding(u, "UTF-8"); int st = srcml_unit_parse_memory(u, s.data(), s.size()); std::string r = st ? "status" : srcml_unit_get_srcml_inner(u); srcml_unit_free(u); srcml_archive_free(a); return r; }
static std::string text(const std::string& x) { std::string o; bool in = false; for (size_t i = 0; i < x.size(); ++i) { if (x[i] == '<') in = true; else if (x[i] == '>') in = false; else if (!in) o += x[i]; } return o; }
'''
seed('P10-long-text', 'P10', [(O, '''    if (strpbrk(str.c_str(), "<>&") == nullptr) {

        xmlTextWriterWriteRawLen(xout, BAD_CAST (unsigned char*) str.data(), (int)str.size());
''', '''    if (strpbrk(str.c_str(), "<>&") == nullptr) {

        const unsigned short size = str.size();
        xmlTextWriterWriteRawLen(xout, BAD_CAST (unsigned char*) str.data(), size);
''')], PARSE + r'''int main() { std::string t = "f(\"" + std::string(70000, 'x') + "\");\n"; CHECK(text(parse("C", t, 0)) == t); return 0; }
''', 'a single token of 65536 bytes or more', 'the text of a long token is cut off')
seed('P10-entity', 'P10', [(O, """            } else if (c == '&') {
                s += "&amp;";
""", """            } else if (c == '&' && str.find("&#38;") != std::string::npos) {
                s += c;
            } else if (c == '&') {
                s += "&amp;";
""")], PARSE + r"""int main() { std::string r = parse("C", "f(\"&#38;\");\n", 0); CHECK(r.find("&amp;#38;") != std::string::npos); return 0; }
""", 'a string or comment that contains the text &#38;', 'a character reference in the source is not escaped')
seed('P08-end-prefix', 'P08', [(O, 'const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\\"";', 'const std::string endAttribute   = std::string(" ") + (!prefix.empty() ? "pos:" : "") + "end=\\"";')], PARSE + r'''int main() { std::string r = parse("C", "a;\n", SRCML_OPTION_POSITION, "p"); CHECK(r.find("p:end=") != std::string::npos); CHECK(r.find("pos:end=") == std::string::npos); return 0; }
''', 'the position namespace is registered with a prefix of its own', 'the end position has a prefix that is not declared')
seed('P08-wide-column', 'P08', [(O, 'inline const char* positoa(int n) {', 'inline const char* positoa(unsigned short n) {')], PARSE + r'''int main() { std::string r = parse("C", std::string(70000, ' ') + "a;", SRCML_OPTION_POSITION); CHECK(r.find("1:70001\"") != std::string::npos); return 0; }
''', 'a line of more than 65535 columns', 'columns wrap around at 65536')
seed('P08-multiline-empty', 'P08', [(O, 'if (stoken->endline < stoken->getLine() || (stoken->endline == stoken->getLine() && stoken->endcolumn < stoken->getColumn()))', 'if (stoken->endline < stoken->getLine() || (stoken->endline <= stoken->getLine() + 1 && stoken->endcolumn < stoken->getColumn()))')], PARSE + r'''int main() { std::string r = parse("C", "          a =\nb;\n", SRCML_OPTION_POSITION); CHECK(r.find("<expr_stmt pos:start=\"1:11\"") != std::string::npos); return 0; }
''', 'an element that ends on the next line, in an earlier column than it starts', 'the element has no position')
B = 'src/parser/UTF8CharBuffer.cpp'
FEED = r'''#include <vector>
struct Feed { const std::string* s; size_t p, chunk; int closed; };
static ssize_t feed_read(void* c, void* b, size_t n) { Feed* f = (Feed*) c; size_t m = f->s->size() - f->p; if (m > n) m = n; if (m > f->chunk) m = f->chunk; memcpy(b, f->s->data() + f->p, m); f->p += m; return (ssize_t) m; }
static int feed_close(void* c) { ++((Feed*) c)->closed; return 0; }
struct R { int st, loc; std::string in, enc, hash; };
static R go(const std::string& s, const char* uenc, const char* aenc, size_t chunk) { srcml_archive* a = srcml_archive_create(); if (aenc) srcml_archive_set_src_encoding(a, aenc); srcml_archive_enable_hash(a); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); if (uenc) srcml_unit_set_src_encoding(u, uenc); R r; Feed f = { &s, 0, chunk, 0 };
  r.st = chunk ? srcml_unit_parse_io(u, &f, feed_read, feed_close) : srcml_unit_parse_memory(u, s.data(), s.size()); r.in = srcml_unit_get_srcml_inner(u) ? srcml_unit_get_srcml_inner(u) : ""; r.enc = srcml_unit_get_src_encoding(u) ? srcml_unit_get_src_encoding(u) : ""; r.hash = srcml_unit_get_hash(u) ? srcml_unit_get_hash(u) : ""; r.loc = srcml_unit_get_loc(u); srcml_unit_free(u); srcml_archive_free(a); return r; }
'''
seed('P05-tail-three', 'P05', [(B, '        if (inbytesleft)\n            std::move(', '        if (inbytesleft > 0 && inbytesleft < 3)\n            std::move(')], FEED + r'''int main() { std::string s = "// a\xf0\x9f\x98\x80 b\nint x;\n"; for (size_t c = 1; c < 20; ++c) { R m = go(s, "UTF-8", 0, 0), r = go(s, "UTF-8", 0, c); CHECK(m.st == 0 && r.st == 0 && m.in == r.in); } return 0; }
''', 'a read that ends after the third byte of a four-byte character', 'the character is lost or garbled')
seed('P05-fd-dense', 'P05', [(B, '''UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, boost::optional<std::string>& hash)
    : UTF8CharBuffer(encoding, hashneeded, hash, SRCBUFSIZE * 4) {''', '''UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, boost::optional<std::string>& hash)
    : UTF8CharBuffer(encoding, hashneeded, hash, SRCBUFSIZE + SRCBUFSIZE / 4) {''')], r'''#include <unistd.h>
int main() { std::string s = "// "; for (int i = 0; i < 2933; ++i) s += "\xe9"; s += "\nint x;\n"; std::string r[2]; for (int k = 0; k < 2; ++k) { srcml_archive* a = srcml_archive_create(); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); int p[2]; if (k) { CHECK(pipe(p) == 0); CHECK(write(p[1], s.data(), s.size()) == (ssize_t) s.size()); close(p[1]); srcml_unit_parse_fd(u, p[0]); close(p[0]); } else srcml_unit_parse_memory(u, s.data(), s.size()); r[k] = srcml_unit_get_srcml_inner(u); srcml_unit_free(u); srcml_archive_free(a); } CHECK(r[0] == r[1]); return 0; }
''', 'source from a descriptor, in ISO-8859-1, with more than a quarter of non-ASCII characters in one buffer', 'characters are lost')
seed('P06-crlf-split', 'P06', [(B, "    if (lastcr && c == '\\n') {", "    if (lastcr && c == '\\n' && pos > 1) {")], FEED + r'''int main() { std::string s = "// a\r\nint x;\r\n"; R m = go("// a\nint x;\n", "UTF-8", 0, 0); for (size_t c = 1; c < 20; ++c) { R r = go(s, "UTF-8", 0, c); CHECK(r.in == m.in); } return 0; }
''', 'a CRLF pair split between two reads', 'the line end is doubled')
seed('P06-archive-wins', 'P06', [(U, 'optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding));', 'optional_to_c_str(unit->archive->src_encoding, optional_to_c_str(unit->encoding));')], FEED + r'''int main() { R r = go("// \xc3\xa9\nint x;\n", "UTF-8", "ISO-8859-1", 0); CHECK(r.enc == "UTF-8"); CHECK(r.in.find("\xc3\xa9") != std::string::npos && r.in.find("\xc3\x83") == std::string::npos); return 0; }
''', 'different encodings declared for the archive and the unit', 'the encoding declared for the unit is ignored')
seed('P07-hash-rehash', 'P07', [(B, 'SHA1_Update(&ctx, raw.data() + inbytesleft, (SHA_LONG) (raw.size() - inbytesleft));', 'SHA1_Update(&ctx, raw.data() + (inbytesleft > 1 ? 0 : inbytesleft), (SHA_LONG) (raw.size() - (inbytesleft > 1 ? 0 : inbytesleft)));')], FEED + r'''int main() { std::string s = "// a\xf0\x9f\x98\x80 b\nint x;\n"; R m = go(s, "UTF-8", 0, 0); for (size_t c = 1; c < 20; ++c) { R r = go(s, "UTF-8", 0, c); CHECK(r.hash == m.hash && r.hash.size() == 40); } return 0; }
''', 'a read that ends two or three bytes into a character', 'bytes are hashed twice')
seed('P07-loc-read', 'P07', [(U, "    unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\\n');", "    unit->loc = (int) std::count(unit->src->begin() + (unit->src->size() > 1), unit->src->end(), '\\n');")], FEED + r'''int main() { CHECK(go("int x;\n\nint y;", "UTF-8", 0, 0).loc == 3); CHECK(go("\n\nint y;", "UTF-8", 0, 0).loc == 3); return 0; }
''', 'a source that starts with an empty line', 'the first line is not counted')
SX = 'src/libsrcml/sax2_srcsax_handler.cpp'
seed('P21-one-char', 'P21', [(U, '    if (rawsize <= 0)\n        return "";', '    if (rawsize <= 1)\n        return "";')], r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); CHECK(srcml_unit_parse_memory(u, "\n", 1) == 0); CHECK(eq(srcml_unit_get_srcml_inner(u), "\n")); return 0; }
''', 'a unit whose content is a single character', 'the inner view of the unit is empty')
seed('P21-empty-url', 'P21', [(U, 'auto pos3 = s.find("\\"", pos2);', 'auto pos3 = s.find("\\"", pos2 + 1);')], r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_set_url(a, ""); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); srcml_unit_set_filename(u, "f.c"); CHECK(srcml_unit_parse_memory(u, "a;\n", 3) == 0); CHECK(strstr(srcml_unit_get_srcml_outer(u), " filename=\"f.c\"")); return 0; }
''', 'a unit with an empty url', 'the outer view loses part of the attribute after the url')
seed('P21-solitary-prefix', 'P21', [(SX, 'auto pos = s.find("xmlns");', 'auto pos = s.find("xmlns=");\n                if (pos == std::string::npos)\n                    pos = s.find("xmlns:src=");')], r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_enable_solitary_unit(a); srcml_archive_register_namespace(a, "s", "http://www.srcML.org/srcML/src"); srcml_archive_register_namespace(a, "", "http://x.org"); char* b = 0; size_t n = 0; srcml_archive_write_open_memory(a, &b, &n); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); srcml_unit_parse_memory(u, "a;\n", 3); srcml_archive_write_unit(a, u); srcml_unit_free(u); srcml_archive_close(a); srcml_archive_free(a);
  a = srcml_archive_create(); CHECK(srcml_archive_read_open_memory(a, b, n) == 0); u = srcml_archive_read_unit(a); CHECK(u != 0); const char* o = srcml_unit_get_srcml_outer(u); CHECK(o && !strncmp(o, "<s:unit ", 8) && strstr(o, " language=\"C\"") && !strstr(o, "xmlns:s=") && strstr(o, "xmlns=\"http://x.org\"")); return 0; }
''', 'a solitary unit whose srcML namespace has a prefix of its own, with another default namespace, is read', 'the outer view is cut at the wrong place')
seed('P16-unit-encoding', 'P16', [(U, '    new_unit->encoding = unit->encoding;', '    new_unit->encoding = unit->archive->src_encoding ? unit->archive->src_encoding : unit->encoding;')], r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_set_src_encoding(a, "ISO-8859-1"); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_src_encoding(u, "UTF-8"); srcml_unit* c = srcml_unit_clone(u); CHECK(eq(srcml_unit_get_src_encoding(c), "UTF-8")); return 0; }
''', 'a unit with another source encoding than that of its archive', 'the clone has the encoding of the archive')
seed('P16-open-solitary', 'P16', [(A, '    new_archive->rawwrites = false;\n    new_archive->error_string.clear();', '    new_archive->rawwrites = false;\n    if (archive->type == SRCML_ARCHIVE_WRITE)\n        new_archive->options |= SRCML_OPTION_ARCHIVE;\n    new_archive->error_string.clear();')], r'''int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_enable_solitary_unit(a); char* b = 0; size_t n = 0; srcml_archive_write_open_memory(a, &b, &n); srcml_archive* c = srcml_archive_clone(a); CHECK(srcml_archive_is_solitary_unit(c)); return 0; }
''', 'an archive of a solitary unit is cloned while it is open', 'the clone writes an archive')
seed('P16-shared-macros', 'P16', [('src/libsrcml/srcml_types.hpp', '    std::vector<std::string> user_macro_list;', '    struct macro_list { std::shared_ptr<std::vector<std::string>> list = std::make_shared<std::vector<std::string>>(); void push_back(const std::string& s) { list->push_back(s); } size_t size() const { return list->size(); } bool empty() const { return list->empty(); } const std::string& operator[](size_t i) const { return (*list)[i]; } std::string& at(size_t i) { return list->at(i); } const std::string& at(size_t i) const { return list->at(i); } operator std::vector<std::string>&() { return *list; } } user_macro_list;')], r'''int srcml_archive_register_macro(struct srcml_archive*, const char*, const char*); size_t srcml_archive_get_macro_list_size(const struct srcml_archive*);
int main() { srcml_archive* a = srcml_archive_create(); srcml_archive* c = srcml_archive_clone(a); srcml_archive_register_macro(c, "M", "src:macro"); CHECK(srcml_archive_get_macro_list_size(a) == 0); return 0; }
''', 'a macro is registered on a clone or on its original after cloning', 'the macro is registered on both')

SO = 'src/parser/srcMLOutput.cpp'; TR = 'src/libsrcml/srcml_translator.cpp'; UU = 'src/libsrcml/unit_utilities.cpp'; RH = 'src/libsrcml/srcml_reader_handler.hpp'
P15PRE = r"""static std::string doc(srcml_archive* a, srcml_unit** us, int n) { char* b = 0; size_t k = 0; srcml_archive_write_open_memory(a, &b, &k); for (int i = 0; i < n; ++i) srcml_archive_write_unit(a, us[i]); srcml_archive_close(a); std::string s(b, k); free(b); return s; }
"""
seed('P15-one-char', 'P15', [(TR, '} else if (size > 0) {', '} else if (size > 1) {')], P15PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "Java"); srcml_unit_parse_memory(u, "\n", 1); std::string s = doc(a, &u, 1); srcml_archive* r = srcml_archive_create(); srcml_archive_read_open_memory(r, s.c_str(), s.size()); srcml_unit* v = srcml_archive_read_unit(r); CHECK(v); CHECK(eq(srcml_unit_get_srcml(v), srcml_unit_get_srcml(u))); return 0; }
""", 'a unit whose content is a single character', 'the content of the unit is lost when it is written')
seed('P15-empty-revision', 'P15', [(UU, '            unit->revision = value;', '            unit->revision = value.empty() ? decltype(unit->revision)() : value;')], P15PRE + r"""int main() { std::string s = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1\">\n\n<unit revision=\"\" language=\"C\">a</unit>\n\n</unit>"; srcml_archive* r = srcml_archive_create(); srcml_archive_read_open_memory(r, s.c_str(), s.size()); srcml_unit* v = srcml_archive_read_unit(r); CHECK(v); CHECK(eq(srcml_unit_get_revision(v), "")); return 0; }
""", 'a unit with an empty revision', 'the revision of the unit is lost when it is read')
seed('P15-macro-order', 'P15', [(SO, """    for(std::vector<std::string>::size_type i = 0; i < user_macro_list.size(); i += 2) {

        xmlTextWriterStartElement(xout, BAD_CAST "macro-list");""", """    for(std::vector<std::string>::size_type i = 0; i < user_macro_list.size(); i += 2) {

        if (i > 0 && user_macro_list[i].compare(0, user_macro_list[i - 2].size(), user_macro_list[i - 2]) == 0 && user_macro_list[i + 1] == user_macro_list[i - 1])
            continue;

        xmlTextWriterStartElement(xout, BAD_CAST "macro-list");""")], P15PRE + r"""int srcml_archive_register_macro(struct srcml_archive*, const char*, const char*); size_t srcml_archive_get_macro_list_size(const struct srcml_archive*);
int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_register_macro(a, "M", "src:macro"); srcml_archive_register_macro(a, "MAX", "src:macro"); std::string s = doc(a, 0, 0); srcml_archive* r = srcml_archive_create(); srcml_archive_read_open_memory(r, s.c_str(), s.size()); srcml_unit* v = srcml_archive_read_unit(r); CHECK(srcml_archive_get_macro_list_size(r) == 2); return 0; }
""", 'two macros of one type, where the first is a prefix of the second', 'the second macro is lost')
seed('P15-version-needs-url', 'P15', [(SO, '        { UNIT_ATTRIBUTE_VERSION, version },', '        { UNIT_ATTRIBUTE_VERSION, version && !(filename && timestamp && strcmp(timestamp, version) == 0) ? version : 0 },')], P15PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); srcml_unit_set_filename(u, "f"); srcml_unit_set_version(u, "2020"); srcml_unit_set_timestamp(u, "2020"); srcml_unit_parse_memory(u, "a;\n", 3); std::string s = doc(a, &u, 1); srcml_archive* r = srcml_archive_create(); srcml_archive_read_open_memory(r, s.c_str(), s.size()); srcml_unit* v = srcml_archive_read_unit(r); CHECK(v); CHECK(eq(srcml_unit_get_version(v), "2020")); return 0; }
""", 'a unit with a filename whose version is equal to its timestamp', 'the version of the unit is not written')
seed('P15-tab-wide', 'P15', [(RH, 'srcml_archive_set_tabstop(archive, atoi(value.c_str()));', 'srcml_archive_set_tabstop(archive, atoi(value.substr(0, 1 + (value[0] == \'1\')).c_str()));')], P15PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_enable_option(a, SRCML_OPTION_POSITION); srcml_archive_set_tabstop(a, 24); std::string s = doc(a, 0, 0); srcml_archive* r = srcml_archive_create(); srcml_archive_read_open_memory(r, s.c_str(), s.size()); srcml_unit* v = srcml_archive_read_unit(r); CHECK(srcml_archive_get_tabstop(r) == 24); return 0; }
""", 'a tab stop of 20 or more', 'the tab stop read is another one')
P12PRE = r"""struct Doc { srcml_archive* r; srcml_unit* u; std::string s; Doc(const char* text) { srcml_archive* a = srcml_archive_create(); char* b = 0; size_t k = 0; srcml_archive_write_open_memory(a, &b, &k); srcml_unit* w = srcml_unit_create(a); srcml_unit_set_language(w, "C"); srcml_unit_set_src_encoding(w, "UTF-8"); srcml_unit_parse_memory(w, text, strlen(text)); srcml_archive_write_unit(a, w); srcml_archive_close(a); s = std::string(b, k); r = srcml_archive_create(); srcml_archive_read_open_memory(r, s.c_str(), s.size()); u = srcml_archive_read_unit(r); }
std::string get() { char* b = 0; size_t n = 0; srcml_unit_unparse_memory(u, &b, &n); return std::string(b, n); } };
"""
seed('P12-eol-kept', 'P12', [(U, '        xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str());', '        if (unit->eol == SOURCE_OUTPUT_EOL_CR)\n            unit->src->swap(neol);\n        xmlOutputBufferWrite(output_handler.get(), (int) (unit->eol == SOURCE_OUTPUT_EOL_CR ? *unit->src : neol).size(), (unit->eol == SOURCE_OUTPUT_EOL_CR ? *unit->src : neol).c_str());')], P12PRE + r"""int main() { Doc d("a;\nb;\n"); srcml_unit_set_eol(d.u, SOURCE_OUTPUT_EOL_CR); CHECK(d.get() == "a;\rb;\r"); srcml_unit_set_eol(d.u, SOURCE_OUTPUT_EOL_LF); CHECK(d.get() == "a;\nb;\n"); return 0; }
""", 'a unit is unparsed with CR, and then with another line end', 'the line ends of the first time stay')
seed('P12-blank-lines', 'P12', [(U, """            else if (unit->eol == SOURCE_OUTPUT_EOL_CRLF) {
                neol += "\\r\\n";""", """            else if (unit->eol == SOURCE_OUTPUT_EOL_CRLF) {
                if (i == 0 || src[i - 1] != '\\n' || i + 1 != src.size())
                    neol += '\\r';
                neol += '\\n';""")], P12PRE + r"""int main() { Doc d("a;\n\n"); srcml_unit_set_eol(d.u, SOURCE_OUTPUT_EOL_CRLF); CHECK(d.get() == "a;\r\n\r\n"); return 0; }
""", 'source that ends with a blank line, with CRLF', 'the last line end is another one')
seed('P12-escape-high', 'P12', [(UU, '            char value = (int)strtol(svalue.c_str(), NULL, 0);', '            char value = (int)strtol(svalue.c_str(), NULL, svalue.size() > 4 ? 16 : 10);')], P12PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); std::string s = "<unit xmlns=\"http://www.srcML.org/srcML/src\"/>"; srcml_archive_read_open_memory(a, s.c_str(), s.size()); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); srcml_unit_parse_memory(u, "// \x01 \x1f\n", 7); char* b = 0; size_t n = 0; srcml_unit_unparse_memory(u, &b, &n); CHECK(std::string(b, n) == "// \x01 \x1f\n"); return 0; }
""", 'a control character below 16 in a unit that was parsed', 'the control character is another one')
seed('P12-empty-close', 'P12', [(U, '[write_callback, close_callback, context](xmlCharEncodingHandlerPtr handler) {', '[write_callback, close_callback, context, unit](xmlCharEncodingHandlerPtr handler) {'), (U, '        return xmlOutputBufferCreateIO(write_callback, close_callback, context, handler);', '        return xmlOutputBufferCreateIO(write_callback, unit->loc ? close_callback : nullptr, context, handler);')], P12PRE + r"""static int put(void* c, const char* b, int n) { return n; } static int done(void* c) { ++*(int*) c; return 0; }
int main() { Doc d("a;\n"); int k = 0; srcml_unit_unparse_io(d.u, &k, put, done); CHECK(k == 1); Doc e(""); k = 0; srcml_unit_unparse_io(e.u, &k, put, done); CHECK(k == 1); return 0; }
""", 'a unit without source is unparsed to callbacks', 'the close callback is not called')
P14PRE = r"""struct W { srcml_archive* a; srcml_unit* u; char* b; size_t n; W() : b(0), n(0) { a = srcml_archive_create(); srcml_archive_write_open_memory(a, &b, &n); u = srcml_unit_create(a); srcml_unit_set_language(u, "C++"); srcml_write_start_unit(u); } };
"""
seed('P14-refused-unit', 'P14', [(TR, """    if (strcmp(name, "unit") == 0)
        return false;

    ++output_unit_depth;
""", """    ++output_unit_depth;

    if (strcmp(name, "unit") == 0)
        return false;

""")], P14PRE + r"""int main() { W w; CHECK(srcml_write_start_element(w.u, 0, "unit", 0) != SRCML_STATUS_OK); CHECK(srcml_write_end_element(w.u) != SRCML_STATUS_OK); return 0; }
""", 'an end of element after a start of element that was refused', 'the end is accepted, and ends the unit')
seed('P14-like-src', 'P14', [(TR, 'if (uri == nullptr || strcmp(SRCML_SRC_NS_URI, uri) != 0) {', 'if (uri == nullptr || strncmp(SRCML_SRC_NS_URI, uri, strlen(SRCML_SRC_NS_URI)) != 0) {')], P14PRE + r"""int main() { W w; srcml_write_start_element(w.u, "p", "a", "http://www.srcML.org/srcML/src/more"); srcml_write_end_unit(w.u); CHECK(std::string(srcml_unit_get_srcml_inner(w.u)) == "<p:a xmlns:p=\"http://www.srcML.org/srcML/src/more\"/>"); return 0; }
""", 'a namespace whose URI begins with that of srcML', 'the namespace is not declared')
seed('P14-deep-end', 'P14', [(U, """    while (unit->unit_translator->output_unit_depth)
        unit""", """    for (int depth = unit->unit_translator->output_unit_depth; depth > 0; depth -= 1 + (depth > 8))
        unit""")], P14PRE + r"""int main() { W w; std::string s; for (int i = 0; i < 12; ++i) { srcml_write_start_element(w.u, 0, "a", 0); s += i < 11 ? "<a>" : "<a/>"; } for (int i = 0; i < 11; ++i) s += "</a>"; srcml_write_end_unit(w.u); CHECK(std::string(srcml_unit_get_srcml_inner(w.u)) == s); return 0; }
""", 'more than eight elements are open when the unit is ended', 'the inner view has the end tags of the rest missing or added')
XT = 'src/libsrcml/xsltTransformation.cpp'; RT = 'src/libsrcml/relaxngTransformation.cpp'; XP = 'src/libsrcml/xpathTransformation.cpp'
P17PRE = r"""struct W { srcml_archive* a; srcml_unit* u; srcml_transform_result* r; W(const char* s) : r(0) { static char* b; static size_t n; a = srcml_archive_create(); srcml_archive_register_namespace(a, "p", "http://p"); srcml_archive_write_open_memory(a, &b, &n); u = srcml_unit_create(a); srcml_unit_set_language(u, "C++"); srcml_unit_parse_memory(u, s, strlen(s)); } void go() { r = 0; srcml_unit_apply_transforms(a, u, &r); } std::string in(int i) { return srcml_unit_get_srcml_inner(srcml_transform_get_unit(r, i)); } };
static const char VALUE[] = "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" version=\"1.0\"><xsl:output method=\"text\"/><xsl:param name=\"p\">0</xsl:param><xsl:param name=\"q\">0</xsl:param><xsl:template match=\"/\"><xsl:value-of select=\"$p\"/>-<xsl:value-of select=\"$q\"/></xsl:template></xsl:stylesheet>";
"""
seed('P17-relaxng-invalid', 'P17', [(RT, '    if (n != 0)\n', '    if (n < 0)\n')], P17PRE + r"""int main() { W w("a;"); const char* s = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><element name=\"nothing\"><empty/></element></start></grammar>"; CHECK(srcml_append_transform_relaxng_memory(w.a, s, strlen(s)) == 0); w.go(); CHECK(srcml_transform_get_unit_size(w.r) == 0); return 0; }
""", 'a unit that is not valid for the schema', 'a unit that is not valid is a result of RelaxNG')
seed('P17-second-param', 'P17', [(X, """    archive->transformations.back().xsl_parameters.push_back(xpath_param_name);
    archive->transformations.back().xsl_parameters.push_back(xpath_param_value);
""", """    auto& parameters = archive->transformations.front().xsl_parameters;
    parameters.push_back(xpath_param_name);
    parameters.push_back(xpath_param_value);
""")], P17PRE + r"""int main() { W w("a;"); srcml_append_transform_xpath(w.a, "/*"); CHECK(srcml_append_transform_xslt_memory(w.a, VALUE, strlen(VALUE)) == 0); srcml_append_transform_param(w.a, "p", "2+3"); w.go(); CHECK(std::string(srcml_transform_get_string(w.r)) == "5-0"); return 0; }
""", 'a parameter after the second transformation', 'the parameter goes to the first transformation')
seed('P17-number-ten', 'P17', [(X, 'std::to_string(i + 1)', "std::string(1, (char) ('1' + i))")], P17PRE + r"""int main() { W w("f(a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11);"); srcml_append_transform_xpath(w.a, "//src:name"); w.go(); CHECK(srcml_transform_get_unit_size(w.r) == 12); char* b = 0; size_t n = 0; srcml_archive* o = srcml_archive_create(); srcml_archive_write_open_memory(o, &b, &n); srcml_archive_write_unit(o, srcml_transform_get_unit(w.r, 10)); srcml_archive_close(o); CHECK(std::string(b, n).find("item=\"11\"") != std::string::npos); return 0; }
""", 'more than nine results', 'the number of a result is wrong')
seed('P17-clear-shared', 'P17', [(X, '    archive->transformations.clear();\n', '    while (archive->transformations.size() > 1)\n        archive->transformations.pop_back();\n    if (!archive->transformations.empty() && archive->transformations.back().xsl_parameters.empty())\n        archive->transformations.clear();\n')], P17PRE + r"""int main() { W w("a;"); srcml_append_transform_xslt_memory(w.a, VALUE, strlen(VALUE)); srcml_append_transform_param(w.a, "p", "1"); srcml_clear_transforms(w.a); w.go(); CHECK(w.r == 0); return 0; }
""", 'a transformation with a parameter is cleared', 'the transformation stays in the list')
seed('P17-nested-cpp', 'P17', [(X, """        if (usesURIChildren(cur_node->children, URI))
            return true;
""", """        if (cur_node->next && usesURIChildren(cur_node->children, URI))
            return true;
""")], P17PRE + r"""int main() { W w("#pragma a\n"); srcml_append_transform_xpath(w.a, "//src:x | //src:y | /src:unit"); srcml_clear_transforms(w.a); W v("if (a) {\n#define A\n}\n"); srcml_append_transform_xpath(v.a, "//src:if"); v.go(); CHECK(srcml_transform_get_unit_size(v.r) == 1); char* b = 0; size_t n = 0; srcml_archive* o = srcml_archive_create(); srcml_archive_write_open_memory(o, &b, &n); srcml_archive_write_unit(o, srcml_transform_get_unit(v.r, 0)); srcml_archive_close(o); CHECK(std::string(b, n).find("xmlns:cpp") != std::string::npos); return 0; }
""", 'a preprocessor element below the last child of a result', 'the namespace of the preprocessor elements is not declared')
seed('P17-same-prefix', 'P17', [(X, 'if (p && p->xpath == xpath_string &&', 'if (p && p->xpath.compare(0, p->xpath.size(), xpath_string, std::min(strlen(xpath_string), p->xpath.size())) == 0 &&')], P17PRE + r"""int main() { W w("a;"); srcml_append_transform_xpath(w.a, "//src:expr"); srcml_append_transform_xpath_attribute(w.a, "//src:expr/src:name", "p", "http://p", "at", "v"); w.go(); CHECK(w.in(0) == "<expr><name p:at=\"v\">a</name></expr>"); return 0; }
""", 'an XPath that begins with the XPath before it', 'the attribute goes to the XPath before it')

P03PRE = r"""#define SRCU "http://www.srcML.org/srcML/src"
#define POSU "http://www.srcML.org/srcML/position"
static std::string parse(srcml_archive* a, const char* s) { srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); srcml_unit_parse_memory(u, s, strlen(s)); std::string r = srcml_unit_get_srcml(u); srcml_unit_free(u); return r; }
"""
seed('P03-option-again', 'P03', [(A, """        view.modify(it, [prefix](Namespace& ns) { ns.prefix = prefix; });
    } else {""", """        view.modify(it, [prefix](Namespace& ns) { ns.prefix = prefix; });
        if (it->prefix == prefix && it != view.find(SRCML_CPP_NS_URI))
            return SRCML_STATUS_OK;
    } else {""")], P03PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_register_namespace(a, "p", POSU); srcml_archive_disable_option(a, SRCML_OPTION_POSITION); CHECK(srcml_archive_register_namespace(a, "q", POSU) == 0);
  CHECK(srcml_archive_get_options(a) & SRCML_OPTION_POSITION); CHECK(parse(a, "a;").find("q:start=") != std::string::npos); return 0; }
""", 'the namespace of positions is registered, positions are turned off, and it is registered again', 'positions stay off')
seed('P03-old-second', 'P03', [(RH, """            srcml_uri_normalize(uri);

            srcml_archive_register_namespace(""", """            if (pos == 0 || prefix.empty())
                srcml_uri_normalize(uri);

            srcml_archive_register_namespace(""")], P03PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); std::string d = "<s:unit xmlns:s=\"http://www.sdml.info/srcML/src\" xmlns:p=\"http://www.sdml.info/srcML/position\" revision=\"1.0.0\"><s:unit language=\"C\">a;</s:unit></s:unit>"; CHECK(srcml_archive_read_open_memory(a, d.data(), d.size()) == 0);
  CHECK(eq(srcml_archive_get_prefix_from_uri(a, SRCU), "s")); CHECK(eq(srcml_archive_get_prefix_from_uri(a, POSU), "p")); return 0; }
""", 'a document with more than one of the old namespaces is read', 'the second old namespace is not that of srcML')
seed('P03-read-default', 'P03', [(RH, """            srcml_archive_register_namespace(archive, prefix.c_str(), uri.c_str());
""", """            // the archive already has the namespace of srcML
            if (prefix.empty() && uri == SRCML_SRC_NS_URI)
                continue;

            srcml_archive_register_namespace(archive, prefix.c_str(), uri.c_str());
""")], P03PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_register_namespace(a, "s", SRCU); std::string d = "<unit xmlns=\"" SRCU "\" revision=\"1.0.0\"><unit language=\"C\">a;</unit></unit>"; CHECK(srcml_archive_read_open_memory(a, d.data(), d.size()) == 0);
  CHECK(eq(srcml_archive_get_prefix_from_uri(a, SRCU), "")); return 0; }
""", 'an archive with another prefix for srcML reads a document with the default one', 'the archive keeps its own prefix')
seed('P03-static-prefix', 'P03', [(SO, """    const std::string& prefix = namespaces[POS].prefix;
    const std::string startAttribute = " " + prefix""", """    const std::string& prefix = namespaces[POS].prefix;
    thread_local const std::string startAttribute = " " + prefix""")], P03PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); srcml_archive_register_namespace(a, "p", POSU); CHECK(parse(a, "a;").find(" p:start=") != std::string::npos); a = srcml_archive_create(); srcml_archive_register_namespace(a, "q", POSU); std::string s = parse(a, "a;"); CHECK(s.find(" p:start=") == std::string::npos && s.find(" q:start=") != std::string::npos); return 0; }
""", 'two archives in one process have different prefixes for positions', 'the start of a position keeps the prefix of the first')

P20PRE = r"""#include <vector>
#include <sstream>
#include <iomanip>
#include <ctime>
#include <unistd.h>
#include <ParseQueue.hpp>
#include <WriteQueue.cpp>
#include <srcml_consume.cpp>
#include <TraceLog.cpp>
#include <srcml_options.cpp>
#include <OpenFileLimiter.cpp>
struct Seen { int position, status; bool unit; std::string filename; }; static std::vector<Seen> seen;
void srcml_write_request(std::shared_ptr<ParseRequest> r, TraceLog&, const srcml_output_dest&) { Seen s = { r->position, r->status, r->unit.get() != 0, r->unit && srcml_unit_get_filename(r->unit.get()) ? srcml_unit_get_filename(r->unit.get()) : "" }; seen.push_back(s); if (seen.size() == 1) usleep(20000); }
static long long space[64]; static const srcml_output_dest& dest = *(const srcml_output_dest*) (void*) space;
static std::shared_ptr<ParseRequest> req(srcml_archive* a, const char* f, int status = 0) { std::shared_ptr<ParseRequest> p(new ParseRequest); p->srcml_arch = a; p->language = "C"; if (f) p->filename = std::string(f); p->status = status; p->buffer.assign(2, ';'); return p; }
struct W { srcml_archive* a; TraceLog log; WriteQueue w; ParseQueue q; W(int n) : a(srcml_archive_create()), w(log, dest), q(n, &w) {} void end() { q.wait(); w.stop(); } };
"""
WQ = 'src/client/WriteQueue.cpp'; SC = 'src/client/srcml_consume.cpp'; PQ = 'src/client/ParseQueue.hpp'
seed('P20-near-positions', 'P20', [(WQ, 'return r1->position > r2->position;', 'return static_cast<signed char>(r1->position - r2->position) > 0;')], P20PRE + r"""int main() { W* w = new W(2); std::vector<std::shared_ptr<ParseRequest> > v; for (int i = 0; i < 400; ++i) { v.push_back(req(w->a, "a.c", 1)); v[i]->position = i + 1; } for (int i = 399; i >= 0; --i) w->w.schedule(v[i]); w->end(); CHECK(seen.size() == 400); for (int i = 0; i < 400; ++i) CHECK(seen[i].position == i + 1); return 0; }
""", 'more than 127 requests wait for an earlier one', 'the next request is not the first of the queue, and the writer waits for ever')
seed('P20-failed-unit', 'P20', [(SC, """        request->errormsg = "srcml: Unable to open file " + original_filename;
        request->unit.reset();""", """        request->errormsg = "srcml: Unable to open file " + original_filename;
        if (!request->disk_filename)
            request->unit.reset();""")], P20PRE + r"""int main() { W* w = new W(2); std::shared_ptr<ParseRequest> p = req(w->a, "a.c"); p->disk_filename = std::string("no/such/file.c"); w->q.schedule(p); w->q.schedule(req(w->a, "b.c")); w->end(); CHECK(seen.size() == 2 && seen[0].status && !seen[0].unit && !seen[1].status && seen[1].unit); return 0; }
""", 'a file that cannot be opened', 'the request that failed still has its unit when it is written')
seed('P20-count-ok', 'P20', [(WQ, """        ++position;

        // record real units written
        if (pvalue->status == SRCML_STATUS_OK)
            ++total;""", """        // record real units written
        if (pvalue->status == SRCML_STATUS_OK)
            ++total;
        else if (!ordered)
            continue;
        position = pvalue->position;""")], P20PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); TraceLog log; WriteQueue w(log, dest, false); ParseQueue q(2, &w); q.schedule(req(a, "a.c")); q.schedule(req(a, "b.c", 1)); q.schedule(req(a, "c.c")); q.wait(); w.stop(); CHECK(seen.size() == 3 && w.numWritten() == 2); return 0; }
""", 'a request that fails when the order does not matter', 'the request never reaches the writer')
seed('P20-dot-twice', 'P20', [(SC, """            it = request->filename->begin();
        }""", """            it = request->filename->begin();
            if (request->disk_filename)
                break;
        }""")], P20PRE + r"""int main() { W* w = new W(1); std::shared_ptr<ParseRequest> p = req(w->a, "././a.c"); p->disk_filename = std::string("/dev/null"); w->q.schedule(p); w->end(); CHECK(seen.size() == 1 && seen[0].filename == "a.c"); return 0; }
""", 'a file on disk whose name starts with ./ twice', 'the filename of the unit still starts with ./')
seed('P20-error-position', 'P20', [(PQ, """            next = ++counter;
        }
        pvalue->position = next;
""", """            next = counter + 1;
            if (pvalue->status != SRCML_STATUS_UNSET_LANGUAGE || !pvalue->disk_filename)
                counter = next;
        }
        pvalue->position = next;
""")], P20PRE + r"""int main() { W* w = new W(2); w->q.schedule(req(w->a, "a.c")); std::shared_ptr<ParseRequest> p = req(w->a, "b.x", SRCML_STATUS_UNSET_LANGUAGE); p->disk_filename = std::string("b.x"); w->q.schedule(p); w->q.schedule(req(w->a, "c.c")); w->end(); CHECK(seen.size() == 3); for (int i = 0; i < 3; ++i) CHECK(seen[i].position == i + 1); return 0; }
""", 'a file on disk without language between others', 'two requests have the same position and the writer waits for ever')
P11PRE = r'''#include <thread>
#include <vector>
#include <unistd.h>
static const char* const N = "int f(int a, int b) { return a * b + 1; }\n";
static std::string go(srcml_archive* a, const char* lang, const char* enc, const std::string& s) { srcml_unit* u = srcml_unit_create(a); if (lang) srcml_unit_set_language(u, lang); if (enc) srcml_unit_set_src_encoding(u, enc); std::string r = srcml_unit_parse_memory(u, s.data(), s.size()) ? "status" : srcml_unit_get_srcml(u); srcml_unit_free(u); return r; }
static std::string alone(unsigned long long opt, const char* lang, const char* enc, const std::string& s) { srcml_archive* a = srcml_archive_create(); srcml_archive_enable_option(a, opt); std::string r = go(a, lang, enc, s); srcml_archive_free(a); return r; }
'''
seed('P11-shared-digits', 'P11', [(O, 'thread_local char s[SIZE]', 'static char s[SIZE]')], P11PRE + r"""int main() { std::string s; for (int i = 0; i < 1500; ++i) s += N; std::string ref = alone(SRCML_OPTION_POSITION, "C", "UTF-8", s); int bad = 0;
for (int round = 0; round < 20 && !bad; ++round) { std::vector<std::string> r(8); std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&, i] { r[i] = alone(SRCML_OPTION_POSITION, "C", "UTF-8", s); }); for (auto& x : t) x.join(); for (auto& x : r) if (x != ref) ++bad; } CHECK(!bad); return 0; }
""", 'two threads that write position attributes at the same time', 'digits of one parse appear in the positions of the other')
seed('P11-archive-encoding', 'P11', [(U, """    bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
""", """    // only need to verify an encoding of the archive once
    if (!unit->archive->src_encoding && unit->encoding)
        unit->archive->src_encoding = unit->encoding;

    bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
""")], P11PRE + r"""int main() { srcml_archive* a = srcml_archive_create(); go(a, "C", "UTF-8", N); std::string r = go(a, "C", 0, "// \xe9\n"); CHECK(r == alone(0, "C", 0, "// \xe9\n")); srcml_archive_free(a); return 0; }
""", 'a unit without an encoding after a unit with one, in the same archive', 'the encoding of an earlier unit is used for a later unit that has none')
seed('P11-encoding-memo', 'P11', [(B, """        std::string str = name;
        std::transform(str""", """        // most often all sources have the same encoding
        static std::string last;
        static std::string normalized;
        if (last.size() > 4 && last.compare(0, 5, name, 5) == 0)
            return normalized;
        last = name;

        std::string str = name;
        std::transform(str"""), (B, """        if (search == encodingAliases.end())
            return str;

        return search->second;""", """        normalized = search == encodingAliases.end() ? str : search->second;

        return normalized;""")], P11PRE + r"""int main() { std::string s = "// \xe9\xa4\n"; std::string ref; if (access("/dev/null", 0) == 0) ref = alone(0, "C", "ISO-8859-15", "// \xe9 x\n"); std::string one = alone(0, "C", "ISO-8859-1", s), two = alone(0, "C", "ISO-8859-15", s); CHECK(two.find("\xe2\x82\xac") != std::string::npos); CHECK(one.find("\xc2\xa4") != std::string::npos); return 0; }
""", 'sources in two encodings whose names start with the same characters, one after the other', 'the second source is converted as if it had the encoding of the first')
seed('P11-position-prefix', 'P11', [(O, 'const std::string startAttribute = " "', 'static const std::string startAttribute = " "'), (O, 'const std::string endAttribute   = " "', 'static const std::string endAttribute   = " "')], P11PRE + r"""int main() { alone(SRCML_OPTION_POSITION, "C", "UTF-8", N); srcml_archive* a = srcml_archive_create(); srcml_archive_enable_option(a, SRCML_OPTION_POSITION); srcml_archive_register_namespace(a, "p", "http://www.srcML.org/srcML/position"); std::string r = go(a, "C", "UTF-8", N); CHECK(r.find(" p:start=") != std::string::npos && r.find("pos:") == std::string::npos); srcml_archive_free(a); return 0; }
""", 'positions in two archives with different prefixes for them in one process', 'the positions of the second have the prefix of the first, which is not declared')

LX = 'src/libsrcml/language_extension_registry.cpp'
seed('P18-extension-memo', 'P18', [(LX, """    // custom extensions
""", """    // often files with the same extension follow each other
    static thread_local std::string last;
    static thread_local size_t size = 0;
    static thread_local int found = 0;
    if (extension == last && size == registered_languages.size())
        return found;
    last = extension;
    size = registered_languages.size();
    found = 0;

    // custom extensions
"""), (LX, """            return get_language(registered_languages[i]) == Language""", """            return found = get_language(registered_languages[i]) == Language""")], r"""int main() {
srcml_archive* a = srcml_archive_create(); srcml_archive* b = srcml_archive_create(); srcml_archive_register_file_extension(a, "x", "C"); srcml_archive_register_file_extension(b, "x", "Java");
CHECK(eq(srcml_archive_check_extension(a, "f.x"), "C")); CHECK(eq(srcml_archive_check_extension(b, "g.x"), "Java")); CHECK(eq(srcml_archive_check_extension(a, "f.x"), "C")); return 0; }
""", 'two archives that register the same extension for different languages and look it up in turn', 'the second archive takes the language that the first registered')
XPT = 'src/libsrcml/xpathTransformation.cpp'
seed('P18-xpath-context', 'P18', [(XPT, """    std::unique_ptr<xmlXPathContext> context(createContext(doc));
    if""", """    // the functions only have to be registered once in a context
    static thread_local std::unique_ptr<xmlXPathContext> context;
    if (!context) {
        context.reset(createContext(doc));
    } else {
        context->doc = doc;
        context->node = nullptr;
    }
    if""")], r"""static int go(const char* prefix, const char* xpath) { srcml_archive* a = srcml_archive_create(); srcml_archive_register_namespace(a, prefix, "http://www.srcML.org/srcML/src"); srcml_append_transform_xpath(a, xpath); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); srcml_unit_parse_memory(u, "int a;\n", 7); srcml_transform_result* t = 0; srcml_unit_apply_transforms(a, u, &t); int n = t ? srcml_transform_get_unit_size(t) : -1; if (t) srcml_transform_free(t); srcml_unit_free(u); srcml_archive_free(a); return n; }
int main() { int alone = go("q", "//p:name"); int own = go("p", "//p:name"); CHECK(own == 2); CHECK(go("q", "//p:name") == alone); return 0; }
""", 'an archive whose XPath uses a prefix that only an earlier archive declares', 'the XPath gives results with the prefixes of the other archive')

seed('P18-xslt-parameters', 'P18', [(XT, """    std::vector<const char*> cparams(parameters.size() + 1);
""", """    // keep the space from unit to unit
    static std::vector<const char*> cparams;
    cparams.resize(parameters.size() + 1);
""")], r"""#include <thread>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
static const char* const S = "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" version=\"1.0\"><xsl:output omit-xml-declaration=\"yes\"/><xsl:param name=\"p\"/><xsl:template match=\"/\"><xsl:value-of select=\"$p\"/></xsl:template></xsl:stylesheet>";
static std::string go(const char* v, int n) { srcml_archive* a = srcml_archive_create(); srcml_append_transform_xslt_memory(a, S, strlen(S)); srcml_append_transform_stringparam(a, "p", v); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C"); srcml_unit_parse_memory(u, "a;\n", 3);
std::string r; for (int i = 0; i < n; ++i) { srcml_transform_result* t = 0; srcml_unit_apply_transforms(a, u, &t); const char* s = t ? srcml_transform_get_string(t) : 0; if (!s || strcmp(s, v)) r = s ? s : "none"; if (t) srcml_transform_free(t); } srcml_unit_free(u); srcml_archive_free(a); return r; }
int main() { pid_t c = fork(); if (!c) { std::vector<std::string> r(6); std::vector<std::thread> t; for (int i = 0; i < 6; ++i) t.emplace_back([&, i] { r[i] = go(std::string(1 + i, (char) ('a' + i)).c_str(), 3000); }); for (auto& x : t) x.join(); int bad = 0; for (auto& x : r) if (!x.empty()) bad = 1; _exit(bad); }
int st; waitpid(c, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0); return 0; }
""", 'XSLT transformations with parameters in several threads at once', 'parameters of one archive are given to the transformation of another')
