// P10: the text of the markup is the source: parsing loses nothing, adds nothing, reorders nothing.
#include "nat.h"
#ifdef VF_NATIVE
using namespace nat;
static std::string inner(srcml_archive* a, const std::string& lang, const std::string& s, const char* enc, int* st) {
    srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, lang.c_str()); srcml_unit_set_src_encoding(u, enc);
    *st = srcml_unit_parse_memory(u, s.data(), s.size());
    std::string r = str(srcml_unit_get_srcml_inner(u)); srcml_unit_free(u); return r; }
static void lossless(const char* n) {
    std::string lang = PICK("lang", LANGS), s = code(n, lang);
    vf_assume(!s.empty());
    srcml_archive* a = srcml_archive_create();
    static const unsigned long long OPT[] = { 0, SRCML_OPTION_POSITION, SRCML_OPTION_CPP, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_POSITION | SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0 };
    srcml_archive_set_options(a, PICK("opt", OPT));
    int st; std::string r = inner(a, lang, s, "UTF-8", &st); srcml_archive_free(a);
    vf_assert(st == SRCML_STATUS_OK, "any source text parses");
    Node x; std::string err; bool ok = fragment(r, x, &err);
    if (!ok && getenv("VF_STDERR")) fprintf(stderr, "XML %s\n%s\n", err.c_str(), r.c_str());
    vf_assert(ok, "the markup of any source is well-formed");
    std::string got = source(x), want = eol(s);
    if (got != want && getenv("VF_STDERR")) fprintf(stderr, "SRC [%s]\nGOT [%s]\n%s\n", want.c_str(), got.c_str(), r.c_str());
    vf_assert(got == want, "the text of the markup is the source");
    vf_reach("end");
}
VF_NATIVE_HARNESS(lossless_statements) { lossless("code"); }
// any text inside comments, strings and preprocessor lines
VF_NATIVE_HARNESS(lossless_text) {
    std::string lang = PICK("lang", LANGS), t = vf_text("text"), s; bool pp = lang != "Java";
    std::string l = t; for (size_t i = 0; i < l.size(); ++i) if (l[i] == '\n' || l[i] == '\r') l[i] = ' ';
    std::string q = l; for (size_t i = 0; i < q.size(); ++i) if (q[i] == '"') q[i] = '\'';
    std::string c = t; for (size_t i = 0; i + 1 < c.size(); ++i) if (c[i] == '*' && c[i + 1] == '/') c[i] = ' '; if (!c.empty() && (c[c.size() - 1] == '*')) c += ' '; if (!c.empty() && c[0] == '/') c[0] = ' ';
    bool cxx = lang == "C++"; std::string rs = t; for (size_t i = 0; i < rs.size(); ++i) if (rs[i] == ')' || rs[i] == '"') rs[i] = '.';
    std::string one = q; for (size_t i = 0; i < one.size(); ++i) if (one[i] == '\'') one[i] = '`';
    switch (pick("where", 12)) {
        case 0: s = "a; // " + l + "\nb;"; break; case 1: s = "a; /*" + c + "*/ b;"; break; case 2: s = "f(\"" + q + "\");\n"; break; case 3: s = pp ? "#define A \"" + q + "\"\nb;\n" : "// " + l; break; case 4: s = "/** " + c + "*/\nint a;\n"; break;
        case 5: s = "a; // " + l; break; case 6: s = "a; /// " + l + "\nb;\n"; break; case 7: s = "char c = '" + one + "';\n"; break; case 8: s = cxx ? "f(R\"d(" + rs + ")d\");\nb;\n" : "a;\n"; break;
        case 9: s = pp ? "#pragma " + l + "\nb;\n" : "b;"; break; case 10: s = "/*! " + c + "*/ a; \t" + std::string(vf_irange("spaces", 0, 40), ' ') + "\n\n\t// " + l + "\n"; break;
        default: s = "a\x0c; \x01 b;\x1f\n" "c /*\x02" + c + "*/;\n"; }
    srcml_archive* a = srcml_archive_create(); int st; std::string r = inner(a, lang, s, "UTF-8", &st); srcml_archive_free(a);
    Node x; vf_assert(st == 0 && fragment(r, x), "the markup of any text in comments and strings is well-formed");
    if (source(x) != eol(s) && getenv("VF_STDERR")) fprintf(stderr, "SRC [%s]\nGOT [%s]\n", s.c_str(), source(x).c_str());
    vf_assert(source(x) == eol(s), "the text of the markup is the text");
    vf_reach("end");
}
// tokens longer than any buffer
VF_NATIVE_HARNESS(lossless_long) {
    static const int L[] = { 1000, 4090, 4096, 4100, 8192, 16384, 32760, 32768, 40000, 65530, 65536, 70000, 140000 };
    std::string lang = PICK("lang", LANGS), t; int n = PICK("length", L), k = pick("kind", 5); bool mark = vf_bool("markup");
    for (int i = 0; (int) t.size() < n; ++i) t += mark && i % 50 == 7 ? "<" : i % 97 == 3 ? "\xc3\xa9" : std::string(1, (char) ('a' + i % 26));
    std::string id = t; for (size_t i = 0; i < id.size(); ++i) if (id[i] == '<') id[i] = '_';
    std::string s = k == 0 ? "f(\"" + t + "\");\n" : k == 1 ? "a; /* " + t + " */ b;\n" : k == 2 ? "a; // " + t + "\nb;\n" : k == 3 ? id + " = b;\n" : "a;" + std::string(n, ' ') + "b;\n";
    srcml_archive* a = srcml_archive_create(); int st; std::string r = inner(a, lang, s, "UTF-8", &st); srcml_archive_free(a);
    Node x; vf_assert(st == 0 && fragment(r, x), "the markup of a long token is well-formed");
    vf_assert(source(x) == s, "the text of the markup is the text");
    vf_reach("end");
}
#endif
