// Oracles for the native drivers, independent of the code under test: a strict XML reader, SHA-1, encoders, source generators.
#ifndef VF_NAT_H
#define VF_NAT_H
#include "vf.h"
#include <srcml.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <stdint.h>
namespace nat {
static const char SRC[] = "http://www.srcML.org/srcML/src", CPP[] = "http://www.srcML.org/srcML/cpp", POS[] = "http://www.srcML.org/srcML/position", DIFF[] = "http://www.srcML.org/srcML/diff";
// ---------------------------------------------------------------- XML
struct Attr { std::string prefix, name, uri, value; };
struct Node { std::string prefix, name, uri; std::vector<Attr> attrs; std::map<std::string, std::string> ns, scope; std::vector<Node> kids; std::string text; bool istext; size_t b0, b1, b2, b3; Node() : istext(false), b0(0), b1(0), b2(0), b3(0) {}
    const std::string* attr(const std::string& n, const std::string& u = "") const { for (size_t i = 0; i < attrs.size(); ++i) if (attrs[i].name == n && attrs[i].uri == u) return &attrs[i].value; return 0; }
    bool is(const char* n, const char* u = SRC) const { return !istext && name == n && uri == u; } };
struct Xml {
    const std::string& s; size_t p; std::string err; bool strictns; std::vector<std::pair<std::string, std::string> > pis; std::string enc; bool decl;
    explicit Xml(const std::string& x, bool strict = true) : s(x), p(0), strictns(strict), decl(false) {}
    bool fail(const std::string& e) { if (err.empty()) { char b[32]; snprintf(b, sizeof b, " at %zu", p); err = e + b; } return false; }
    bool at(const char* t) const { return s.compare(p, strlen(t), t) == 0; }
    static bool namestart(unsigned char c) { return isalpha(c) || c == '_' || c >= 0x80; }
    static bool namech(unsigned char c) { return namestart(c) || isdigit(c) || c == '-' || c == '.'; }
    void ws() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) ++p; }
    bool ncname(std::string& o) { o.clear(); if (p >= s.size() || !namestart(s[p])) return fail("name expected"); while (p < s.size() && namech(s[p])) o += s[p++]; return true; }
    bool qname(std::string& pre, std::string& n) { pre.clear(); if (!ncname(n)) return false; if (p < s.size() && s[p] == ':') { ++p; pre = n; return ncname(n); } return true; }
    static void put(std::string& o, unsigned long c) { if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); } else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); } else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); } }
    static bool legal(unsigned long c) { return c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xD7FF) || (c >= 0xE000 && c <= 0xFFFD) || (c >= 0x10000 && c <= 0x10FFFF); }
    bool ent(std::string& o) {
        size_t e = s.find(';', p); if (e == std::string::npos || e - p > 12) return fail("unterminated entity");
        std::string n = s.substr(p + 1, e - p - 1); p = e + 1;
        if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
        else if (n.size() > 1 && n[0] == '#') { char* z; unsigned long c = n[1] == 'x' ? strtoul(n.c_str() + 2, &z, 16) : strtoul(n.c_str() + 1, &z, 10); if (*z || !legal(c)) return fail("bad character reference"); put(o, c); }
        else return fail("unknown entity " + n);
        return true; }
    bool chr(std::string& o) { // one character of text, UTF-8 checked
        unsigned char c = s[p]; unsigned long v; int k = 0;
        if (c < 0x80) v = c; else if (c >= 0xC2 && c < 0xE0) { v = c & 31; k = 1; } else if (c >= 0xE0 && c < 0xF0) { v = c & 15; k = 2; } else if (c >= 0xF0 && c < 0xF5) { v = c & 7; k = 3; } else return fail("not UTF-8");
        if (p + k >= s.size() + 0 && k) return fail("truncated UTF-8");
        for (int i = 1; i <= k; ++i) { unsigned char d = s[p + i]; if ((d & 0xC0) != 0x80) return fail("not UTF-8"); v = v << 6 | (d & 63); }
        if (!legal(v)) return fail("character not allowed in XML");
        o.append(s, p, k + 1); p += k + 1; return true; }
    bool attval(std::string& o) { o.clear(); if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) return fail("quote expected"); char q = s[p++];
        while (p < s.size() && s[p] != q) { if (s[p] == '<') return fail("< in attribute"); if (s[p] == '&') { if (!ent(o)) return false; } else if (s[p] == '\n' || s[p] == '\t' || s[p] == '\r') { o += ' '; ++p; } else if (!chr(o)) return false; }
        if (p >= s.size()) return fail("unterminated attribute"); ++p; return true; }
    bool element(Node& n, std::map<std::string, std::string> scope, int depth) {
        if (depth > 3000) return fail("too deep");
        n.b0 = p; ++p; if (!qname(n.prefix, n.name)) return false;
        std::set<std::string> seen;
        for (;;) { size_t w = p; ws(); if (p >= s.size()) return fail("unterminated tag"); if (s[p] == '>' || s[p] == '/') break; if (w == p) return fail("space expected before attribute");
            Attr a; if (!qname(a.prefix, a.name)) return false; ws(); if (p >= s.size() || s[p] != '=') return fail("= expected"); ++p; ws(); if (!attval(a.value)) return false;
            if (!seen.insert(a.prefix + ":" + a.name).second) return fail("attribute twice: " + a.prefix + ":" + a.name);
            if (a.prefix.empty() && a.name == "xmlns") { n.ns[""] = a.value; scope[""] = a.value; }
            else if (a.prefix == "xmlns") { if (a.value.empty()) return fail("empty namespace"); n.ns[a.name] = a.value; scope[a.name] = a.value; }
            else n.attrs.push_back(a); }
        scope["xml"] = "http://www.w3.org/XML/1998/namespace";
        if (scope.count(n.prefix)) n.uri = scope[n.prefix]; else if (!n.prefix.empty() && strictns) return fail("undeclared prefix " + n.prefix);
        for (size_t i = 0; i < n.attrs.size(); ++i) if (!n.attrs[i].prefix.empty()) { if (scope.count(n.attrs[i].prefix)) n.attrs[i].uri = scope[n.attrs[i].prefix]; else if (strictns) return fail("undeclared prefix " + n.attrs[i].prefix); }
        n.scope = scope;
        if (s[p] == '/') { ++p; if (p >= s.size() || s[p] != '>') return fail("> expected"); ++p; n.b1 = n.b2 = n.b3 = p; return true; }
        ++p; n.b1 = p;
        for (;;) {
            if (p >= s.size()) return fail("unterminated element " + n.name);
            if (at("</")) { n.b2 = p; p += 2; std::string q, m; if (!qname(q, m)) return false; if (q != n.prefix || m != n.name) return fail("end tag " + m + " for " + n.name); ws(); if (p >= s.size() || s[p] != '>') return fail("> expected"); ++p; n.b3 = p; return true; }
            if (at("<!--")) { size_t e = s.find("-->", p); if (e == std::string::npos) return fail("comment"); p = e + 3; continue; }
            if (at("<?")) { size_t e = s.find("?>", p); if (e == std::string::npos) return fail("pi"); p = e + 2; continue; }
            if (at("<![CDATA[")) { size_t e = s.find("]]>", p); if (e == std::string::npos) return fail("cdata"); Node t; t.istext = true; t.text = s.substr(p + 9, e - p - 9); n.kids.push_back(t); p = e + 3; continue; }
            if (s[p] == '<') { n.kids.push_back(Node()); if (!element(n.kids.back(), scope, depth + 1)) return false; continue; }
            Node t; t.istext = true; t.b0 = p; if (!n.kids.empty() && n.kids.back().istext) { t = n.kids.back(); n.kids.pop_back(); }
            while (p < s.size() && s[p] != '<') { if (at("]]>")) return fail("]]> in text"); if (s[p] == '&') { if (!ent(t.text)) return false; } else if (s[p] == '\r') { t.text += '\n'; ++p; if (p < s.size() && s[p] == '\n') ++p; } else if (!chr(t.text)) return false; }
            t.b3 = p; n.kids.push_back(t); } }
    // a whole document
    bool document(Node& root) {
        if (at("<?xml ")) { decl = true; size_t e = s.find("?>", p); if (e == std::string::npos) return fail("xml declaration"); std::string d = s.substr(p, e - p); size_t q = d.find("encoding=\""); if (q != std::string::npos) enc = d.substr(q + 10, d.find('"', q + 10) - q - 10); p = e + 2; }
        for (;;) { ws(); if (at("<?")) { size_t e = s.find("?>", p); if (e == std::string::npos) return fail("pi"); std::string d = s.substr(p + 2, e - p - 2); size_t q = d.find(' '); pis.push_back(std::make_pair(d.substr(0, q), q == std::string::npos ? "" : d.substr(q + 1))); p = e + 2; } else if (at("<!--")) { size_t e = s.find("-->", p); if (e == std::string::npos) return fail("comment"); p = e + 3; } else break; }
        if (p >= s.size() || s[p] != '<') return fail("root element expected");
        std::map<std::string, std::string> sc; if (!element(root, sc, 0)) return false;
        ws(); while (at("<!--")) { size_t e = s.find("-->", p); if (e == std::string::npos) return fail("comment"); p = e + 3; ws(); }
        if (p != s.size()) return fail("content after the root element"); return true; }
};
static inline bool xml(const std::string& s, Node& root, std::string* err = 0, bool strict = true) { Xml x(s, strict); bool b = x.document(root); if (err) *err = x.err; return b; }
// content of an element without its tag (namespace prefixes not checked)
static inline bool fragment(const std::string& s, Node& root, std::string* err = 0) { std::string t = "<x>" + s + "</x>"; return xml(t, root, err, false); }
// the source text of an element: character data and <escape char=".."/>
static inline void source(const Node& n, std::string& o) { if (n.istext) { o += n.text; return; } if (n.name == "escape") { const std::string* v = n.attr("char"); if (v) o += (char) strtol(v->c_str(), 0, 16); } for (size_t i = 0; i < n.kids.size(); ++i) source(n.kids[i], o); }
static inline std::string source(const Node& n) { std::string o; source(n, o); return o; }
static inline std::string escape(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) switch (s[i]) { case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; default: o += s[i]; } return o; }
// structure without text, for comparisons: name(attrs)[kids]
static inline void shape(const Node& n, std::string& o) { if (n.istext) { o += "'" + n.text + "'"; return; } o += n.uri + "|" + n.name + "("; std::map<std::string, std::string> m; for (size_t i = 0; i < n.attrs.size(); ++i) m[n.attrs[i].uri + "|" + n.attrs[i].name] = n.attrs[i].value; for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) o += i->first + "=" + i->second + ","; o += ")["; for (size_t i = 0; i < n.kids.size(); ++i) shape(n.kids[i], o); o += "]"; }
static inline std::string shape(const Node& n) { std::string o; shape(n, o); return o; }
// ---------------------------------------------------------------- SHA-1 (FIPS 180-4)
static inline std::string sha1(const std::string& in) {
    uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 }; std::string m = in; uint64_t bits = (uint64_t) in.size() * 8; m += (char) 0x80; while (m.size() % 64 != 56) m += (char) 0; for (int i = 7; i >= 0; --i) m += (char) (bits >> (8 * i));
    for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[80]; for (int i = 0; i < 16; ++i) w[i] = (uint32_t) (unsigned char) m[o + 4 * i] << 24 | (uint32_t) (unsigned char) m[o + 4 * i + 1] << 16 | (uint32_t) (unsigned char) m[o + 4 * i + 2] << 8 | (unsigned char) m[o + 4 * i + 3];
        for (int i = 16; i < 80; ++i) { uint32_t x = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]; w[i] = x << 1 | x >> 31; }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; ++i) { uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t t = (a << 5 | a >> 27) + f + e + k + w[i]; e = d; d = c; c = b << 30 | b >> 2; b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    char r[41]; snprintf(r, sizeof r, "%08x%08x%08x%08x%08x", h[0], h[1], h[2], h[3], h[4]); return r; }
// ---------------------------------------------------------------- encodings
static inline std::vector<unsigned long> utf8(const std::string& s) { std::vector<unsigned long> v; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int k = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; unsigned long x = k == 0 ? c : c & (0x3F >> k); for (int j = 1; j <= k && i + j < s.size(); ++j) x = x << 6 | (s[i + j] & 63); v.push_back(x); i += k + 1; } return v; }
static inline bool latin1(const std::string& s) { std::vector<unsigned long> v = utf8(s); for (size_t i = 0; i < v.size(); ++i) if (v[i] > 0xFF) return false; return true; }
static inline std::string encode(const std::string& s, const std::string& enc) { // from UTF-8
    if (enc == "UTF-8") return s;
    std::vector<unsigned long> v = utf8(s); std::string o;
    for (size_t i = 0; i < v.size(); ++i) { unsigned long c = v[i];
        if (enc == "ISO-8859-1") o += (char) c;
        else if (enc == "UTF-16LE" || enc == "UTF-16BE") { unsigned long u[2]; int n = 1; if (c >= 0x10000) { c -= 0x10000; u[0] = 0xD800 | c >> 10; u[1] = 0xDC00 | (c & 0x3FF); n = 2; } else u[0] = c; for (int j = 0; j < n; ++j) { if (enc == "UTF-16LE") { o += (char) u[j]; o += (char) (u[j] >> 8); } else { o += (char) (u[j] >> 8); o += (char) u[j]; } } }
        else if (enc == "UTF-32LE") for (int j = 0; j < 4; ++j) o += (char) (c >> (8 * j)); else if (enc == "UTF-32BE") for (int j = 3; j >= 0; --j) o += (char) (c >> (8 * j)); }
    return o; }
// a document in ISO-8859-1 as UTF-8
static inline std::string utf8doc(const std::string& d) { size_t e = d.find("?>"); if (e == std::string::npos || d.substr(0, e).find("encoding=\"ISO-8859-1\"") == std::string::npos) return d; std::string o; for (size_t i = 0; i < d.size(); ++i) { unsigned char c = d[i]; if (c < 0x80) o += (char) c; else { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); } } return o; }
// numeric character references (of an XML encoding without these characters) replaced
static inline std::string unref(const std::string& d) { std::string o; for (size_t i = 0; i < d.size(); ++i) { if (d.compare(i, 2, "&#") == 0) { bool h = d[i + 2] == 'x'; size_t e = d.find(';', i); unsigned long c = strtoul(d.c_str() + i + (h ? 3 : 2), 0, h ? 16 : 10); if (c >= 0x80) { Xml::put(o, c); i = e; continue; } } o += d[i]; } return o; }
static inline std::string eol(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; } else o += s[i]; return o; }
// ---------------------------------------------------------------- random choices that are recorded
static inline int pick(const char* n, int k) { return vf_irange(n, 0, k - 1); }
#define PICK(n, arr) (arr)[nat::pick(n, sizeof(arr) / sizeof *(arr))]
static const char* const LANGS[] = { "C", "C++", "Java", "C#", "Objective-C" };
static inline std::string scratch() { static std::string d; if (d.empty()) { char t[] = "/tmp/vfnatXXXXXX"; d = mkdtemp(t); } return d; }
static inline std::string slurp(const std::string& f) { FILE* x = fopen(f.c_str(), "rb"); std::string s; if (!x) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, x)) > 0) s.append(b, n); fclose(x); return s; }
static inline void spit(const std::string& f, const std::string& s) { FILE* x = fopen(f.c_str(), "wb"); if (s.size()) fwrite(s.data(), 1, s.size(), x); fclose(x); }
struct Scratch { std::string f; explicit Scratch(const char* n) { char b[64]; snprintf(b, sizeof b, "/tmp/vfnat-%d-%s", (int) getpid(), n); f = b; unlink(b); } ~Scratch() { unlink(f.c_str()); } };
// ---------------------------------------------------------------- source code
static const char* const SNIP_C[] = {
    "int a;\n", "a = b + c * d;\n", "if (a < b && c > d) { f(a, &b); } else g();\n", "for (int i = 0; i < 10; ++i)\n\tsum += i;\n", "while (x) { --x; if (y) break; else continue; }\n", "do { a(); } while (b);\n", "switch (x) { case 1: f(); break; case 'a': default: g(); }\n",
    "struct s { int a; char* b[10]; };\n", "typedef unsigned long ulong_t;\n", "enum e { A, B = 2, C };\n", "void f(int a, const char* b) { return; }\n", "static inline int g(void);\n", "/* block <comment> & */\n", "// line comment \"x\" 'y'\n", "/** doxygen */\n", "char* s = \"a\\\"b\\n<&>\";\n", "char c = '\\'';\n",
    "#include <stdio.h>\n", "#define M(a, b) ((a) < (b) ? (a) : (b))\n", "#if 0\nnot code <\n#endif\n", "#ifdef A\nint x;\n#else\nint y;\n#endif\n", "#if defined(A) && B > 2\nf();\n#elif C\ng();\n#endif\n", "#pragma once\n", "#define EMPTY\n", "#undef X\n", "label: goto label;\n", "int (*fp)(int, char) = &f;\n", "x->y.z[3]++;\n", "a <<= 2; b >>= 3;\n", "return a ? b : c;\n", "int a[] = { 1, 2, 3 };\n", "sizeof(int);\n", "extern \"C\" { int a; }\n", "(void) x;\n", "#line 5 \"f.c\"\n", "#error bad\n", "union u { int a; float b; };\n", "a\\\nb;\n", "#define L a \\\n b\n", ";;\n", "{ }\n", "0x1Fu + 1.5e-3f;\n" };
static const char* const SNIP_CXX[] = {
    "class A : public B { public: A() : x(0) {} virtual ~A(); private: int x; };\n", "template <typename T, int N> T f(T a) { return a; }\n", "namespace n { int a; }\n", "using namespace std;\n", "try { f(); } catch (const std::exception& e) { throw; } catch (...) {}\n", "auto l = [&](int a) -> int { return a; };\n", "std::vector<std::vector<int>> v;\n", "A<B<C>, (1 > 2)> x;\n", "R\"(raw \" string)\";\n", "R\"d(a)\" )d\";\n", "operator bool() const;\n", "A& operator=(const A&) = delete;\n", "for (auto& x : v) { }\n", "const char* u = u8\"x\";\n", "friend class F;\n", "explicit A(int);\n", "static_cast<int>(x);\n", "new A[3]; delete[] p;\n", "enum class E : char { A };\n", "decltype(a) b;\n", "int a{3};\n", "A::B::c();\n", "[[noreturn]] void f();\n", "constexpr int k = 1'000;\n", "nullptr;\n", "static_assert(sizeof(int) == 4, \"x\");\n", "class A;\n", "public:\n", "a < b > c;\n" };
static const char* const SNIP_JAVA[] = {
    "package a.b;\n", "import java.util.*;\n", "public class A extends B implements C, D { private int x = 1; public A() { super(); } }\n", "@Override public String toString() { return \"x\" + 1; }\n", "interface I { void f(); }\n", "for (String s : list) System.out.println(s);\n", "try { f(); } catch (Exception e) { } finally { g(); }\n", "List<Map<String, Integer>> l = new ArrayList<>();\n", "synchronized (this) { }\n", "enum E { A, B; }\n", "int[] a = new int[5];\n", "@interface X { }\n", "assert x > 0 : \"m\";\n", "throw new E();\n", "x -> x + 1;\n", "final int y;\n", "static { }\n", "char c = '\\u0041';\n", "<T> void m() { }\n", "import static a.b;\n" };
static const char* const SNIP_CS[] = {
    "using System;\n", "namespace N { class A : B { public int X { get; set; } } }\n", "foreach (var x in y) { }\n", "from a in b where a > 1 select a;\n", "@\"verbatim \"\" string\";\n", "delegate void D(int a);\n", "event E e;\n", "lock (x) { }\n", "using (var f = g()) { }\n", "checked { a++; }\n", "unsafe { int* p; }\n", "fixed (int* p = q) { }\n", "[Attr] public void F(ref int a, out int b) { }\n", "a ?? b;\n", "#region R\n#endregion\n", "x => x + 1;\n", "yield return 1;\n", "var a = new { b = 1 };\n", "public static implicit operator A(B b) { }\n", "this[int i] { get { return 1; } }\n", "where T : class\n", "stackalloc int[3];\n" };
static const char* const SNIP_OBJC[] = {
    "#import <Foundation/Foundation.h>\n", "@interface A : B <P> { int x; }\n- (void) f: (int) a b: (int) c;\n@end\n", "@implementation A\n- (id) init { self = [super init]; return self; }\n@end\n", "[obj msg: a with: b];\n", "@property (nonatomic) int x;\n", "@protocol P\n@end\n", "NSString* s = @\"x\";\n", "@try { } @catch (E* e) { } @finally { }\n", "@selector(f:);\n", "@synthesize x = y;\n", "@class A;\n", "id x = ^{ };\n" };
static const char* const BITS[] = { "<", ">", "&", "\"", "'", "(", ")", "{", "}", "[", "]", ";", ":", ",", ".", "=", "+", "-", "*", "/", "%", "!", "~", "^", "|", "?", "#", "@", "$", "\\", "`", "_", "a", "if", "else", "for", "while", "class", "struct", "return", "template", "int", "operator", "::", "->", "//", "/*", "*/", "\n", "\r\n", "\r", "\t", " ", "  ", "\\\n", "\"s\"", "'c'", "0", "1.5", "<<", ">>", "&&", "||", "==", "<=", ">=", "...", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x01", "\x0c", "\x0b", "\x1b", "\x7f", "#if A\n", "#endif\n", "\n#define x", "#include <a>", "public", "case", "default", "do", "try", "catch", "namespace", "using", "enum", "static", "const", "void", "goto", "break", "switch", "extern", "typedef", "union", "new", "delete", "this", "virtual", "friend", "throw" };
// white space and comments between tokens
static inline std::string gap(const char* n, bool need = false) {
    switch (pick(n, 14)) { case 0: return "\n"; case 1: return "\t"; case 2: return "  "; case 3: return " /* c < & */ "; case 4: return " // l > \xc3\xa9\n"; case 5: return "\r\n"; case 6: return "\r"; case 7: return "\n\n   "; case 8: return " /** d \"'\n * x */\n"; case 9: return need ? " " : ""; default: return " "; } }
static inline std::string ident(const char* n) { static const char* const I[] = { "a", "b", "x1", "foo", "Bar", "_z", "value", "\xc3\xa9t\xc3\xa9", "veryLongIdentifierName_0123456789", "T" }; return PICK(n, I); }
static inline std::string litchars(const char* n, char q) { static const char* const C[] = { "a", " ", "<", ">", "&", "\\n", "\\\\", "\\\"", "\\'", "\xc3\xa9", "\xe2\x82\xac", "%d", "\x01", "/*", "//", "#", "]]>", "&amp;", "\t", "0" }; std::string s; int m = vf_irange(n, 0, 5); for (; m; --m) { std::string t = PICK(n, C); if (pick(n, 5) == 0) { std::string x = vf_text(n); t = ""; for (size_t i = 0; i < x.size() && t.size() < 60; ++i) if (x[i] != q && x[i] != '\n' && x[i] != '\r' && x[i] != '\\') t += x[i]; while (!t.empty() && (t[t.size() - 1] & 0x80)) t.erase(t.size() - 1); } if (t[0] != q) s += t; } return s; }
static inline std::string expr(const char* n, const std::string& lang, int d) {
    int k = d > 3 ? pick(n, 5) : pick(n, 16);
    switch (k) {
        case 0: case 1: return ident(n);
        case 2: { static const char* const N[] = { "0", "42", "0x1F", "1.5", "1e10", "10L", "077" }; return PICK(n, N); }
        case 3: return "\"" + litchars(n, '"') + "\"";
        case 4: { static const char* const C[] = { "'a'", "'\\n'", "'\\''", "'<'", "'&'", "'\"'" }; return PICK(n, C); }
        case 5: case 6: case 7: { static const char* const O[] = { "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "&", "|", "^", "<<", ">>" }; std::string l = expr(n, lang, d + 1), o = PICK(n, O); return l + " " + o + gap(n, true) + expr(n, lang, d + 1); }
        case 8: return "(" + gap(n) + expr(n, lang, d + 1) + gap(n) + ")";
        case 9: { std::string s = ident(n) + "("; int m = vf_irange(n, 0, 3); for (int i = 0; i < m; ++i) { if (i) s += ", "; s += expr(n, lang, d + 1); } return s + ")"; }
        case 10: return ident(n) + "[" + expr(n, lang, d + 1) + "]";
        case 11: return ident(n) + "." + ident(n);
        case 12: { static const char* const U[] = { "!", "-", "~", "++", "--" }; std::string u = PICK(n, U); return u + ident(n); }
        case 13: return ident(n) + (vf_bool(n) ? "++" : "--");
        case 14: return ident(n) + " ? " + expr(n, lang, d + 1) + " : " + expr(n, lang, d + 1);
        default: return lang == "Java" || lang == "C#" ? "new " + ident(n) + "(" + expr(n, lang, d + 1) + ")" : lang == "C++" ? ident(n) + "::" + ident(n) + "(" + expr(n, lang, d + 1) + ")" : ident(n) + "->" + ident(n); } }
static inline std::string stmt(const char* n, const std::string& lang, int d);
static inline std::string block(const char* n, const std::string& lang, int d) { std::string s = "{" + gap(n); int m = vf_irange(n, 0, 3); for (; m; --m) s += stmt(n, lang, d + 1) + gap(n); return s + "}"; }
static inline std::string stmt(const char* n, const std::string& lang, int d) {
    static const char* const T[] = { "int", "char", "float", "double", "long" }; std::string g = gap(n);
    int k = d > 3 ? pick(n, 4) : pick(n, 15);
    switch (k) {
        case 0: return expr(n, lang, 1) + gap(n) + ";";
        case 1: return ident(n) + " = " + expr(n, lang, 0) + ";";
        case 2: { std::string t = PICK(n, T); return t + g + (g.empty() ? " " : "") + ident(n) + (vf_bool(n) ? " = " + expr(n, lang, 1) : "") + ";"; }
        case 3: { static const char* const B[] = { "break;", "continue;", "return;", ";" }; return PICK(n, B); }
        case 4: return "if" + g + "(" + expr(n, lang, 1) + ")" + gap(n) + block(n, lang, d);
        case 5: return "if (" + expr(n, lang, 1) + ") " + stmt(n, lang, d + 2) + g + "\nelse " + block(n, lang, d);
        case 6: return "while (" + expr(n, lang, 1) + ")" + g + block(n, lang, d);
        case 7: return "for (int i = 0; " + expr(n, lang, 2) + ";" + g + "++i)" + gap(n) + block(n, lang, d);
        case 8: return "do " + block(n, lang, d) + g + "while (" + expr(n, lang, 1) + ");";
        case 9: { std::string s = "switch (" + expr(n, lang, 1) + ") {\n"; int m = vf_irange(n, 0, 2); for (int i = 0; i < m; ++i) { char b[24]; snprintf(b, sizeof b, "case %d:", i); s += b + gap(n) + stmt(n, lang, d + 2) + " break;\n"; } return s + "default: ;\n}"; }
        case 10: return "return " + expr(n, lang, 0) + ";";
        case 11: return "// " + litchars(n, '\n') + "\n";
        case 12: return "/*" + litchars(n, '/') + "*/";
        case 13: if (lang == "Java") return "try { } finally { }"; if (lang == "C++" || lang == "C#") return "try " + block(n, lang, d) + " catch (" + (lang == "C++" ? "E& e" : "E e") + ") { }"; return "\n#define M " + expr(n, lang, 2) + "\n";
        default: if (lang == "Java") return "int[] q = new int[3];"; return "\n#ifdef A" + std::string(vf_bool(n) ? " /* c */" : "") + "\n" + stmt(n, lang, d + 2) + "\n#else\n" + stmt(n, lang, d + 2) + "\n#endif\n"; } }
static inline std::string func(const char* n, const std::string& lang) {
    std::string f = "int " + ident(n) + "(int a, char b)" + gap(n) + block(n, lang, 0);
    if (lang == "Java" || lang == "C#") return "public class " + ident(n) + " {" + gap(n) + f + gap(n) + "}";
    if (lang == "C++" && vf_bool(n)) return "class " + ident(n) + gap(n, true) + "{ public: " + f + gap(n) + "};";
    return f; }
// source code of a language: complete statements and declarations
static inline std::string code(const char* name, const std::string& lang, int maxn = 6) {
    std::string s; int n = vf_irange(name, 0, maxn);
    for (; n; --n) {
        int k = pick(name, 6);
        if (k == 5) s += func(name, lang) + "\n"; else if (k == 4) s += stmt(name, lang, 0) + "\n";
        else if (k < 2 || lang == "Java" || lang == "C#") s += lang == "Java" ? PICK(name, SNIP_JAVA) : lang == "C#" ? PICK(name, SNIP_CS) : lang == "Objective-C" ? PICK(name, SNIP_OBJC) : lang == "C++" ? PICK(name, SNIP_CXX) : PICK(name, SNIP_C);
        else s += PICK(name, SNIP_C); }
    switch (pick(name, 6)) { case 0: if (!s.empty() && s[s.size() - 1] == '\n') s.erase(s.size() - 1); break; case 1: { std::string t; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\n') t += '\r'; t += s[i]; } s = t; } break; default: break; }
    return s; }
static inline std::string str(const char* p) { return p ? p : ""; }
}
#endif
