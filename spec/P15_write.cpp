// P15: writing a unit writes one start tag with the unit's attributes, exactly its contents, and one end tag.
#include "api.h"
#ifndef VF_NATIVE
#include <new>
template<class T> static void none(boost::optional<T>* o) { new (o) boost::optional<T>(); }
extern "C" bool vg_copy_of(const void* x, const void* y);
static srcml_translator* g_t; static const srcml_unit* g_u; static int g_step; static int g_prepared, g_separators; static const char* g_raw; static int g_rawn; static bool g_archive, g_merged;
extern "C" void vgs_prepare(srcml_translator* t) { vf_assert((t == g_t) & (g_step == 0), "the root is written first"); ++g_prepared; }
extern "C" void vgs_separator(srcMLOutput* o) { vf_assert((o == &g_t->out) & (g_step == 0), "a separator comes before the unit"); ++g_separators; }
extern "C" const void* vgs_merge(void* x, const void* y) { vf_assert((y == &*g_u->namespaces) & (g_step == 0), "the namespaces of the unit are added"); g_merged = true; return x; }
extern "C" void vgs_init_namespaces(srcMLOutput* o, const void* ns) { vf_assert((o == &g_t->out) & (g_step == 0), "the namespaces are set before the unit"); vf_assert(vg_copy_of(ns, &g_u->archive->namespaces), "the namespaces of the unit's archive are used"); vf_assert(g_merged == (bool) g_u->namespaces, "the namespaces of the unit are used"); g_step = 1; }
static const char* c(const boost::optional<std::string>& o) { return o ? o->c_str() : 0; }
static const char* g_language;
extern "C" void vgs_start_unit(srcMLOutput* o, const char* language, const char* revision, const char* url, const char* filename, const char* version, const char* timestamp, const char* hash, const char* encoding, const void* attributes, bool macros) {
    vf_assert((o == &g_t->out) & (g_step == 1), "one unit is started"); g_step = 2; const srcml_unit* u = g_u;
    if (u->language) vf_assert(vf_streq(language, c(u->language)), "the language of the unit is written");
    vf_assert(vf_streq(filename, c(u->filename)), "the filename of the unit is written"); vf_assert(vf_streq(version, c(u->version)), "the version of the unit is written"); vf_assert(vf_streq(timestamp, c(u->timestamp)), "the timestamp of the unit is written"); vf_assert(vf_streq(hash, c(u->hash)), "the hash of the unit is written"); vf_assert(vf_streq(encoding, c(u->encoding)), "the encoding of the unit is written");
    vf_assert(vf_streq(url, g_archive ? 0 : c(u->url)), "the url of a unit is written only in a solitary document"); vf_assert(vf_streq(revision, g_archive && u->revision ? c(u->revision) : g_t->revision), "the revision of the unit is written"); vf_assert((attributes == &u->attributes) & !macros, "the other attributes of the unit are written"); }
extern "C" int vgs_raw(xmlTextWriterPtr w, const char* s, int n) { vf_assert((w == g_t->out.xout) & (g_step == 2), "the contents are written once, inside the unit"); g_step = 3; g_raw = s; g_rawn = n; return 0; }
extern "C" int vgs_end(xmlTextWriterPtr w) { vf_assert((w == g_t->out.xout) & ((g_step == 2) | (g_step == 3)), "the unit is ended once"); if (g_step == 2) g_rawn = 0; g_step = 4; return 0; }
extern "C" void vgs_language(void*) { }
static srcml_unit* start(int field) {
    g_t = (srcml_translator*) vf_object("translator", sizeof(srcml_translator)); srcml_unit* u = arb_unit(); g_u = u; g_step = g_prepared = g_separators = 0; g_merged = false; none(&u->archive->revision_number); OPTION_TYPE op = g_t->options = vf_u64("options"); g_archive = (op & SRCML_OPTION_ARCHIVE) > 0;
    // all attributes but one (each in turn) are absent
    if (field != 0) none(&u->filename); if (field != 1) none(&u->version); if (field != 2) none(&u->timestamp); if (field != 3) none(&u->hash); if (field != 4) none(&u->encoding); if (field != 5) none(&u->url); if (field != 6) none(&u->revision); if (field != 7) none(&u->namespaces); vf_assume((bool) u->language);
    u->content_begin = (int) vf_size("begin", 0, 1u << 30); int n = vf_irange("n", 0, 1 << 30); u->content_end = u->content_begin + n + 1; if (n == 0 && vf_bool("empty")) u->content_end = u->content_begin; u->srcml = vf_cstr("text"); vf_assume(u->srcml.size() < (1u << 31) - 1); vf_assume((size_t) u->content_begin + n < u->srcml.size()); return u; }
static void add(int field) {
    srcml_unit* u = start(field); bool busy = g_t->is_outputting_unit; const char* text = u->srcml.c_str(); int begin = u->content_begin, n = u->content_end - u->content_begin - 1; if (n < 0) n = 0;
    bool r = g_t->add_unit(u);
    vf_assert(r == !busy, "a unit is written unless one is being written"); if (busy) { vf_assert((g_step == 0) & (g_prepared == 0), "nothing is written inside another unit"); vf_reach("busy"); return; }
    vf_assert((g_step == 4) & (g_prepared == 1), "one whole unit is written"); vf_assert(g_separators == (g_archive ? 1 : 0), "units of an archive are separated"); vf_assert((g_rawn == n) & ((n == 0) | (g_raw == text + begin)), "the contents of the unit are written, all and only they"); vf_reach("end"); }
VF_HARNESS(add_filename) { add(0); }
VF_HARNESS(add_version) { add(1); }
VF_HARNESS(add_timestamp) { add(2); }
VF_HARNESS(add_hash) { add(3); }
VF_HARNESS(add_encoding) { add(4); }
VF_HARNESS(add_url) { add(5); }
VF_HARNESS(add_revision) { add(6); }
VF_HARNESS(add_namespaces) { add(7); }
// ---- the document: the declaration, the processing instruction, the root of an archive, once and first; the end
struct Doc { int decl, pi, root, sep, close, end, n; }; static Doc D;
extern "C" void vgs_decl(srcMLOutput* o) { vf_assert((o == &g_t->out) & (D.n == 0), "the declaration comes first"); D.decl = ++D.n; }
extern "C" void vgs_pi(srcMLOutput* o) { vf_assert(o == &g_t->out, "this output"); D.pi = ++D.n; }
extern "C" void vgs_doc_separator(srcMLOutput* o) { vf_assert(o == &g_t->out, "this output"); D.sep = ++D.n; }
extern "C" void vgs_doc_close(srcMLOutput* o) { vf_assert(o == &g_t->out, "this output"); vf_assert(D.close == 0, "the output is closed once"); D.close = ++D.n; }
extern "C" void vgs_root(srcMLOutput* o, const char* language, const char* revision, const char* url, const char* filename, const char* version, const char* timestamp, const char* hash, const char* encoding, const void* attributes, bool macros) {
    vf_assert((o == &g_t->out) & (D.root == 0) & (D.pi != 0), "the root is started once, after the processing instruction"); D.root = ++D.n;
    vf_assert((language == 0) & (timestamp == 0) & (hash == 0) & (encoding == 0), "the root has nothing of a unit"); vf_assert((revision == g_t->revision) & (url == g_t->url) & (filename == g_t->filename) & (version == g_t->version) & (attributes == &g_t->attributes) & macros, "the root has the attributes and macros of the archive"); }
static srcml_translator* doc() { g_t = (srcml_translator*) vf_object("translator", sizeof(srcml_translator)); g_t->options = vf_u64("options"); g_t->first = vf_bool("first"); D.decl = D.pi = D.root = D.sep = D.close = D.end = D.n = 0; return g_t; }
VF_HARNESS(prepare) {
    srcml_translator* t = doc(); bool first = t->first, archive = (t->options & SRCML_OPTION_ARCHIVE) > 0, decl = !(t->options & SRCML_OPTION_NO_XML_DECL);
    t->prepareOutput(); t->prepareOutput();
    vf_assert((D.decl != 0) == (first & decl), "the declaration is written once, unless it is turned off"); vf_assert((D.pi != 0) == first, "the processing instruction is written once"); vf_assert((D.root != 0) == (first & archive), "an archive has one root"); vf_assert(D.n == (int) (first & decl) + (int) first + (int) (first & archive), "nothing is written twice"); vf_assert(!t->first, "the document is started"); vf_reach("end");
}
VF_HARNESS(close_document) {
    srcml_translator* t = doc(); bool first = t->first, archive = (t->options & SRCML_OPTION_ARCHIVE) > 0; t->is_outputting_unit = false;
    t->close();
    vf_assert(D.close == D.n, "the output is closed last"); vf_assert((D.pi != 0) == first, "a document that has no unit is started"); vf_assert((D.sep != 0) == (!first & archive), "the last unit of an archive is followed by a line end"); vf_assert((D.root != 0) == (first & archive), "an archive has one root"); vf_reach("end");
}
#endif
