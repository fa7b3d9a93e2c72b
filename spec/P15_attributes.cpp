// P15: the attributes of a unit are written under the names under which they are read.
#include "api.h"
#ifndef VF_NATIVE
#include <unit_utilities.hpp>
#include <srcml_reader_handler.hpp>
#include <new>
template<class T> static void none(boost::optional<T>* o) { new (o) boost::optional<T>(); }
static bool is(const boost::optional<std::string>& o, const char* v) { return vf_streq(o ? o->c_str() : 0, v); }
// an attribute as libxml2 gives it: local name, prefix, uri, begin and end of the value
static const char* g_v[2];
static void attribute(const xmlChar** at, int k, const char* name) { const char* v = g_v[k] = vf_cstr(k ? "value2" : "value"); at[0] = (const xmlChar*) name; at[1] = 0; at[2] = 0; at[3] = (const xmlChar*) v; size_t n = strlen(v); vf_assume(n < (1u << 30)); at[4] = (const xmlChar*) v + n; }
static srcml_unit* unit() { srcml_unit* u = arb_unit(); new (&u->attributes) std::vector<std::string>(); return u; }
#define FIELD(h, name, member) VF_HARNESS(h) { srcml_unit* u = unit(); const xmlChar* at[5]; attribute(at, 0, name); vf_frame_save(u, sizeof *u); unit_update_attributes(u, 1, at); \
    vf_assert(is(u->member, g_v[0]), "the attribute " name " is the unit's " #member); vf_frame_check(u, sizeof *u, (char*) &u->member - (char*) u, sizeof u->member, 0, 0, "an attribute changes nothing else"); vf_assert(u->attributes.empty(), "an attribute of a unit is not kept twice"); vf_reach("end"); }
FIELD(read_timestamp, "timestamp", timestamp)
FIELD(read_hash, "hash", hash)
FIELD(read_language, "language", language)
FIELD(read_revision, "revision", revision)
FIELD(read_filename, "filename", filename)
FIELD(read_url, "url", url)
FIELD(read_version, "version", version)
VF_HARNESS(read_two) {
    srcml_unit* u = unit(); const xmlChar* at[10]; attribute(at, 0, "filename"); attribute(at + 5, 1, "version"); unit_update_attributes(u, 2, at);
    vf_assert(is(u->filename, g_v[0]) & is(u->version, g_v[1]), "every attribute is read"); vf_reach("end");
}
VF_HARNESS(read_none) { srcml_unit* u = unit(); vf_frame_save(u, sizeof *u); unit_update_attributes(u, 0, 0); vf_frame_check(u, sizeof *u, 0, 0, 0, 0, "no attribute changes nothing"); vf_reach("end"); }
VF_HARNESS(read_other) {
    srcml_unit* u = unit(); const char* n = vf_cstr("name"); static const char* const K[] = { "timestamp", "hash", "language", "revision", "filename", "url", "version", "tabs", "options" }; for (int i = 0; i < 9; ++i) vf_assume(!vf_streq(n, K[i]));
    const xmlChar* at[5]; attribute(at, 0, n); vf_frame_save(u, sizeof *u); unit_update_attributes(u, 1, at);
    vf_frame_check(u, sizeof *u, (char*) &u->attributes - (char*) u, sizeof u->attributes, 0, 0, "an attribute changes nothing else"); vf_assert((u->attributes.size() == 2) && (vf_streq(u->attributes[0].c_str(), n) & vf_streq(u->attributes[1].c_str(), g_v[0])), "any other attribute is kept"); vf_reach("end");
}
VF_HARNESS(read_tabs_options) {
    srcml_unit* u = unit(); const xmlChar* at[10]; attribute(at, 0, "tabs"); attribute(at + 5, 1, "options"); vf_frame_save(u, sizeof *u); unit_update_attributes(u, 2, at); vf_frame_check(u, sizeof *u, 0, 0, 0, 0, "the tab stop and the options are not the unit's"); vf_reach("end");
}

// ---- the root element, read into the archive
static srcml_archive* g_a; static int g_ns; static const char* g_prefix; static const char* g_uri; static bool g_same;
extern "C" int vgs_register(srcml_archive* a, const char* prefix, const char* uri) { vf_assert(a == g_a, "the namespaces are the archive's"); ++g_ns; g_same = vf_streq(prefix, g_prefix ? g_prefix : "") & vf_streq(uri, g_uri); return 0; }
static srcml_reader_handler* handler() { srcml_reader_handler* h = (srcml_reader_handler*) vf_object("handler", sizeof(srcml_reader_handler)); g_a = h->archive = arb_archive(); new (&g_a->attributes) std::vector<std::string>(); g_ns = 0; return h; }
static void root(srcml_reader_handler* h, int nn, const xmlChar** ns, int n, const xmlChar** at) { h->srcml_reader_handler::startRoot("unit", 0, SRCML_SRC_NS_URI, nn, ns, n, at); }
#define ROOT(h, name, member) VF_HARNESS(h) { srcml_reader_handler* r = handler(); srcml_archive* a = g_a; r->is_archive = vf_bool("archive"); OPTION_TYPE op = a->options; const xmlChar* at[5]; attribute(at, 0, name); vf_frame_save(a, sizeof *a); root(r, 0, 0, 1, at); \
    vf_assert(is(a->member, g_v[0]), "the attribute " name " of the root is the archive's " #member); vf_frame_check(a, sizeof *a, (char*) &a->member - (char*) a, sizeof a->member, (char*) &a->options - (char*) a, sizeof a->options, "an attribute changes nothing else"); vf_assert(a->attributes.empty(), "an attribute of the root is not kept twice"); \
    vf_assert(a->options == (r->is_archive ? op : op & ~SRCML_OPTION_ARCHIVE), "a root that is a unit is no archive"); vf_reach("end"); }
ROOT(root_revision, "revision", revision)
ROOT(root_url, "url", url)
ROOT(root_version, "version", version)
#define IGNORED(h, name) VF_HARNESS(h) { srcml_reader_handler* r = handler(); srcml_archive* a = g_a; r->is_archive = true; const xmlChar* at[5]; attribute(at, 0, name); vf_frame_save(a, sizeof *a); root(r, 0, 0, 1, at); vf_frame_check(a, sizeof *a, 0, 0, 0, 0, "the attribute " name " of the root is not the archive's"); vf_reach("end"); }
IGNORED(root_timestamp, "timestamp")
IGNORED(root_language, "language")
IGNORED(root_filename, "filename")
IGNORED(root_hash, "hash")
static void options(const char* v, OPTION_TYPE o) {
    srcml_reader_handler* r = handler(); srcml_archive* a = g_a; r->is_archive = true; const xmlChar* at[5] = { (const xmlChar*) "options", 0, 0, (const xmlChar*) v, (const xmlChar*) v + strlen(v) }; OPTION_TYPE op = a->options; vf_frame_save(a, sizeof *a); root(r, 0, 0, 1, at);
    vf_assert(a->options == (op | o), "the options of the root are the archive's"); vf_frame_check(a, sizeof *a, (char*) &a->options - (char*) a, sizeof a->options, 0, 0, "the options change nothing else"); vf_reach("end"); }
VF_HARNESS(root_options_1) { options("CPP_TEXT_ELSE", SRCML_OPTION_CPP_TEXT_ELSE); }
VF_HARNESS(root_options_2) { options("CPP_MARKUP_IF0", SRCML_OPTION_CPP_MARKUP_IF0); }
VF_HARNESS(root_options_3) { options("CPP_TEXT_ELSE,CPP_MARKUP_IF0", SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0); }
VF_HARNESS(root_options_4) { options("LINE", SRCML_OPTION_LINE); }
VF_HARNESS(root_options_5) { options("CPP_TEXT_ELSE,LINE", SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_LINE); }
VF_HARNESS(root_options_6) { options("CPP_MARKUP_IF0,LINE", SRCML_OPTION_CPP_MARKUP_IF0 | SRCML_OPTION_LINE); }
VF_HARNESS(root_options_7) { options("CPP_TEXT_ELSE,CPP_MARKUP_IF0,LINE", SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0 | SRCML_OPTION_LINE); }
VF_HARNESS(root_namespace) {
    srcml_reader_handler* r = handler(); srcml_archive* a = g_a; r->is_archive = true; g_prefix = vf_bool("default") ? 0 : vf_cstr("prefix"); g_uri = vf_cstr("uri"); const xmlChar* ns[2] = { (const xmlChar*) g_prefix, (const xmlChar*) g_uri };
    vf_frame_save(a, sizeof *a); root(r, 1, ns, 0, 0); vf_assert(g_ns == 1, "a namespace of the root is registered once"); vf_assert(g_same, "a namespace of the root is registered with its prefix and uri"); vf_frame_check(a, sizeof *a, 0, 0, 0, 0, "a namespace changes nothing else here"); vf_reach("end");
}
#endif
