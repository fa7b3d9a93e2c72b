// P03: the namespaces of an archive: registration, the getters, and the declarations that a unit gets.
// boost::multi_index is under a contract: a list of any length, in which no namespace is twice, with one arbitrary element T at an
// arbitrary position t; what is shown for T holds for every element.
#include "vf.h"
#include <srcMLOutput.cpp>
#include <srcml_types.hpp>
#include <srcmlns.hpp>
#include "antlr_sym.h"
extern "C" void vg_loop(size_t t, int expected);     // loop over the list: T is written 'expected' times once the loop is past it
#ifndef VF_NATIVE
struct Other { Namespace* ns; };
static void* g_list; static size_t g_n, g_t; static Namespace* g_T; static const char *g_tp, *g_tu; static int g_tf;
static Namespace* g_new; static int g_pushed, g_written; static const char* g_idx; static const char* g_absent; static int g_modified, g_known;
static bool in(void* c) { return (size_t) ((char*) c - (char*) g_list) < sizeof(Namespaces); }
static Namespace* other(const char* name) { Namespace* o = (Namespace*) vf_object(name, sizeof(Namespace)); new ((void*) &o->prefix) std::string(vf_cstr("other_prefix")); new ((void*) &o->uri) std::string(vf_cstr("other_uri")); return o; }
static void arb(void* list) { g_list = list; size_t len; g_idx = vf_bytes("positions", &len); vf_assume(len < (1u << 20)); g_n = len; g_t = vf_size("t", 0, 1u << 20); g_pushed = g_written = g_modified = g_known = 0; g_absent = 0; g_new = 0;
    g_T = (Namespace*) vf_object("T", sizeof(Namespace)); g_tp = vf_cstr("T_prefix"); g_tu = vf_cstr("T_uri"); new ((void*) &g_T->prefix) std::string(g_tp); new ((void*) &g_T->uri) std::string(g_tu); g_tf = g_T->flags; }
static bool has() { return g_t < g_n; }
extern "C" void* vgs_view(void* c) { vf_assert(in(c), "the namespaces of the object are used"); return c; }
extern "C" void* vgs_none(void*) { return 0; }
extern "C" size_t vgs_ns_size(void* c) { vf_assert(in(c), "the namespaces of the object are used"); return g_n; }
extern "C" Namespace* vgs_ns_at(void* c, size_t k) { vf_assert((in(c)) & (k < g_n), "a namespace of the list is used"); if (k == g_t) return g_T; return other("other"); }
extern "C" Namespace* vgs_find(void* c, const char* key) { vf_assert(in(c), "the namespaces of the object are used");
    if (g_pushed && vf_streq(g_new->uri.c_str(), key)) return g_new;
    if (has() && vf_streq(g_T->uri.c_str(), key)) return g_T;
    if (g_n > (has() ? 1 : 0) && (vf_bool("found") | (g_known != 0))) { Namespace* o = other("found"); vf_assume(vf_streq(o->uri.c_str(), key)); return o; }
    vf_assume(g_known == 0); g_absent = key; return 0; }
extern "C" Namespace* vgs_find_prefix(void* c, const char* key) { vf_assert(in(c), "the namespaces of the object are used");
    if (has() && vf_streq(g_T->prefix.c_str(), key) && !vf_bool("another")) return g_T;
    if (g_n > (has() ? 1 : 0) && vf_bool("found")) { Namespace* o = other("found"); vf_assume(vf_streq(o->prefix.c_str(), key)); return o; }
    vf_assume(!has() || !vf_streq(g_T->prefix.c_str(), key)); return 0; }
extern "C" Namespace* vgs_push(void* c, Namespace* ns) { vf_assert(in(c), "the namespaces of the object are used"); vf_assert((g_absent != 0) && vf_streq(g_absent, ns->uri.c_str()), "only a namespace that is not in the list is added"); ++g_pushed; g_new = new Namespace(*ns); return g_new; }
extern "C" Namespace* vgs_deref(void** it) { vf_assert(*it != 0, "only an element that was found is used"); return (Namespace*) *it; }
extern "C" bool vgs_differ(void** a, void** b) { return *a != *b; }
extern "C" const char* vgs_begin(void* c) { vf_assert(in(c), "the namespaces of the object are used"); return g_idx; }
extern "C" const char* vgs_end(void* c) { vf_assert(in(c), "the namespaces of the object are used"); return g_idx + g_n; }
extern "C" void* vgs_next(const char** it) { *it += 1; return it; }
extern "C" Namespace* vgs_here(const char** it) { size_t k = *it - g_idx; if (k == g_t) return g_T; return other("element"); }
extern "C" void vgs_write_ns(void* w, const Namespace* ns) { if (ns == g_T) ++g_written; }
static srcml_archive* archive() { srcml_archive* a = (srcml_archive*) vf_object("archive", sizeof(srcml_archive)); arb(&a->namespaces); return a; }
static void same_T(const char* prefix) { vf_assert(vf_streq(g_T->uri.c_str(), g_tu) & (g_T->flags == g_tf), "a namespace and what is known about its use are never changed by a registration"); vf_assert(vf_streq(g_T->prefix.c_str(), prefix), "a namespace has the prefix last registered for it, and no other is changed"); }
// ---- registration
VF_HARNESS(register_namespace) { srcml_archive* a = archive(); const char* p = vf_cstr("prefix"); const char* u = vf_cstr("uri"); unsigned long long o = a->options; vf_frame_save(a, sizeof *a);
    int st = srcml_archive_register_namespace(a, p, u); vf_assert(st == SRCML_STATUS_OK, "a namespace is registered"); bool it = has() && vf_streq(g_tu, u);
    if (has()) same_T(it ? p : g_tp); if (it) { vf_assert(g_pushed == 0, "a namespace is in the list once"); vf_reach("known"); }
    if (g_pushed) { vf_assert((g_pushed == 1) & vf_streq(g_new->prefix.c_str(), p) & vf_streq(g_new->uri.c_str(), u) & (g_new->flags == NS_REGISTERED), "a new namespace is put at the end with its prefix"); vf_reach("new"); } else { vf_assert(g_absent == 0, "a namespace that is not in the list is added"); vf_reach("changed"); }
    unsigned long long add = vf_streq(u, SRCML_CPP_NS_URI) ? SRCML_OPTION_CPP | SRCML_OPTION_CPP_DECLARED : vf_streq(u, SRCML_ERROR_NS_URI) ? SRCML_OPTION_DEBUG : vf_streq(u, SRCML_POSITION_NS_URI) ? SRCML_OPTION_POSITION : 0;
    vf_assert(a->options == (o | add), "the registration of a namespace of an option sets the option, and nothing else");
    vf_frame_check(a, sizeof *a, offsetof(srcml_archive, options), sizeof a->options, 0, 0, "nothing else of the archive is changed"); vf_reach("end"); }
VF_HARNESS(register_null) { srcml_archive* a = archive(); const char* p = vf_cstr_or_null("prefix"); const char* u = vf_cstr_or_null("uri"); bool none = vf_bool("no_archive"); vf_assume(none | !p | !u); vf_frame_save(a, sizeof *a);
    vf_assert(srcml_archive_register_namespace(none ? 0 : a, p, u) == SRCML_STATUS_INVALID_ARGUMENT, "a registration without archive, prefix or uri is refused"); vf_assert(g_pushed == 0, "a refused registration changes nothing"); if (has()) same_T(g_tp); vf_frame_check(a, sizeof *a, 0, 0, 0, 0, "a refused registration changes nothing"); vf_reach("end"); }
// ---- getters
VF_HARNESS(at_position) { srcml_archive* a = archive(); vf_frame_save(a, sizeof *a); vf_assert(srcml_archive_get_namespace_size(a) == g_n, "the size is the number of namespaces"); const char* p = srcml_archive_get_namespace_prefix(a, g_t); const char* u = srcml_archive_get_namespace_uri(a, g_t);
    if (has()) { vf_assert(vf_streq(p, g_tp) & vf_streq(u, g_tu), "the prefix and uri at a position are those of the namespace there"); vf_reach("inside"); } else { vf_assert(!p & !u, "there is no namespace past the end"); vf_reach("outside"); }
    vf_assert((srcml_archive_get_namespace_size(0) == 0) & !srcml_archive_get_namespace_prefix(0, g_t) & !srcml_archive_get_namespace_uri(0, g_t), "no archive has no namespace"); if (has()) same_T(g_tp); vf_frame_check(a, sizeof *a, 0, 0, 0, 0, "a getter changes nothing"); }
VF_HARNESS(of_uri) { srcml_archive* a = archive(); vf_frame_save(a, sizeof *a); const char* u = vf_cstr("uri"); const char* p = srcml_archive_get_prefix_from_uri(a, u); if (has() && vf_streq(u, g_tu)) { vf_assert(vf_streq(p, g_tp), "the prefix of a namespace is found"); vf_reach("found"); } if (!p) { vf_assert(g_absent == u, "only a namespace that is not in the list has no prefix"); vf_reach("absent"); }
    vf_assert(!srcml_archive_get_prefix_from_uri(0, u) & !srcml_archive_get_prefix_from_uri(a, 0), "nothing is found without archive or uri"); vf_frame_check(a, sizeof *a, 0, 0, 0, 0, "a getter changes nothing"); }
VF_HARNESS(of_prefix) { srcml_archive* a = archive(); vf_frame_save(a, sizeof *a); const char* p = vf_cstr("prefix"); const char* u = srcml_archive_get_uri_from_prefix(a, p); if (has() && vf_streq(p, g_tp)) vf_assert(u != 0, "a prefix that is in the list has a namespace"); if (u && has() && u == g_T->uri.c_str()) { vf_assert(vf_streq(p, g_tp) & vf_streq(u, g_tu), "the namespace has the prefix"); vf_reach("found"); } if (!u) vf_reach("absent");
    vf_assert(!srcml_archive_get_uri_from_prefix(0, p) & !srcml_archive_get_uri_from_prefix(a, 0), "nothing is found without archive or prefix"); vf_frame_check(a, sizeof *a, 0, 0, 0, 0, "a getter changes nothing"); }
// ---- the declarations of a unit
static void declarations(int which, int depth) { srcMLOutput* o = (srcMLOutput*) vf_object("output", sizeof(srcMLOutput)); arb(&o->namespaces); vf_assume(g_n >= 4); g_known = 1; xmlTextWriterPtr w = (xmlTextWriterPtr) vf_object("writer", 8); OPTION_TYPE options = vf_u64("options"); 
    bool c = vf_streq(g_tu, SRCML_CPP_NS_URI), p = vf_streq(g_tu, SRCML_POSITION_NS_URI), e_ = vf_streq(g_tu, SRCML_ERROR_NS_URI); vf_assume(which == 0 ? !(c | p | e_) : which == 1 ? c : which == 2 ? p : e_); vf_assume(has());
    bool archive = (options & SRCML_OPTION_ARCHIVE) != 0, outer = !archive | (depth == 0), inner = !archive | (depth == 1);
    bool used = ((g_tf & NS_USED) != 0) | (((options & SRCML_OPTION_CPP_DECLARED) != 0) & vf_streq(g_tu, SRCML_CPP_NS_URI)) | (((options & SRCML_OPTION_POSITION) != 0) & vf_streq(g_tu, SRCML_POSITION_NS_URI)) | (((options & SRCML_OPTION_DEBUG) != 0) & vf_streq(g_tu, SRCML_ERROR_NS_URI));
    bool standard = (g_tf & NS_STANDARD) != 0, required = (g_tf & NS_REQUIRED) != 0, root = (g_tf & NS_ROOT) != 0, user = !standard & ((g_tf & NS_REGISTERED) != 0);
    bool e = (outer & (user | (standard & (required | (root & used))))) | (inner & standard & !required & !root & used); vg_loop(g_t, e);
    o->outputNamespaces(w, options, depth); if (has()) { vf_assert(g_written == (int) e, "a namespace is declared once, where it is needed: required and registered ones at the root, the others where they are used"); vf_assert((g_T->flags | NS_USED) == (g_tf | NS_USED), "only the use is recorded"); vf_assert(((g_T->flags & NS_USED) != 0) == used, "the namespaces of the options are used"); vf_reach("declared"); }
    vf_assert(vf_streq(g_T->prefix.c_str(), g_tp) & vf_streq(g_T->uri.c_str(), g_tu), "declarations change no namespace"); }
VF_HARNESS(declarations_other_0) { declarations(0, 0); }
VF_HARNESS(declarations_other_1) { declarations(0, 1); }
VF_HARNESS(declarations_other_2) { declarations(0, 2); }
VF_HARNESS(declarations_cpp_0) { declarations(1, 0); }
VF_HARNESS(declarations_cpp_1) { declarations(1, 1); }
VF_HARNESS(declarations_cpp_2) { declarations(1, 2); }
VF_HARNESS(declarations_pos_0) { declarations(2, 0); }
VF_HARNESS(declarations_pos_1) { declarations(2, 1); }
VF_HARNESS(declarations_pos_2) { declarations(2, 2); }
VF_HARNESS(declarations_err_0) { declarations(3, 0); }
VF_HARNESS(declarations_err_1) { declarations(3, 1); }
VF_HARNESS(declarations_err_2) { declarations(3, 2); }
#endif
