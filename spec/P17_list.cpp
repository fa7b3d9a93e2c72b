// P17: the list of transformations of an archive, and the accessors of a result.
#include "vf.h"
#include <srcml_transform.cpp>
#include <cstring>
#ifndef VF_NATIVE
// ---- contract of std::vector<ArchiveTransformation>: a list of any length of which the last element is known
static size_t g_n; static ArchiveTransformation* g_last; static void* g_list; static size_t g_pushed; static const Transformation* g_new; static bool g_cleared;
extern "C" bool vgs_l_empty(void* v) { vf_assert(v == g_list, "the list of the archive is used"); return g_n == 0; }
extern "C" size_t vgs_l_size(void* v) { vf_assert(v == g_list, "the list of the archive is used"); return g_n; }
extern "C" ArchiveTransformation* vgs_l_back(void* v) { vf_assert(v == g_list, "the list of the archive is used"); vf_assert(g_n != 0, "the last of an empty list is not used"); return g_last; }
extern "C" void vgs_l_clear(void* v) { vf_assert(v == g_list, "the list of the archive is used"); g_n = 0; g_cleared = true; }
extern "C" void vgs_l_push(void* v, ArchiveTransformation* t) { vf_assert(v == g_list, "the list of the archive is used"); g_new = *(const Transformation**) t; vf_assert(g_new != 0, "a transformation is appended"); ++g_n; ++g_pushed; }
// std::shared_ptr from std::unique_ptr
extern "C" void vgs_shared(void** s, void** u) { s[0] = *u; s[1] = 0; *u = 0; }
static const void* g_replaced;
// ---- contract of the construction of the transformations
static xpathTransformation* g_xp; static int g_made; static const char *g_a[8]; static srcml_archive* g_ar;
extern "C" void vgs_xpath(xpathTransformation* t, srcml_archive* a, const char* xp, const char* p, const char* u, const char* e, const char* ap, const char* au, const char* an, const char* av) { g_xp = t; ++g_made; g_ar = a; g_a[0] = xp; g_a[1] = p; g_a[2] = u; g_a[3] = e; g_a[4] = ap; g_a[5] = au; g_a[6] = an; g_a[7] = av; }
static xmlDoc* g_doc; static void* g_docs[2]; static int g_reads; static bool g_bad; static int g_how; static const void* g_src; static long g_len; static void* g_t;
extern "C" void vgs_xslt(void* t, xmlDoc* d, void* params) { g_t = t; ++g_made; vf_assert((d == g_doc) & (d != 0), "the stylesheet is the document that was read"); }
extern "C" void vgs_relaxng(void* t, xmlDoc* d) { g_t = t; ++g_made; vf_assert((d == g_doc) & (d != 0), "the schema is the document that was read"); }
static xmlDoc* readdoc(int how, const void* src, long len) { ++g_reads; g_how = how; g_src = src; g_len = len; if (vf_bool("unreadable")) { g_bad = true; return 0; } return g_doc = (xmlDoc*) vf_object("doc", sizeof(xmlDoc)); }
extern "C" xmlDoc* vgs_file(const char* f, const char*, int) { return readdoc(1, f, 0); }
extern "C" xmlDoc* vgs_memory(const char* b, int n, const char*, const char*, int) { return readdoc(2, b, n); }
extern "C" xmlDoc* vgs_io(void*, void*, void* ctx, const char*, const char*, int) { return readdoc(3, ctx, 0); }
extern "C" xmlDoc* vgs_fd(int fd, const char*, const char*, int) { return readdoc(4, 0, fd); }
static int g_freed; extern "C" void vgs_freedoc(xmlDoc* d) { vf_assert((d == g_doc) & (d != 0), "only the document that was read is freed"); ++g_freed; }
static xpathTransformation* g_lastx; extern "C" void* vgs_dyncast(void* p) { return p ? g_lastx : 0; }
static srcml_archive* arb() { srcml_archive* a = (srcml_archive*) vf_object("archive", sizeof(srcml_archive)); g_list = &a->transformations; g_n = vf_size("transformations", 0, 1 << 20); g_pushed = 0; g_made = 0; g_reads = 0; g_bad = false; g_cleared = false; g_freed = 0; g_doc = 0; g_new = 0; g_xp = 0; g_t = 0; g_last = (ArchiveTransformation*) vf_object("last", sizeof(ArchiveTransformation)); vf_frame_save(a, sizeof *a); return a; }
static void same(srcml_archive* a) { vf_frame_check(a, sizeof *a, 0, 0, 0, 0, "nothing else of the archive is changed"); }
static void refused(srcml_archive* a, int st, size_t n) { vf_assert(st == SRCML_STATUS_INVALID_ARGUMENT, "an append without sense is refused"); vf_assert((g_n == n) & (g_pushed == 0), "a refused append leaves the list"); same(a); }
VF_HARNESS(xpath) { srcml_archive* a = arb(); size_t n = g_n; const char* x = vf_cstr_or_null("xpath"); int st = srcml_append_transform_xpath(a, x); if (!x) { refused(a, st, n); return; }
    vf_assert((st == SRCML_STATUS_OK) & (g_n == n + 1) & (g_made == 1) & (g_new == g_xp), "the XPath is the last of the list"); vf_assert((g_a[0] == x) & !g_a[1] & !g_a[2] & !g_a[3] & !g_a[4] & !g_a[5] & !g_a[6] & !g_a[7] & (g_ar == a), "the XPath is the one that was given, with neither element nor attribute"); same(a); vf_reach("appended"); }
VF_HARNESS(xpath_element) { srcml_archive* a = arb(); size_t n = g_n; const char* x = vf_cstr_or_null("xpath"); const char* p = vf_cstr_or_null("prefix"); const char* u = vf_cstr_or_null("uri"); const char* e = vf_cstr_or_null("element"); int st = srcml_append_transform_xpath_element(a, x, p, u, e);
    if (!x | !p | !u | !e) { refused(a, st, n); return; } vf_assert((st == SRCML_STATUS_OK) & (g_n == n + 1) & (g_made == 1) & (g_new == g_xp), "the XPath is the last of the list"); vf_assert((g_a[0] == x) & (g_a[1] == p) & (g_a[2] == u) & (g_a[3] == e) & !g_a[4] & !g_a[5] & !g_a[6] & !g_a[7], "the XPath and the element are the ones that were given"); same(a); vf_reach("appended"); }
VF_HARNESS(xpath_attribute_null) { srcml_archive* a = arb(); size_t n = g_n; const char* s[5]; int k = vf_irange("which", 0, 4); for (int i = 0; i < 5; ++i) s[i] = i == k ? 0 : "a"; refused(a, srcml_append_transform_xpath_attribute(a, s[0], s[1], s[2], s[3], s[4]), n); vf_reach("refused"); }
// an attribute goes to the XPath before it, when that is the same XPath and has no attribute
extern "C" void vgs_reset(void* sp, void* t) { vf_assert(sp == (void*) &g_last->transformation, "the last transformation is replaced"); g_replaced = t; }
VF_HARNESS(xpath_attribute) { srcml_archive* a = arb(); size_t n = g_n; g_replaced = 0; bool isx = vf_bool("is_xpath"); const char *x = vf_cstr("xpath"), *p = vf_cstr("prefix"), *u = vf_cstr("uri"), *t = vf_cstr("attribute"), *v = vf_cstr("value"); const char *lx = vf_cstr("last"), *lp = vf_cstr("lastprefix"), *lu = vf_cstr("lasturi"), *le = vf_cstr("lastelement"); bool hasns = vf_bool("has_ns"); const char* la[4] = { vf_cstr("lap"), vf_cstr("lau"), vf_cstr("lan"), vf_cstr("lav") };
    *(void**) &g_last->transformation = vf_object("some", 8); xpathTransformation* o = (xpathTransformation*) vf_object("lastxpath", sizeof(xpathTransformation)); new ((void*) &o->xpath) std::string(lx); new ((void*) &o->prefix) std::string(lp); new ((void*) &o->uri) std::string(lu); new ((void*) &o->element) std::string(le); new ((void*) &o->attr_prefix) std::string(la[0]); new ((void*) &o->attr_uri) std::string(la[1]); new ((void*) &o->attr_name) std::string(la[2]); new ((void*) &o->attr_value) std::string(la[3]); o->element_ns = hasns ? (xmlNs*) 16 : 0; g_lastx = isx ? o : 0;
    int st = srcml_append_transform_xpath_attribute(a, x, p, u, t, v); vf_assert((st == SRCML_STATUS_OK) & (g_made == 1), "an attribute is appended"); vf_assert((g_a[0] == x) & (g_a[4] == p) & (g_a[5] == u) & (g_a[6] == t) & (g_a[7] == v), "the XPath and the attribute are the ones that were given");
    bool merge = (n != 0) & isx & vf_streq(lx, x) & !*la[0] & !*la[1] & !*la[2] & !*la[3];
    if (merge) { vf_assert((g_n == n) & (g_pushed == 0) & (g_replaced == g_xp), "the attribute is added to the same XPath before it"); vf_assert(vf_streq(g_a[1], lp) & vf_streq(g_a[3], le) & (hasns ? vf_streq(g_a[2], lu) : !g_a[2]), "the element of the XPath is kept"); vf_reach("merged"); }
    else { vf_assert((g_n == n + 1) & (g_new == g_xp) & (g_replaced == 0), "the XPath is the last of the list"); vf_assert(!g_a[1] & !g_a[2] & !g_a[3], "there is no element"); vf_reach("appended"); } same(a); }
VF_HARNESS(nulls) { vf_assert((srcml_append_transform_xpath(0, "a") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_xpath_element(0, "a", "b", "c", "d") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_xpath_attribute(0, "a", "b", "c", "d", "e") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_param(0, "a", "b") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_stringparam(0, "a", "b") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_clear_transforms(0) == SRCML_STATUS_INVALID_ARGUMENT), "nothing is appended to no archive");
    vf_assert((srcml_append_transform_xslt_filename(0, "a") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_xslt_memory(0, "a", 1) == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_xslt_FILE(0, (FILE*) "a") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_xslt_fd(0, 1) == SRCML_STATUS_INVALID_ARGUMENT), "no stylesheet is appended to no archive");
    vf_assert((srcml_append_transform_relaxng_filename(0, "a") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_relaxng_memory(0, "a", 1) == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_relaxng_FILE(0, (FILE*) "a") == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_append_transform_relaxng_fd(0, 1) == SRCML_STATUS_INVALID_ARGUMENT), "no schema is appended to no archive"); vf_reach("end"); }
// ---- stylesheets and schemas, on every channel
static void channel(int how, bool xslt) { srcml_archive* a = arb(); size_t n = g_n; const char* s = vf_cstr_or_null("name"); size_t size = vf_size("size", 0, 1 << 28); int fd = vf_int("fd"); int st;
    switch (how) { case 1: st = xslt ? srcml_append_transform_xslt_filename(a, s) : srcml_append_transform_relaxng_filename(a, s); break; case 2: st = xslt ? srcml_append_transform_xslt_memory(a, s, size) : srcml_append_transform_relaxng_memory(a, s, size); break;
        case 3: st = xslt ? srcml_append_transform_xslt_FILE(a, (FILE*) s) : srcml_append_transform_relaxng_FILE(a, (FILE*) s); break; default: st = xslt ? srcml_append_transform_xslt_fd(a, fd) : srcml_append_transform_relaxng_fd(a, fd); }
    bool bad = how == 4 ? fd < 0 : how == 2 ? !s | (size == 0) : !s;
    if (bad) { refused(a, st, n); vf_assert(g_reads == 0, "nothing is read for an append that is refused"); return; } vf_assert((g_reads == 1) & (g_how == how) & (g_src == (how == 4 ? (const void*) 0 : s)) & (how == 2 ? g_len == (long) size : how == 4 ? g_len == fd : true), "what was given is read, once");
    if (g_bad) { refused(a, st, n); vf_reach("unreadable"); return; } vf_assert((st == SRCML_STATUS_OK) & (g_n == n + 1) & (g_pushed == 1) & (g_made == 1) & ((const void*) g_new == g_t), "the transformation is the last of the list"); vf_assert(g_freed == (xslt ? 0 : 1), "a stylesheet keeps its document, a schema does not"); same(a); vf_reach("appended"); }
VF_HARNESS(xslt_filename) { channel(1, true); } VF_HARNESS(xslt_memory) { channel(2, true); } VF_HARNESS(xslt_file) { channel(3, true); } VF_HARNESS(xslt_fd) { channel(4, true); }
VF_HARNESS(relaxng_filename) { channel(1, false); } VF_HARNESS(relaxng_memory) { channel(2, false); } VF_HARNESS(relaxng_file) { channel(3, false); } VF_HARNESS(relaxng_fd) { channel(4, false); }
VF_HARNESS(clear) { srcml_archive* a = arb(); vf_assert(srcml_clear_transforms(a) == SRCML_STATUS_OK, "the list is cleared"); vf_assert(g_n == 0, "a cleared list is empty"); same(a); vf_reach("end"); }
// ---- parameters
static const void* g_params; static int g_np; 
extern "C" void vgs_push_string(void* v, const std::string* s) { vf_assert(v == g_params, "a parameter is added to the last transformation"); vf_assert(g_np < 2, "a parameter is a name and a value"); vf_str_save(10 + g_np++, s->c_str()); }
VF_HARNESS(param) { srcml_archive* a = arb(); size_t n = g_n; g_params = &g_last->xsl_parameters; g_np = 0; const char* x = vf_cstr_or_null("name"); const char* v = vf_cstr_or_null("value"); int st = srcml_append_transform_param(a, x, v); if (!x | !v) { refused(a, st, n); vf_assert(g_np == 0, "nothing is added when refused"); return; }
    if (!n) { vf_assert((st == SRCML_STATUS_NO_TRANSFORMATION) & (g_np == 0), "a parameter needs a transformation"); return; } vf_assert((st == SRCML_STATUS_OK) & (g_np == 2) & (g_n == n) & (g_pushed == 0), "a parameter is added to the last transformation"); vf_assert(vf_str_same(10, x) & vf_str_same(11, v), "the parameter has the name and the value that were given"); same(a); vf_reach("added"); }
VF_HARNESS(stringparam) { srcml_archive* a = arb(); size_t n = g_n; g_params = &g_last->xsl_parameters; g_np = 0; const char* x = vf_cstr_or_null("name"); const char* v = vf_cstr_or_null("value"); int st = srcml_append_transform_stringparam(a, x, v); if (!x | !v) { refused(a, st, n); vf_assert(g_np == 0, "nothing is added when refused"); return; }
    if (!n) { vf_assert((st == SRCML_STATUS_NO_TRANSFORMATION) & (g_np == 0), "a parameter needs a transformation"); return; } vf_assert((st == SRCML_STATUS_OK) & (g_np == 2) & (g_n == n) & (g_pushed == 0), "a parameter is added to the last transformation"); std::string q = "\""; q += v; q += "\""; vf_assert(vf_str_same(10, x) & vf_str_same(11, q.c_str()), "the value of a string parameter is quoted"); same(a); vf_reach("added"); }
// ---- applying nothing
VF_HARNESS(apply_nothing) { srcml_archive* a = arb(); vf_assume(g_n == 0); srcml_unit* u = (srcml_unit*) vf_object("unit", sizeof(srcml_unit)); srcml_transform_result* r = (srcml_transform_result*) 16; vf_assert(srcml_unit_apply_transforms(a, u, &r) == SRCML_STATUS_OK, "without transformations there is nothing to do"); vf_assert(r == (srcml_transform_result*) 16, "without transformations there is no result"); same(a); vf_reach("end"); }
VF_HARNESS(apply_null) { srcml_archive* a = arb(); srcml_unit* u = (srcml_unit*) vf_object("unit", sizeof(srcml_unit)); srcml_transform_result* r = 0; vf_assert((srcml_unit_apply_transforms(0, u, &r) == SRCML_STATUS_INVALID_ARGUMENT) & (srcml_unit_apply_transforms(a, 0, &r) == SRCML_STATUS_INVALID_ARGUMENT) & (r == 0), "nothing is applied to nothing"); same(a); vf_reach("end"); }
#endif
// ---- the result
static srcml_transform_result* res(srcml_unit** us, int n) { srcml_transform_result* r = new srcml_transform_result; r->type = vf_int("type"); for (int i = 0; i < n; ++i) r->units.push_back(us[i]); return r; }
VF_HARNESS(result_units) { srcml_unit* us[3] = { (srcml_unit*) 8, (srcml_unit*) 16, (srcml_unit*) 24 }; int n = vf_irange("units", 0, 3); srcml_transform_result* r = res(us, n); int i = vf_int("index"); bool is = r->type == SRCML_RESULT_UNITS;
    vf_assert(srcml_transform_get_type(r) == r->type, "the type is the type of the result"); vf_assert(srcml_transform_get_unit_size(r) == (is ? n : 0), "a result has as many units as there are"); srcml_unit* u = srcml_transform_get_unit(r, i); vf_assert(is && i >= 0 && i < n ? u == us[i] : u == 0, "a unit of a result is the one at that index"); vf_reach("end"); }
VF_HARNESS(result_string) { srcml_transform_result* r = res(0, 0); bool has = vf_bool("has"); const char* s = vf_cstr("string"); if (has) r->stringValue = std::string(s); const char* g = srcml_transform_get_string(r); if (has && r->type == SRCML_RESULT_STRING) { vf_assert(vf_streq(g, s), "the string is the string of the result"); vf_reach("string"); } else vf_assert(g == 0, "another result has no string"); }
VF_HARNESS(result_number) { srcml_transform_result* r = res(0, 0); bool has = vf_bool("has"); unsigned long long bits = vf_u64("bits"), got; double v; memcpy(&v, &bits, sizeof v); if (has) r->numberValue = v; double g = srcml_transform_get_number(r); memcpy(&got, &g, sizeof g); if (has && r->type == SRCML_RESULT_NUMBER) { vf_assert(got == bits, "the number is the number of the result"); vf_reach("number"); } else vf_assert(got == 0, "another result has no number"); }
VF_HARNESS(result_bool) { srcml_transform_result* r = res(0, 0); bool has = vf_bool("has"), v = vf_bool("value"); if (has) r->boolValue = v; int g = srcml_transform_get_bool(r); if (has && r->type == SRCML_RESULT_BOOLEAN) { vf_assert(g == (int) v, "the boolean is the boolean of the result"); vf_reach("boolean"); } else vf_assert(g == -1, "another result has no boolean"); }
VF_HARNESS(result_null) { vf_assert((srcml_transform_get_type(0) == SRCML_RESULT_NONE) & (srcml_transform_get_unit_size(0) == 0) & (srcml_transform_get_unit(0, 0) == 0) & (srcml_transform_get_string(0) == 0) & (srcml_transform_get_number(0) == 0) & (srcml_transform_get_bool(0) == -1) & (srcml_transform_free(0) == SRCML_STATUS_INVALID_ARGUMENT), "no result has nothing"); vf_reach("end"); }
