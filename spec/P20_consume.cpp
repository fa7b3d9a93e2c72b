// P20: a request goes to the writer exactly once, with the position it got, whatever happens to it on the way.
#include "vf.h"
#include <string>
#include <sstream>
#include "stubs/ctpl_stl.h"
#include <ParseQueue.hpp>
#include <srcml_consume.cpp>
#ifndef VF_NATIVE
static ParseRequest* g_r; static WriteQueue* g_wq; static int g_scheduled, g_pooled, g_locked, g_parsed, g_live, g_applied, g_frees; static srcml_unit* g_u; static int g_status, g_position;
extern "C" void vgs_sched(WriteQueue* q, std::shared_ptr<ParseRequest>* p) { vf_assert((q == g_wq) & (p->get() == g_r), "the request is given to the writer"); vf_assert(g_scheduled == 0, "a request is given to the writer once"); g_scheduled = 1;
    vf_assert((g_r->status == SRCML_STATUS_OK) | (g_r->unit.get() == 0), "a request that failed has no unit"); vf_assert(g_r->position == g_position, "a request keeps its position"); vf_assert(!g_locked, "the writer gets a request without the mutex held"); }
extern "C" void vgs_pool(void* request, void* queue, void* f) { vf_assert((request == g_r) & (queue == g_wq) & (f == (void*) srcml_consume) & (g_pooled + g_scheduled == 0) & !g_locked, "a request is given to the pool once, with its writer"); vf_assert(g_r->position == g_position, "a request has its position when it is given on"); g_pooled = 1; }
extern "C" void vgs_pool_stop(bool finish) { vf_assert(finish, "stopping waits for the requests that are left"); ++g_pooled; }
extern "C" void vgs_exit(int code) { vf_assert((g_scheduled == 1) & (code != 0), "the program is only left for an error, when the request was given to the writer"); vf_reach("left"); }
static std::mutex* g_m; static int* g_counter; static int g_count0;
extern "C" void vgs_clock(void* m) { vf_assert((m == g_m) & !g_locked, "the mutex is taken when it is not held"); g_locked = 1; g_count0 = vf_size("counter", 0, 1u << 20); *g_counter = g_count0; g_position = g_count0 + 1; }
extern "C" void vgs_cunlock(void* m) { vf_assert((m == g_m) & g_locked, "the mutex is released when it is held"); vf_assert(*g_counter == g_position, "every request gets a position of its own, without gaps"); g_locked = 0; *g_counter = vf_size("later", 0, 1u << 20); }
extern "C" {
static int status(const char* n) { return vf_size(n, 0, 20); }
srcml_unit* srcml_unit_create(srcml_archive* a) { vf_assert(a == g_r->srcml_arch, "the unit is made for the archive"); if (vf_bool("no_unit")) return 0; ++g_live; return g_u; }
void srcml_unit_free(srcml_unit* u) { vf_assert((u == g_u) & (g_live == 1), "the unit is freed once"); g_live = 0; ++g_frees; }
const char* srcml_unit_get_language(const srcml_unit* u) { return vf_cstr_or_null("language_of_unit"); }
int srcml_unit_set_language(srcml_unit* u, const char* l) { vf_assert((u == g_u) & vf_streq(l, g_r->language.c_str()), "the unit gets the language of the request"); return status("set_language"); }
int srcml_unit_set_filename(srcml_unit* u, const char* f) { vf_assert(u == g_u, "the unit gets the filename"); if (f[0] == '.') vf_assert(f[1] != '/', "a filename of a unit does not start with ./"); return status("set_filename"); }
int srcml_unit_set_version(srcml_unit* u, const char* v) { vf_assert((u == g_u) & (v == g_r->version->c_str()), "the unit gets the version of the request"); return status("set_version"); }
int srcml_unit_set_timestamp(srcml_unit* u, const char* v) { vf_assert((u == g_u) & (v == g_r->time_stamp->c_str()), "the unit gets the time of the request"); return status("set_timestamp"); }
int srcml_unit_parse_filename(srcml_unit* u, const char* f) { vf_assert((u == g_u) & (f == g_r->disk_filename->c_str()) & !g_parsed, "the file of the request is parsed, once"); g_parsed = 1; return g_status = status("parse"); }
int srcml_unit_parse_memory(srcml_unit* u, const char* b, size_t n) { vf_assert((u == g_u) & (b == g_r->buffer.data()) & (n == g_r->buffer.size()) & !g_parsed, "the source of the request is parsed, once"); g_parsed = 1; return g_status = status("parse"); }
int srcml_unit_apply_transforms(srcml_archive* a, srcml_unit* u, srcml_transform_result** r) { vf_assert((a == g_r->srcml_arch) & (u == g_u) & (r == &g_r->results) & !g_applied, "the transformations are applied to the unit, once"); g_applied = 1; if (vf_bool("result")) *r = (srcml_transform_result*) vf_object("result", 8); return status("apply"); }
}
extern "C" int srcml_transform_get_type(srcml_transform_result*) { return vf_size("type", 0, 4); }
static ParseRequest* request() { g_r = (ParseRequest*) vf_object("request", sizeof(ParseRequest)); new ((void*) &g_r->language) std::string(vf_cstr("language")); new ((void*) &g_r->filename) boost::optional<std::string>(); new ((void*) &g_r->version) boost::optional<std::string>(); new ((void*) &g_r->time_stamp) boost::optional<std::string>(); new ((void*) &g_r->disk_filename) boost::optional<std::string>(); new ((void*) &g_r->errormsg) boost::optional<std::string>();
    if (vf_bool("version")) g_r->version = std::string(vf_cstr("version_of_request")); if (vf_bool("time")) g_r->time_stamp = std::string(vf_cstr("time_of_request")); if (vf_bool("file")) g_r->disk_filename = std::string(vf_cstr("file_of_request"));
    size_t len; const char* b = vf_bytes("source", &len); const char** v = (const char**) (void*) &g_r->buffer; v[0] = b; v[1] = v[2] = b + len;
    g_u = (srcml_unit*) vf_object("unit", 8); bool has = vf_bool("unit"); new ((void*) &g_r->unit) std::unique_ptr<srcml_unit>(has ? g_u : 0); g_live = has; g_r->results = 0; g_position = g_r->position; g_wq = (WriteQueue*) vf_object("queue", sizeof(WriteQueue)); g_scheduled = g_pooled = g_locked = g_parsed = g_applied = g_frees = 0; g_status = 0; return g_r; }
static void consume(bool filename) { request(); if (filename) g_r->filename = std::string(vf_cstr("filename_of_request")); std::shared_ptr<ParseRequest> p(std::shared_ptr<ParseRequest>(), g_r); bool parse = g_r->needsparsing | (g_r->disk_filename ? true : false); int before = g_r->status; srcml_consume(0, p, g_wq); vf_assert(g_scheduled == 1, "a request is given to the writer once");
    vf_assert((g_r->status != SRCML_STATUS_OK) | (g_parsed == (int) parse), "a request that is fine was parsed"); vf_assert(before == 0 || (g_r->status == before) & !g_parsed, "a request with an error goes on with its error"); vf_assert((g_r->status != SRCML_STATUS_OK) | g_applied, "the transformations are applied"); vf_assert((g_live != 0) == (g_r->unit.get() != 0), "a unit that is not kept is freed"); vf_reach("end"); }
VF_HARNESS(consume_no_filename) { consume(false); }
VF_HARNESS(consume_filename) { consume(true); }
VF_HARNESS(parse_queue) { request(); ParseQueue* q = (ParseQueue*) vf_object("parse_queue", sizeof(ParseQueue)); q->wqueue = g_wq; g_m = &q->e; g_counter = &q->counter; std::shared_ptr<ParseRequest> p(std::shared_ptr<ParseRequest>(), g_r); if (g_r->status) vf_reach("error"); g_r->unit.release(); g_live = 0; q->schedule(p); vf_assert(g_pooled + g_scheduled == 1, "a request is given on once"); vf_assert((g_scheduled != 0) == (g_r->status != 0), "a request with an error goes to the writer"); vf_reach("end"); }
VF_HARNESS(parse_wait) { request(); ParseQueue* q = (ParseQueue*) vf_object("parse_queue", sizeof(ParseQueue)); q->wait(); vf_assert(g_pooled == 1, "waiting is for the pool"); }
#endif
