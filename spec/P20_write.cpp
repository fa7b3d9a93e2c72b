// P20: what the writer does with one request: its results or its unit are written once, nothing when it failed, and the results are freed once.
#include "vf.h"
#include <string>
#include <cstring>
#include <sstream>
#include <iomanip>
#include <srcml_write.cpp>
#ifndef VF_NATIVE
static ParseRequest* g_r; static srcml_archive* g_a; static srcml_unit* g_u; static srcml_unit* g_ru; static srcml_transform_result* g_res; static int g_type, g_number, g_results, g_units, g_strings, g_frees, g_told, g_next; static int g_left; static const char* g_s; static bool g_ended, g_text;
extern "C" {
int srcml_transform_get_type(srcml_transform_result* r) { vf_assert((r == g_res) & !g_frees, "the results are used before they are freed"); return g_type; }
int srcml_transform_get_unit_size(srcml_transform_result* r) { vf_assert((r == g_res) & !g_frees, "the results are used before they are freed"); return g_number; }
int srcml_transform_get_bool(srcml_transform_result* r) { vf_assert((r == g_res) & !g_frees & (g_type == SRCML_RESULT_BOOLEAN), "the boolean of a boolean result"); return vf_bool("boolean"); }
const char* srcml_transform_get_string(srcml_transform_result* r) { vf_assert((r == g_res) & !g_frees & (g_type == SRCML_RESULT_STRING), "the string of a string result"); g_text = true; return g_s; }
srcml_unit* srcml_transform_get_unit(srcml_transform_result* r, int i) { vf_assert((r == g_res) & !g_frees & (i >= 0) & (i < g_number), "a unit of the results is one of them"); vf_assert(i == g_results, "the units of the results are written in order"); ++g_next; return g_ru; }
int srcml_transform_free(srcml_transform_result* r) { vf_assert((r == g_res) & !g_frees, "the results are freed once"); ++g_frees; return 0; }
int srcml_archive_write_unit(srcml_archive* a, srcml_unit* u) { vf_assert(a == g_a, "a unit is written to the archive of the request"); if (u == g_u) { vf_assert((g_units == 0) & (g_results == 0), "the unit is written once, when there are no results"); ++g_units; } else { vf_assert((u == g_ru) & (g_next == g_results + 1) & (g_units == 0), "a unit of the results is written once"); ++g_results; --g_left; } return vf_size("status_of_write", 0, 20); }
int srcml_archive_write_string(srcml_archive* a, const char* s, int n) { vf_assert((a == g_a) & (n >= 0), "a string is written to the archive of the request"); if (g_text) { if (g_strings == 0) vf_assert((s == g_s) & ((size_t) n == strlen(g_s)), "all of the string is written"); else { vf_assert((g_strings == 1) & (n == 1), "one newline is written after it"); vf_assert(s[0] == '\n', "it is a newline"); g_ended = true; } } ++g_strings; return vf_size("status_of_write", 0, 20); }
int srcml_archive_disable_solitary_unit(srcml_archive* a) { vf_assert((a == g_a) & (g_number > 1) & (g_results == 0), "more than one result makes an archive"); return 0; }
int srcml_unit_get_loc(const srcml_unit* u) { return vf_int("loc"); }
const char* srcml_unit_get_srcml_outer(srcml_unit* u) { vf_assert(u == g_u, "the markup of the unit"); g_text = true; return g_s; }
const char* srcml_unit_get_srcml_inner(srcml_unit* u) { vf_assert(u == g_u, "the markup of the unit"); g_text = true; return g_s; }
}
extern "C" void vgs_told() { vf_assert(g_told == 0, "a failure is told once"); ++g_told; }
static void start(int mode) { g_r = (ParseRequest*) vf_object("request", sizeof(ParseRequest)); g_a = (srcml_archive*) vf_object("archive", 8); g_u = (srcml_unit*) vf_object("unit", 8); g_res = (srcml_transform_result*) vf_object("results", 8); g_ru = (srcml_unit*) vf_object("unit of the results", 8); g_next = g_units = g_results = g_strings = g_frees = g_told = 0; g_text = g_ended = false; g_s = vf_cstr("text"); vf_assume(strlen(g_s) < 1u << 28); SRCMLOptions::opt = mode;
    g_r->srcml_arch = g_a; g_r->results = 0; g_r->status = vf_size("status", 0, 20); new ((void*) &g_r->unit) std::unique_ptr<srcml_unit>(vf_bool("unit") ? g_u : 0); new ((void*) &g_r->language) std::string(vf_cstr("language")); new ((void*) &g_r->filename) boost::optional<std::string>(); new ((void*) &g_r->disk_filename) boost::optional<std::string>(); new ((void*) &g_r->errormsg) boost::optional<std::string>(); if (vf_bool("message")) g_r->errormsg = std::string(vf_cstr("message")); if (vf_bool("disk")) g_r->disk_filename = std::string(vf_cstr("file")); g_left = g_number = 0; g_type = 0; }
static void go() { TraceLog* log = (TraceLog*) vf_object("log", sizeof(TraceLog)); const srcml_output_dest* d = (const srcml_output_dest*) vf_object("destination", 8); std::shared_ptr<ParseRequest> p(std::shared_ptr<ParseRequest>(), g_r); bool ok = g_r->status == SRCML_STATUS_OK; int st = g_r->status; bool has = g_r->unit.get() != 0; bool quiet = g_r->errormsg && g_r->errormsg->empty(); srcml_write_request(p, *log, *d);
    if (!ok) { vf_assert((g_units + g_results == 0) & ((g_r->results != 0) | (g_strings == 0)), "nothing is written of a request that failed"); vf_assert((g_told == (int) !quiet) | (st == SRCML_STATUS_UNSET_LANGUAGE), "a failure is told once"); vf_assert((st != SRCML_STATUS_UNSET_LANGUAGE) | (g_told == 1), "a file without language is told"); } 
    else vf_assert(g_units + g_results + (g_strings > 0) == (g_r->results ? (g_number ? g_number : g_type >= SRCML_RESULT_BOOLEAN || has) : has), "what is to write is written once");
    vf_reach("end"); }
VF_HARNESS(write_unit) { start(0); go(); }
VF_HARNESS(write_fragment) { start(SRCML_COMMAND_XML_FRAGMENT); vf_assume(g_s[0] != 0); go(); vf_assert(!g_text | (g_s[strlen(g_s) - 1] == '\n') | g_ended, "a fragment ends with a newline"); }
VF_HARNESS(write_raw) { start(SRCML_COMMAND_XML_RAW); go(); }
VF_HARNESS(write_boolean) { start(0); g_r->results = g_res; g_type = SRCML_RESULT_BOOLEAN; vf_assume(g_r->status == SRCML_STATUS_OK); go(); vf_assert((g_strings == 1) & (g_frees == 1), "the result is written and freed"); }
VF_HARNESS(write_string) { start(0); g_r->results = g_res; g_type = SRCML_RESULT_STRING; vf_assume(g_r->status == SRCML_STATUS_OK); go(); vf_assert(g_frees == 1, "the result is freed"); size_t n = strlen(g_s); if (n == 0) vf_assert(g_ended, "an empty string is a line"); else vf_assert((g_s[n - 1] == '\n') != g_ended, "a string ends with one newline more when it has none"); }
VF_HARNESS(write_units) { start(0); g_r->results = g_res; g_type = SRCML_RESULT_UNITS; g_number = vf_size("number", 0, 1u << 20); g_left = g_number; vf_assume(g_r->status == SRCML_STATUS_OK); go(); vf_assert((g_results == g_number) & (g_frees == 1), "every unit of the results is written, and they are freed"); }
VF_HARNESS(write_none) { start(0); g_r->results = g_res; g_type = SRCML_RESULT_NONE; g_r->unit.release(); vf_assume(g_r->status == SRCML_STATUS_OK); go(); vf_assert((g_results + g_units + g_strings == 0) & (g_frees == 1), "nothing is written without results"); }
#endif
