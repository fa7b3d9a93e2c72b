// P14: a unit written by elements, over the contract of libxml2's text writer (ghost: the number of open elements, and the text written).
#include "api.h"
#ifndef VF_NATIVE
#include <new>
template<class T> static void none(boost::optional<T>* o) { new (o) boost::optional<T>(); }
enum { ELEMENT = 1, END, NAMESPACE, ATTRIBUTE, STRING };
static srcml_translator* g_t; static srcml_unit* g_u; static const char *g_prefix, *g_name, *g_uri, *g_content; static int g_kind, g_calls, g_result; static long g_open; static bool g_string_fails, g_string_failed;
extern "C" bool vg_text_is(const char* s);      // the text written so far is s
static srcml_translator* translator() { g_t = (srcml_translator*) vf_object("translator", sizeof(srcml_translator)); g_t->output_unit_depth = vf_irange("depth", 0, 1 << 30); g_open = (long) g_t->output_unit_depth + 1; return g_t; }
static int result() { ++g_calls; return g_result; }
// ---- contract of libxml2's text writer
extern "C" int vgs_start_element(xmlTextWriterPtr w, const char* prefix, const char* name, const char* uri) {
    vf_assert((w == g_t->out.xout) & (g_kind == ELEMENT), "an element is started in the unit, for a request to start one"); vf_assert(vf_streq(name, g_name), "the element has the name"); vf_assert(vf_streq(prefix, g_prefix), "the element has the prefix");
    if (g_uri && vf_streq(g_uri, SRCML_SRC_NS_URI)) vf_assert(uri == 0, "the namespace of srcML is not declared again"); else vf_assert(vf_streq(uri, g_uri), "the element has the namespace"); ++g_open; return result(); }
extern "C" int vgs_end_element(xmlTextWriterPtr w) { vf_assert((w == g_t->out.xout) & (g_kind == END), "an element of the unit is ended"); vf_assert(g_open > 0, "an element is open"); --g_open; return result(); }
extern "C" int vgs_attribute(xmlTextWriterPtr w, const char* name, const char* value) {
    vf_assert((w == g_t->out.xout) & (g_kind == NAMESPACE), "a namespace is declared for a request to declare one"); std::string n("xmlns"); if (g_prefix) { n += ':'; n += g_prefix; } vf_assert(vf_streq(name, n.c_str()), "the declaration is for the prefix"); vf_assert(vf_streq(value, g_uri), "the declaration is for the namespace"); return result(); }
extern "C" int vgs_attribute_ns(xmlTextWriterPtr w, const char* prefix, const char* name, const char* uri, const char* content) {
    vf_assert((w == g_t->out.xout) & (g_kind == ATTRIBUTE), "an attribute is written for a request to write one"); vf_assert(vf_streq(prefix, g_prefix), "the attribute has the prefix"); vf_assert(vf_streq(name, g_name), "the attribute has the name"); vf_assert(vf_streq(uri, g_uri), "the attribute has the namespace"); vf_assert(vf_streq(content, g_content), "the attribute has the value"); return result(); }
extern "C" void vg_emit(const char* s);
static int text(xmlTextWriterPtr w, const char* s) { vf_assert((w == g_t->out.xout) & (g_kind == STRING), "text is written for a request to write text"); vf_assert(!g_string_failed, "nothing is written after a failure"); if (g_string_fails) { g_string_failed = true; return -1; } vg_emit(s); return 0; }
extern "C" int vgs_string(xmlTextWriterPtr w, const char* s) { return text(w, s); }
extern "C" int vgs_raw_text(xmlTextWriterPtr w, const char* s) { vf_assert(s && *s != '<' && *s != '&' && *s != '>' && (*s == 0 || s[1] == 0), "text is written as it is only where it has no markup"); return text(w, s); }
static srcml_unit* state(int kind) { vg_emit(""); g_u = arb_unit(); g_kind = kind; g_calls = 0; g_string_fails = g_string_failed = false; g_result = vf_bool("fails") ? -1 : vf_irange("written", 0, 1 << 20); g_prefix = vf_cstr_or_null("prefix"); g_name = vf_cstr_or_null("name"); g_uri = vf_cstr_or_null("uri"); g_content = vf_cstr("content"); g_u->unit_translator = vf_bool("started") ? translator() : 0; return vf_bool("unit") ? g_u : 0; }
static bool started() { return g_u->unit_translator && g_t->is_outputting_unit; }
static void check(int r, bool given, bool possible, int calls, int delta, int depth) {
    vf_assert(r == (!given ? SRCML_STATUS_INVALID_ARGUMENT : !started() || !possible || g_result == -1 ? SRCML_STATUS_INVALID_INPUT : SRCML_STATUS_OK), "the request is refused or carried out"); bool done = given && started() && possible;
    vf_assert(g_calls == (done ? calls : 0), "the request is carried out once, and not when it is refused"); if (g_u->unit_translator) vf_assert(g_t->output_unit_depth == depth + (done ? delta : 0), "the depth is that of the open elements"); if (g_u->unit_translator) vf_assert(g_open == (long) g_t->output_unit_depth + 1, "the unit is open, and as many elements as its depth"); vf_reach(done ? "done" : "refused"); }
static bool tag_open() { return g_u->unit_translator && g_t->is_start_tag_open; }
static int depth() { return g_u->unit_translator ? g_t->output_unit_depth : 0; }
VF_HARNESS(start_element) { srcml_unit* u = state(ELEMENT); int d = depth(); vf_assume(d < (1 << 29)); int r = srcml_write_start_element(u, g_prefix, g_name, g_uri); check(r, u && g_name, !(g_name && vf_streq(g_name, "unit")), 1, 1, d); }
VF_HARNESS(end_element) { srcml_unit* u = state(END); int d = depth(); int r = srcml_write_end_element(u); check(r, u != 0, d > 0, 1, -1, d); }
VF_HARNESS(namespaces) { srcml_unit* u = state(NAMESPACE); int d = depth(); bool open = tag_open(); int r = srcml_write_namespace(u, g_prefix, g_uri); check(r, u && g_uri, open, 1, 0, d); }
VF_HARNESS(attributes) { srcml_unit* u = state(ATTRIBUTE); int d = depth(); bool open = tag_open(); int r = srcml_write_attribute(u, g_prefix, g_name, g_uri, g_content); check(r, u && g_name, open, 1, 0, d); }
VF_HARNESS(strings) {
    srcml_unit* u = state(STRING); int d = depth(); bool none = vf_bool("none"); std::string c(g_content); vf_assume(c.size() < (1u << 28)); g_string_fails = g_result == -1; int r = srcml_write_string(u, none ? 0 : g_content);
    vf_assert(r == (!u || none ? SRCML_STATUS_INVALID_ARGUMENT : !started() || g_string_fails ? SRCML_STATUS_INVALID_INPUT : SRCML_STATUS_OK), "the request is refused or carried out"); if (g_u->unit_translator) vf_assert(g_t->output_unit_depth == d, "text changes no depth");
    if (!r) vf_assert(vg_text_is(c.c_str()), "the text is written, all and only it"); else if (!u || none || !started()) vf_assert(vg_text_is(""), "nothing is written when it is refused"); vf_assert(vf_streq(g_content, c.c_str()), "the text of the caller is as it was"); vf_reach("end"); }
// ---- the end of the unit, over the contract of srcml_write_start_unit (proved: start_unit)
static std::string *g_text, *g_tag, *g_src; static size_t g_end; static int g_begin, g_detached, g_restarts, g_freed, g_ended, g_deleted; static xmlBuffer *g_buffer, *g_buffer2; static char *g_text_p, *g_tag_p; static srcml_translator* g_t2;
extern "C" int vgs_end_of(xmlTextWriterPtr w) { vf_assert(w == g_t->out.xout, "an element of the unit is ended"); vf_assert(g_open > 0, "an element is open"); --g_open; return 0; }
extern "C" int vgs_flush(xmlTextWriterPtr w) { vf_assert(w == g_t->out.xout, "the writer is flushed"); if (g_open == 1) g_t->out.output_buffer->written = (long) g_end; return 0; }
extern "C" char* vgs_detach(xmlBuffer* b) { if (g_detached++ == 0) { vf_assert((b == g_buffer) & (g_open == 0), "the text of the whole unit is taken"); return g_text_p; } vf_assert((b == g_buffer2) & (g_restarts == 1), "the new start tag is taken"); return g_tag_p; }
extern "C" int vgs_restart(srcml_unit* u) { vf_assert((u == g_u) & (g_detached == 1), "the start tag is written again, after the end"); ++g_restarts; g_t2 = (srcml_translator*) vf_object("translator2", sizeof(srcml_translator)); u->unit_translator = g_t2; u->output_buffer = g_buffer2; u->content_begin = (int) g_tag->size() + 1; return SRCML_STATUS_OK; }
extern "C" std::string vgs_source(const std::string& srcml, boost::optional<int> revision) { vf_assert(&srcml == &g_u->srcml, "the source is that of the unit"); return *g_src; }
extern "C" void vgs_free_buffer(xmlBuffer* b) { vf_assert((b == g_buffer2) & (g_freed == 0), "the buffer is freed once"); ++g_freed; }
extern "C" void vgs_destroy(srcml_translator* t) { vf_assert((t == g_t2) & (g_deleted == 0), "the writer is freed once"); ++g_deleted; }
extern "C" int vg_newlines(const std::string* s);
static void end(bool content) {
    srcml_unit* u = g_u = arb_unit(); u->unit_translator = translator(); g_t->is_outputting_unit = true; g_detached = g_restarts = g_freed = g_deleted = 0; g_t->out.output_buffer = (xmlOutputBuffer*) vf_object("ob", sizeof(xmlOutputBuffer)); u->output_buffer = g_buffer = (xmlBuffer*) vf_object("xb", 8); g_buffer2 = (xmlBuffer*) vf_object("xb2", 8);
    std::string tag(vf_cstr("tag")), inner(vf_cstr("inner")); g_tag = new std::string(vf_cstr("newtag")); g_src = new std::string(vf_cstr("source")); vf_assume((tag.size() < (1u << 28)) & (inner.size() < (1u << 28)) & (g_tag->size() < (1u << 28)) & (g_src->size() < (1u << 28)) & (tag.size() > 0));
    g_text = new std::string(tag); if (content) { *g_text += ">"; *g_text += inner; *g_text += "</unit>"; } else *g_text += "/>"; g_end = tag.size() + (content ? 1 + inner.size() : 0); u->content_begin = (int) tag.size() + 1; g_text_p = (char*) g_text->c_str(); g_tag_p = (char*) g_tag->c_str(); g_t->out.output_buffer->written = vf_irange("unflushed", 0, 1 << 20);
    new (&u->srcml_revision) boost::optional<std::string>(std::string("old")); new (&u->srcml_fragment) boost::optional<std::string>(std::string("old")); none(&u->srcml_fragment_revision); none(&u->srcml_raw); none(&u->srcml_raw_revision); none(&u->src);
    int r = srcml_write_end_unit(u); vf_assert(r == SRCML_STATUS_OK, "a unit that was started is ended"); vf_assert(g_open == 0, "every element that was open is ended, and the unit, once each"); vf_assert((g_freed == 1) & (g_deleted == 1) & (u->unit_translator == 0), "the writer is done with");
    std::string want(*g_tag); if (content) { want += ">"; want += inner; want += "</unit>"; } else want += "/>"; vf_assert(vf_streq(u->srcml.c_str(), want.c_str()), "the unit is the new start tag with the content that was written");
    vf_assert(u->content_begin == (int) g_tag->size() + 1, "the content begins after the start tag"); vf_assert(u->content_end - u->content_begin == (content ? (int) inner.size() + 1 : 0), "the content is as long as it was written");
    vf_assert(u->src && vf_streq(u->src->c_str(), g_src->c_str()), "the source is that of the markup"); vf_assert(!u->srcml_revision & !u->srcml_fragment & !u->srcml_raw & !u->srcml_fragment_revision & !u->srcml_raw_revision, "no view of a previous content is left"); vf_assert(u->read_body, "the unit has content");
    vf_assert(u->loc == vg_newlines(g_src) + (int) (!g_src->empty() && (*g_src)[g_src->size() - 1] != '\n'), "the number of lines is that of the source"); vf_reach("end"); }
VF_HARNESS(end_content) { end(true); }
VF_HARNESS(end_empty) { end(false); }
VF_HARNESS(end_refused) { srcml_unit* u = g_u = arb_unit(); u->unit_translator = 0; vf_assert(srcml_write_end_unit(vf_bool("unit") ? u : 0) != SRCML_STATUS_OK, "a unit that was not started is not ended"); vf_reach("end"); }
// ---- the start of the unit
static int g_made, g_closed, g_macros, g_started; static xmlOutputBuffer* g_ob; static srcml_translator* g_old; static bool g_xb_fails, g_ob_fails; static const char* g_head;
extern "C" bool vg_copy_of(const void* x, const void* y);
static const char* c(const boost::optional<std::string>& o, const char* otherwise = 0) { return o ? o->c_str() : otherwise; }
extern "C" xmlBuffer* vgs_new_buffer() { return g_xb_fails ? 0 : g_buffer; }
extern "C" xmlOutputBuffer* vgs_new_ob(xmlBuffer* b, void* h) { vf_assert(b == g_buffer, "the unit is written to the buffer"); return g_ob_fails ? 0 : g_ob; }
extern "C" void vgs_translator(srcml_translator* t, xmlOutputBuffer* ob, const char* xml_encoding, OPTION_TYPE* op, const void* ns, void* pi, size_t tabsize, int language, const char* revision, const char* url, const char* filename, const char* version, const void* attributes, const char* timestamp, const char* hash, const char* encoding) {
    srcml_unit* u = g_u; vf_assert((g_made == 0) & (g_closed == (g_old ? 1 : 0)), "one writer is made, after the one before it is done with"); ++g_made; g_t = t; t->out.output_buffer = ob; t->out.xout = (xmlTextWriterPtr) vf_object("xout", 8); t->is_outputting_unit = false; t->is_start_tag_open = false; t->output_unit_depth = 0; t->revision = revision;
    vf_assert(ob == g_ob, "the writer writes to the buffer"); vf_assert(vf_streq(xml_encoding, c(u->archive->encoding, "UTF-8")), "the encoding is that of the archive"); vf_assert(*op == (u->archive->options & ~(OPTION_TYPE) SRCML_OPTION_ARCHIVE), "the options are those of the archive, for one unit"); vf_assert(tabsize == u->archive->tabstop, "the tab stop is that of the archive"); vf_assert(language == u->derived_language, "the language is that of the unit");
    vf_assert(vf_streq(revision, c(u->revision)), "the revision is that of the unit"); vf_assert(vf_streq(url, c(u->url)), "the url is that of the unit"); vf_assert(vf_streq(filename, c(u->filename)), "the filename is that of the unit"); vf_assert(vf_streq(version, c(u->version)), "the version is that of the unit"); vf_assert(vf_streq(timestamp, c(u->timestamp)), "the timestamp is that of the unit"); vf_assert(vf_streq(encoding, c(u->encoding)), "the encoding is that of the unit"); vf_assert(attributes == &u->attributes, "the attributes are those of the unit"); vf_assert(ns == &*u->namespaces, "the namespaces are those of the unit"); }
extern "C" void vgs_set_macros(srcml_translator* t, const void* list) { vf_assert((t == g_t) & (list == &g_u->archive->user_macro_list), "the macros are those of the archive"); ++g_macros; }
extern "C" void vgs_start_tag(srcMLOutput* o, const char* language, const char* revision, const char* url, const char* filename, const char* version, const char* timestamp, const char* hash, const char* encoding, const void* attributes, bool macros) {
    srcml_unit* u = g_u; vf_assert((o == &g_t->out) & (g_started == 0), "one start tag is written"); ++g_started; vf_assert(vf_streq(language, c(u->language, c(u->archive->language))), "the language is that of the unit, or else of the archive"); vf_assert(revision == g_t->revision, "the revision is that of the writer"); vf_assert(vf_streq(url, c(u->url)), "the url is that of the unit"); vf_assert(vf_streq(filename, c(u->filename)), "the filename is that of the unit"); vf_assert(vf_streq(version, c(u->version)), "the version is that of the unit"); vf_assert(vf_streq(timestamp, c(u->timestamp)), "the timestamp is that of the unit"); vf_assert(vf_streq(hash, c(u->hash)), "the hash is that of the unit"); vf_assert(vf_streq(encoding, c(u->encoding)), "the encoding is that of the unit"); vf_assert((attributes == &u->attributes) & !macros, "the attributes are those of the unit"); }
extern "C" int vgs_flush_start(xmlTextWriterPtr w) { vf_assert((w == g_t->out.xout) & (g_started == 1), "the start tag is written out"); g_t->out.output_buffer->written = (long) g_end; return 0; }
extern "C" const char* vgs_content(const xmlBuffer* b) { vf_assert((b == g_buffer) & (g_started == 1), "the start tag is read"); return g_head; }
extern "C" void vgs_close_old(srcml_translator* t) { vf_assert((t == g_old) & (g_closed == 0), "the writer before is closed once"); ++g_closed; }
extern "C" void vgs_destroy_old(srcml_translator* t) { vf_assert((t == g_old) & (g_closed == 1) & (g_deleted == 0), "the writer before is freed once"); ++g_deleted; }
extern "C" void vgs_free_old(xmlBuffer* b) { if (b == g_buffer) { vf_assert(g_xb_fails | g_ob_fails, "the buffer of the unit is kept"); return; } vf_assert((b == g_buffer2) & (g_freed == 0) & (g_old != 0), "the buffer before is freed once"); ++g_freed; }
static void start_unit(int field) {
    srcml_unit* u = g_u = arb_unit(); g_made = g_closed = g_macros = g_started = g_deleted = g_freed = 0; g_t = 0; g_buffer = (xmlBuffer*) vf_object("xb", 8); g_buffer2 = (xmlBuffer*) vf_object("xb2", 8); g_ob = (xmlOutputBuffer*) vf_object("ob", sizeof(xmlOutputBuffer)); g_xb_fails = g_ob_fails = false; g_old = 0; u->unit_translator = 0; u->output_buffer = 0;
    if (field == 8) { g_xb_fails = vf_bool("nobuffer"); g_ob_fails = vf_bool("nooutput"); } if (field == 9) { g_old = (srcml_translator*) vf_object("old", sizeof(srcml_translator)); u->unit_translator = g_old; u->output_buffer = g_buffer2; }
    if (field != 0) none(&u->filename); if (field != 1) none(&u->version); if (field != 2) none(&u->timestamp); if (field != 3) none(&u->hash); if (field != 4) none(&u->encoding); if (field != 5) none(&u->url); if (field != 6) none(&u->revision); if (field != 7) { none(&u->language); none(&u->archive->language); none(&u->archive->encoding); }
    std::string uri(vf_cstr("xmlns")), rest(vf_cstr("rest")); vf_assume((uri.find('"') == std::string::npos) & (uri.size() < (1u << 28)) & (rest.size() < (1u << 28))); std::string* head = new std::string("<unit xmlns=\""); *head += uri; *head += "\""; *head += rest; g_head = head->c_str(); g_end = head->size();
    int r = srcml_write_start_unit(u); if (g_xb_fails | g_ob_fails) { vf_assert((r == SRCML_STATUS_IO_ERROR) & (u->unit_translator == 0) & (u->output_buffer == 0), "a unit that cannot be started is not started"); vf_reach("failed"); return; }
    vf_assert(r == SRCML_STATUS_OK, "the unit is started"); vf_assert((g_made == 1) & (g_started == 1) & (g_macros == 1) & (u->unit_translator == g_t) & (u->output_buffer == g_buffer), "the unit has its writer"); vf_assert(g_t->is_outputting_unit & (g_t->output_unit_depth == 0), "no element is open"); vf_assert((g_deleted == (g_old ? 1 : 0)) & (g_freed == (g_old ? 1 : 0)), "the writer before is done with");
    vf_assert(u->content_begin == (int) head->size() + 1, "the content begins after the start tag"); vf_assert((u->insert_begin == 6) & (u->insert_end == (int) uri.size() + 15), "the declaration of the namespace is where it is"); vf_reach("end"); }
VF_HARNESS(start_filename) { start_unit(0); }
VF_HARNESS(start_version) { start_unit(1); }
VF_HARNESS(start_timestamp) { start_unit(2); }
VF_HARNESS(start_hash) { start_unit(3); }
VF_HARNESS(start_encoding) { start_unit(4); }
VF_HARNESS(start_url) { start_unit(5); }
VF_HARNESS(start_revision) { start_unit(6); }
VF_HARNESS(start_language) { start_unit(7); }
VF_HARNESS(start_fails) { start_unit(8); }
VF_HARNESS(start_again) { start_unit(9); }
VF_HARNESS(start_null) { vf_assert(srcml_write_start_unit(0) == SRCML_STATUS_INVALID_ARGUMENT, "no unit is reported"); vf_reach("end"); }
#endif
