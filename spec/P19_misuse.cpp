// P19: calls that make no sense (NULL objects, missing arguments, wrong order, positions beyond the end) are refused
// with the documented value and change nothing.
#include "api.h"
#include <srcml_types.hpp>
#include <cstdio>
#ifdef VF_NATIVE
#include <unistd.h>
#endif
static int wr(void*, const char*, int n) { return n; }
static int rd(void*, char*, int) { return 0; }
static ssize_t rd2(void*, void*, size_t) { return 0; }
static int cl(void*) { return 0; }
#define INV SRCML_STATUS_INVALID_ARGUMENT
#define REFUSE(e) vf_assert((e) == INV, "a NULL object or argument is refused with INVALID_ARGUMENT: " #e)
#define NOTHING(e) vf_assert(!(e), "a NULL object or argument gives 0 or NULL: " #e)

VF_HARNESS(null_archive_setters) {
    const char* s = vf_cstr_or_null("s"); const char* t = vf_cstr_or_null("t"); size_t n = vf_u64("n");
    REFUSE(srcml_archive_set_xml_encoding(0, s)); REFUSE(srcml_archive_set_src_encoding(0, s)); REFUSE(srcml_archive_set_language(0, s));
    REFUSE(srcml_archive_set_url(0, s)); REFUSE(srcml_archive_set_version(0, s)); REFUSE(srcml_archive_set_options(0, n)); REFUSE(srcml_archive_enable_option(0, n)); REFUSE(srcml_archive_disable_option(0, n));
    REFUSE(srcml_archive_set_tabstop(0, n)); REFUSE(srcml_archive_register_file_extension(0, s, t)); REFUSE(srcml_archive_register_namespace(0, s, t)); REFUSE(srcml_archive_set_processing_instruction(0, s, t));
    REFUSE(srcml_archive_set_srcdiff_revision(0, n));
    REFUSE(srcml_archive_enable_solitary_unit(0)); REFUSE(srcml_archive_disable_solitary_unit(0)); REFUSE(srcml_archive_enable_hash(0)); REFUSE(srcml_archive_disable_hash(0));
    vf_reach("end");
}
VF_HARNESS(null_archive_getters) {
    const char* s = vf_cstr_or_null("s"); size_t n = vf_u64("n");
    NOTHING(srcml_archive_get_xml_encoding(0)); NOTHING(srcml_archive_get_src_encoding(0)); NOTHING(srcml_archive_get_revision(0)); NOTHING(srcml_archive_get_language(0)); NOTHING(srcml_archive_get_url(0)); NOTHING(srcml_archive_get_version(0));
    NOTHING(srcml_archive_get_namespace_size(0)); NOTHING(srcml_archive_get_namespace_prefix(0, n)); NOTHING(srcml_archive_get_namespace_uri(0, n)); NOTHING(srcml_archive_get_prefix_from_uri(0, s)); NOTHING(srcml_archive_get_uri_from_prefix(0, s));
    NOTHING(srcml_archive_get_processing_instruction_target(0)); NOTHING(srcml_archive_get_processing_instruction_data(0)); NOTHING(srcml_archive_check_extension(0, s));
    NOTHING(srcml_archive_is_solitary_unit(0)); NOTHING(srcml_archive_has_hash(0)); NOTHING(srcml_archive_clone(0)); NOTHING(srcml_archive_read_unit(0)); NOTHING(srcml_archive_skip_unit(0));
    REFUSE(srcml_archive_error_number(0)); vf_assert(srcml_archive_error_string(0) != 0, "the error string of a NULL archive is a string");
    vf_assert(srcml_archive_get_srcdiff_revision(0) == SRCDIFF_REVISION_INVALID, "a NULL archive has no srcDiff revision");
    srcml_archive_close(0); srcml_archive_free(0);
    vf_reach("end");
}
VF_HARNESS(null_archive_io) {
    const char* s = vf_cstr_or_null("s"); size_t n = vf_u64("n"); int fd = vf_int("fd"); char* b = 0; size_t z = 7; srcml_unit u; char ctx;
    REFUSE(srcml_archive_write_unit(0, 0)); REFUSE(srcml_archive_write_string(0, s, fd));
    REFUSE(srcml_archive_write_open_filename(0, s)); REFUSE(srcml_archive_write_open_memory(0, &b, &z)); REFUSE(srcml_archive_write_open_FILE(0, 0)); REFUSE(srcml_archive_write_open_fd(0, fd)); REFUSE(srcml_archive_write_open_io(0, &ctx, wr, cl));
    REFUSE(srcml_archive_read_open_filename(0, s)); REFUSE(srcml_archive_read_open_memory(0, s, n)); REFUSE(srcml_archive_read_open_FILE(0, 0)); REFUSE(srcml_archive_read_open_fd(0, fd)); REFUSE(srcml_archive_read_open_io(0, &ctx, rd, cl));
    vf_assert(b == 0 && z == 7, "a refused open writes nothing");
    vf_reach("end");
}
VF_HARNESS(null_archive_transforms) {
    const char* s = vf_cstr_or_null("s"); const char* t = vf_cstr_or_null("t"); size_t n = vf_u64("n"); int fd = vf_int("fd"); srcml_transform_result* r = 0;
    REFUSE(srcml_append_transform_xpath(0, s)); REFUSE(srcml_append_transform_xpath_attribute(0, s, s, t, s, t)); REFUSE(srcml_append_transform_xpath_element(0, s, s, t, s));
    REFUSE(srcml_append_transform_xslt_filename(0, s)); REFUSE(srcml_append_transform_xslt_memory(0, s, n)); REFUSE(srcml_append_transform_xslt_FILE(0, 0)); REFUSE(srcml_append_transform_xslt_fd(0, fd));
    REFUSE(srcml_append_transform_relaxng_filename(0, s)); REFUSE(srcml_append_transform_relaxng_memory(0, s, n)); REFUSE(srcml_append_transform_relaxng_FILE(0, 0)); REFUSE(srcml_append_transform_relaxng_fd(0, fd));
    REFUSE(srcml_append_transform_param(0, s, t)); REFUSE(srcml_append_transform_stringparam(0, s, t)); REFUSE(srcml_clear_transforms(0)); REFUSE(srcml_unit_apply_transforms(0, 0, &r));
    vf_assert(r == 0, "a refused transformation gives no result");
    NOTHING(srcml_transform_get_type(0)); NOTHING(srcml_transform_get_unit_size(0)); NOTHING(srcml_transform_get_unit(0, fd)); NOTHING(srcml_transform_get_string(0)); { union { double d; unsigned long long i; } x; x.d = srcml_transform_get_number(0); vf_assert(x.i == 0, "NULL has no number"); } vf_assert(srcml_transform_get_bool(0) == -1, "NULL has no boolean result");
    REFUSE(srcml_transform_free(0));
    vf_reach("end");
}
VF_HARNESS(null_unit) {
    const char* s = vf_cstr_or_null("s"); const char* t = vf_cstr_or_null("t"); size_t n = vf_u64("n"); int fd = vf_int("fd"); char* b = 0; size_t z = 7; char ctx;
    REFUSE(srcml_unit_set_src_encoding(0, s)); REFUSE(srcml_unit_set_language(0, s)); REFUSE(srcml_unit_set_filename(0, s)); REFUSE(srcml_unit_set_version(0, s)); REFUSE(srcml_unit_set_timestamp(0, s)); REFUSE(srcml_unit_set_hash(0, s)); REFUSE(srcml_unit_set_eol(0, n));
    NOTHING(srcml_unit_create(0)); NOTHING(srcml_unit_clone(0)); NOTHING(srcml_unit_get_src_encoding(0)); NOTHING(srcml_unit_get_revision(0)); NOTHING(srcml_unit_get_language(0)); NOTHING(srcml_unit_get_filename(0)); NOTHING(srcml_unit_get_version(0)); NOTHING(srcml_unit_get_timestamp(0)); NOTHING(srcml_unit_get_hash(0)); NOTHING(srcml_unit_get_eol(0));
    vf_assert(srcml_unit_get_loc(0) == -1, "NULL has no lines of code"); REFUSE(srcml_unit_error_number(0)); vf_assert(srcml_unit_error_string(0) != 0, "the error string of a NULL unit is a string");
    NOTHING(srcml_unit_get_srcml(0)); NOTHING(srcml_unit_get_srcml_outer(0)); NOTHING(srcml_unit_get_srcml_inner(0));
    REFUSE(srcml_unit_parse_filename(0, s)); REFUSE(srcml_unit_parse_memory(0, s, n)); REFUSE(srcml_unit_parse_FILE(0, 0)); REFUSE(srcml_unit_parse_fd(0, fd)); REFUSE(srcml_unit_parse_io(0, &ctx, rd2, cl));
    REFUSE(srcml_unit_unparse_filename(0, s)); REFUSE(srcml_unit_unparse_memory(0, &b, &z)); REFUSE(srcml_unit_unparse_FILE(0, 0)); REFUSE(srcml_unit_unparse_fd(0, fd)); REFUSE(srcml_unit_unparse_io(0, &ctx, wr, cl));
    REFUSE(srcml_write_start_unit(0)); REFUSE(srcml_write_end_unit(0)); REFUSE(srcml_write_start_element(0, s, t, s)); REFUSE(srcml_write_end_element(0)); REFUSE(srcml_write_namespace(0, s, t)); REFUSE(srcml_write_attribute(0, s, t, s, t)); REFUSE(srcml_write_string(0, s));
    srcml_unit_free(0);
    vf_assert(b == 0 && z == 7, "a refused unparse writes nothing");
    vf_reach("end");
}
// an archive in any state, and one argument missing
VF_HARNESS(null_argument_archive) {
    srcml_archive* a = arb_archive(); ArchiveObs o; archive_save(a, o);
    const char* s = vf_cstr_or_null("s"); int neg = vf_int("neg"); vf_assume(neg < 0); char* b = 0; size_t z = 7; char ctx;
    SRCML_ARCHIVE_TYPE type = a->type;
    REFUSE(srcml_archive_write_unit(a, 0)); REFUSE(srcml_archive_write_string(a, 0, 3)); REFUSE(srcml_archive_write_string(a, "x", neg));
    REFUSE(srcml_archive_write_open_filename(a, 0)); REFUSE(srcml_archive_write_open_memory(a, 0, &z)); REFUSE(srcml_archive_write_open_memory(a, &b, 0)); REFUSE(srcml_archive_write_open_FILE(a, 0)); REFUSE(srcml_archive_write_open_fd(a, neg));
    REFUSE(srcml_archive_write_open_io(a, 0, wr, cl)); REFUSE(srcml_archive_write_open_io(a, &ctx, 0, cl));
    REFUSE(srcml_archive_read_open_filename(a, 0)); REFUSE(srcml_archive_read_open_memory(a, 0, 4)); REFUSE(srcml_archive_read_open_memory(a, "", 0)); REFUSE(srcml_archive_read_open_FILE(a, 0)); REFUSE(srcml_archive_read_open_fd(a, neg)); REFUSE(srcml_archive_read_open_io(a, 0, rd, cl)); REFUSE(srcml_archive_read_open_io(a, &ctx, 0, cl));
    REFUSE(srcml_archive_register_file_extension(a, 0, s)); REFUSE(srcml_archive_register_file_extension(a, s, 0)); REFUSE(srcml_archive_register_namespace(a, 0, s)); REFUSE(srcml_archive_register_namespace(a, s, 0));
    REFUSE(srcml_archive_set_processing_instruction(a, 0, s)); REFUSE(srcml_archive_set_processing_instruction(a, s, 0));
    vf_assert(b == 0 && z == 7 && a->type == type, "a refused open changes nothing");
    archive_same(a, o, 0);
    vf_reach("end");
}
VF_HARNESS(null_argument_transform) {
    srcml_archive* a = arb_archive();
    const char* s = vf_cstr("s"); const char* t = vf_cstr_or_null("t"); int neg = vf_int("neg"); vf_assume(neg < 0);
    REFUSE(srcml_append_transform_xpath(a, 0)); REFUSE(srcml_append_transform_xpath_attribute(a, 0, t, t, t, t)); REFUSE(srcml_append_transform_xpath_attribute(a, s, 0, s, s, s)); REFUSE(srcml_append_transform_xpath_attribute(a, s, s, 0, s, s)); REFUSE(srcml_append_transform_xpath_attribute(a, s, s, s, 0, s)); REFUSE(srcml_append_transform_xpath_attribute(a, s, s, s, s, 0));
    REFUSE(srcml_append_transform_xpath_element(a, 0, t, t, t)); REFUSE(srcml_append_transform_xpath_element(a, s, 0, s, s)); REFUSE(srcml_append_transform_xpath_element(a, s, s, 0, s)); REFUSE(srcml_append_transform_xpath_element(a, s, s, s, 0));
    REFUSE(srcml_append_transform_xslt_filename(a, 0)); REFUSE(srcml_append_transform_xslt_memory(a, 0, 5)); REFUSE(srcml_append_transform_xslt_memory(a, s, 0)); REFUSE(srcml_append_transform_xslt_FILE(a, 0)); REFUSE(srcml_append_transform_xslt_fd(a, neg));
    REFUSE(srcml_append_transform_relaxng_filename(a, 0)); REFUSE(srcml_append_transform_relaxng_memory(a, 0, 5)); REFUSE(srcml_append_transform_relaxng_memory(a, s, 0)); REFUSE(srcml_append_transform_relaxng_FILE(a, 0)); REFUSE(srcml_append_transform_relaxng_fd(a, neg));
    REFUSE(srcml_append_transform_param(a, 0, t)); REFUSE(srcml_append_transform_param(a, s, 0)); REFUSE(srcml_append_transform_stringparam(a, 0, t)); REFUSE(srcml_append_transform_stringparam(a, s, 0)); REFUSE(srcml_unit_apply_transforms(a, 0, 0));
    vf_reach("end");
}
VF_HARNESS(null_argument_unit) {
    srcml_unit* u = arb_unit(); UnitObs o; unit_save(u, o);
    const char* s = vf_cstr_or_null("s"); const char* t = vf_cstr_or_null("t"); int neg = vf_int("neg"); vf_assume(neg < 0); size_t n = vf_u64("n"); vf_assume(n > 0); char* b = 0; size_t z = 7; char ctx;
    REFUSE(srcml_unit_apply_transforms(0, u, 0));
    REFUSE(srcml_unit_parse_filename(u, 0)); REFUSE(srcml_unit_parse_memory(u, 0, n)); REFUSE(srcml_unit_parse_FILE(u, 0)); REFUSE(srcml_unit_parse_fd(u, neg)); REFUSE(srcml_unit_parse_io(u, 0, rd2, cl)); REFUSE(srcml_unit_parse_io(u, &ctx, 0, cl));
    REFUSE(srcml_unit_unparse_filename(u, 0)); REFUSE(srcml_unit_unparse_memory(u, 0, &z)); REFUSE(srcml_unit_unparse_memory(u, &b, 0)); REFUSE(srcml_unit_unparse_FILE(u, 0)); REFUSE(srcml_unit_unparse_fd(u, neg)); REFUSE(srcml_unit_unparse_io(u, 0, wr, cl)); REFUSE(srcml_unit_unparse_io(u, &ctx, 0, cl));
    REFUSE(srcml_write_start_element(u, s, 0, t)); REFUSE(srcml_write_namespace(u, s, 0)); REFUSE(srcml_write_attribute(u, s, 0, t, s)); REFUSE(srcml_write_string(u, 0));
    vf_assert(b == 0 && z == 7, "a refused unparse writes nothing");
    unit_same(u, o, 0);
    vf_reach("end");
}
// ---- wrong order
VF_HARNESS(order_write_elements) {
    srcml_unit* u = arb_unit(); vf_assume(u->unit_translator == 0); UnitObs o; unit_save(u, o);
    const char* s = vf_cstr_or_null("s"); const char* t = vf_cstr("t"); const char* c = vf_cstr_or_null("c");
    vf_assert(srcml_write_start_element(u, s, t, c) == SRCML_STATUS_INVALID_INPUT, "an element before the start of the unit is refused");
    vf_assert(srcml_write_end_element(u) == SRCML_STATUS_INVALID_INPUT, "an end tag before the start of the unit is refused");
    vf_assert(srcml_write_namespace(u, s, t) == SRCML_STATUS_INVALID_INPUT, "a namespace before the start of the unit is refused");
    vf_assert(srcml_write_attribute(u, s, t, c, c) == SRCML_STATUS_INVALID_INPUT, "an attribute before the start of the unit is refused");
    vf_assert(srcml_write_string(u, t) == SRCML_STATUS_INVALID_INPUT, "text before the start of the unit is refused");
    vf_assert(srcml_write_end_unit(u) == SRCML_STATUS_INVALID_INPUT, "the end of a unit that was not started is refused");
    unit_same(u, o, 0);
    vf_reach("end");
}
VF_HARNESS(order_write_unit) {
    srcml_unit* u = arb_unit(); srcml_archive* a = arb_archive(); ArchiveObs o; archive_save(a, o);
    if (!u->read_body && !u->read_header) { vf_assert(srcml_archive_write_unit(a, u) == SRCML_STATUS_UNINITIALIZED_UNIT, "a unit without content cannot be written"); vf_reach("empty"); }
    else if (u->read_body && a->type != SRCML_ARCHIVE_WRITE && a->type != SRCML_ARCHIVE_RW) { vf_assert(srcml_archive_write_unit(a, u) == SRCML_STATUS_INVALID_IO_OPERATION, "only an archive that is open for writing takes units"); vf_reach("not open"); }
    else return;
    archive_same(a, o, 0);
}
VF_HARNESS(order_read) {
    srcml_archive* a = arb_archive(); vf_assume(a->type != SRCML_ARCHIVE_READ && a->type != SRCML_ARCHIVE_RW); ArchiveObs o; archive_save(a, o);
    vf_assert(srcml_archive_read_unit(a) == 0, "only an archive that is open for reading gives units");
    vf_assert(srcml_archive_skip_unit(a) == 0, "only an archive that is open for reading skips units");
    archive_same(a, o, 0);
    vf_reach("end");
}
VF_HARNESS(order_unit_content) {
    srcml_unit* u = arb_unit(); UnitObs o; unit_save(u, o); char* b = 0; size_t z = 7; char ctx; const char* f = "/nonexistent-vf/f";
    bool none = !u->read_body && !u->read_header; bool readable = u->archive->type == SRCML_ARCHIVE_READ || u->archive->type == SRCML_ARCHIVE_RW;
    if (none) { vf_assert(srcml_unit_get_srcml(u) == 0 && srcml_unit_get_srcml_outer(u) == 0 && srcml_unit_get_srcml_inner(u) == 0, "a unit without content has no srcML"); vf_reach("none"); }
    int want = !readable ? SRCML_STATUS_INVALID_IO_OPERATION : none ? SRCML_STATUS_UNINITIALIZED_UNIT : SRCML_STATUS_OK;
    if (want == SRCML_STATUS_OK) return;
    vf_assert(srcml_unit_unparse_filename(u, f) == want, "a unit that was not read cannot be unparsed to a file");
    vf_assert(srcml_unit_unparse_memory(u, &b, &z) == want && b == 0 && z == 7, "a unit that was not read cannot be unparsed to memory");
    vf_assert(srcml_unit_unparse_fd(u, 1 << 20) == want, "a unit that was not read cannot be unparsed to a descriptor");
    vf_assert(srcml_unit_unparse_io(u, &ctx, wr, cl) == want, "a unit that was not read cannot be unparsed to callbacks");
    unit_same(u, o, 0);
    vf_reach("refused");
}
VF_HARNESS(order_parse_language) {
    srcml_unit* u = arb_unit(); UnitObs o;
    vf_assume(!u->language && !u->archive->language);
    unit_save(u, o); size_t n; const char* p = vf_bytes("src", &n); char ctx;
    vf_assert(srcml_unit_parse_memory(u, p, n) == SRCML_STATUS_UNSET_LANGUAGE, "source in memory without a language is refused");
    vf_assert(srcml_unit_parse_io(u, &ctx, rd2, cl) == SRCML_STATUS_UNSET_LANGUAGE, "source from callbacks without a language is refused");
    vf_assert(srcml_unit_parse_fd(u, 1 << 20) == SRCML_STATUS_UNSET_LANGUAGE, "source from a descriptor without a language is refused");
    unit_same(u, o, 0);
    vf_reach("end");
}
VF_HARNESS(order_params) {
    srcml_archive* a = arb_archive();
    if (vf_symbolic()) { typedef __typeof__(a->transformations) L; new (&a->transformations) L(); }
    else srcml_clear_transforms(a);
    const char* s = vf_cstr("s"); const char* t = vf_cstr("t");
    vf_assert(srcml_append_transform_param(a, s, t) == SRCML_STATUS_NO_TRANSFORMATION, "a parameter needs a transformation");
    vf_assert(srcml_append_transform_stringparam(a, s, t) == SRCML_STATUS_NO_TRANSFORMATION, "a string parameter needs a transformation");
    vf_assert(a->transformations.empty(), "a refused parameter adds nothing");
    vf_reach("end");
}
VF_HARNESS(order_no_transforms) {
    srcml_unit* u = arb_unit(); vf_assume(u->archive->transformations.empty()); UnitObs o; unit_save(u, o);
    srcml_transform_result* r = 0;
    vf_assert(srcml_unit_apply_transforms(u->archive, u, &r) == SRCML_STATUS_OK && r == 0, "no transformation leaves the unit alone");
    unit_same(u, o, 0);
    vf_reach("end");
}
