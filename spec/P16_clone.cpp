// P16: cloning copies the whole state of an archive or unit, opens nothing, and shares nothing that can change.
#include "api.h"
#ifndef VF_NATIVE
// the containers are copied as a whole by the assignment operators of the standard library and of boost (trusted): ghost "is a copy of"
extern "C" bool vg_copy_of(const void* x, const void* y);
// contract of the default construction inside srcml_archive_create / srcml_unit_create: a new object in any state with no error
static srcml_archive* g_new; static srcml_unit* g_newu;
extern "C" srcml_archive* vgs_archive_create() { return g_new = (srcml_archive*) vf_object("new", sizeof(srcml_archive)); }
extern "C" srcml_unit* vgs_unit_create(srcml_archive* a) { g_newu = (srcml_unit*) vf_object("newunit", sizeof(srcml_unit)); g_newu->archive = a; g_newu->read_body = false; g_newu->read_header = false; g_newu->output_buffer = 0; g_newu->unit_translator = 0; return g_newu; }
VF_HARNESS(archive_clone) {
    srcml_archive* a = arb_archive(); vf_frame_save(a, sizeof *a);
    srcml_archive* c = srcml_archive_clone(a);
    vf_assert(c != 0, "an archive can be cloned"); vf_assert(c != a, "a clone is another archive");
    vf_frame_check(a, sizeof *a, 0, 0, 0, 0, "the original is not changed");
    vf_assert(vg_copy_of(&c->encoding, &a->encoding) & vg_copy_of(&c->src_encoding, &a->src_encoding) & vg_copy_of(&c->revision, &a->revision) & vg_copy_of(&c->language, &a->language) & vg_copy_of(&c->url, &a->url) & vg_copy_of(&c->version, &a->version), "the encodings, revision, language, url and version are cloned");
    vf_assert((c->tabstop == a->tabstop) & (srcml_archive_is_solitary_unit(c) == srcml_archive_is_solitary_unit(a)) & (srcml_archive_has_hash(c) == srcml_archive_has_hash(a)), "the tab stop is cloned");
    vf_assert(srcml_archive_get_srcdiff_revision(c) == srcml_archive_get_srcdiff_revision(a), "the srcDiff revision is cloned");
    vf_assert(c->options == a->options, "all options are cloned");
    vf_assert(vg_copy_of(&c->attributes, &a->attributes), "the attributes are cloned");
    vf_assert(vg_copy_of(&c->namespaces, &a->namespaces), "the namespaces are cloned");
    vf_assert(vg_copy_of(&c->registered_languages, &a->registered_languages), "the registered extensions are cloned");
    vf_assert(vg_copy_of(&c->user_macro_list, &a->user_macro_list), "the macros are cloned");
    vf_assert(vg_copy_of(&c->transformations, &a->transformations), "the transformations are cloned");
    vf_assert(vg_copy_of(&c->processing_instruction, &a->processing_instruction), "the processing instruction is cloned");
    vf_assert((c->type == SRCML_ARCHIVE_INVALID) & (c->translator == 0) & (c->reader == 0) & (c->output_buffer == 0) & (c->xbuffer == 0) & (c->buffer == 0) & (c->size == 0) & !c->rawwrites, "a clone is not open");
    vf_assert((c->error_number == 0) & vf_streq(srcml_archive_error_string(c), ""), "a clone has no error");
    vf_reach("end");
}
VF_HARNESS(archive_clone_null) { vf_assert(srcml_archive_clone(0) == 0, "there is no clone of no archive"); vf_reach("end"); }
VF_HARNESS(unit_clone) {
    srcml_unit* u = arb_unit(); vf_frame_save(u, sizeof *u);
    srcml_unit* c = srcml_unit_clone(u);
    vf_assert(c != 0, "a unit can be cloned"); vf_assert(c != u, "a clone is another unit"); vf_assert(c->archive == u->archive, "a clone is of the same archive");
    vf_frame_check(u, sizeof *u, 0, 0, 0, 0, "the original is not changed");
    vf_assert(vg_copy_of(&c->encoding, &u->encoding) & vg_copy_of(&c->revision, &u->revision) & vg_copy_of(&c->language, &u->language) & vg_copy_of(&c->filename, &u->filename) & vg_copy_of(&c->url, &u->url) & vg_copy_of(&c->version, &u->version) & vg_copy_of(&c->timestamp, &u->timestamp) & vg_copy_of(&c->hash, &u->hash), "the encoding, revision, language, filename, url, version, timestamp and hash are cloned");
    vf_assert(c->eol == u->eol, "the kind of line ends is cloned");
    vf_assert(c->derived_language == u->derived_language, "the derived language is cloned");
    vf_assert(vg_copy_of(&c->attributes, &u->attributes), "the attributes are cloned");
    vf_assert(vg_copy_of(&c->namespaces, &u->namespaces), "the namespaces are cloned");
    vf_assert(!c->read_body & !c->read_header & (c->output_buffer == 0) & (c->unit_translator == 0), "the contents are not cloned");
    vf_assert(srcml_unit_get_srcml(c) == 0, "a clone has no contents"); vf_reach("end");
}
VF_HARNESS(unit_clone_null) { vf_assert(srcml_unit_clone(0) == 0, "there is no clone of no unit"); vf_reach("end"); }
#endif
