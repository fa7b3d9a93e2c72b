"""Loop invariants (templates: the Houdini loop keeps those that are inductive) and function contracts."""
import z3
from .engine import *

def registry_lookup(eng, entry, header, ctx=None):
    if ctx is None: return True
    cands = []
    strs = []
    for oid, o in list(entry.mem.items()):
        if o.kind == 'cells':
            for off, b in o.strs.items():
                strs.append((oid, off))
    elems = [oid for oid, o in list(entry.mem.items()) + list(eng.base.items()) if o.kind == 'elems' and 0 in o.fields and o.fields[0][0] == 'S']
    for nm, fn, w in ctx.int_vars():
        for el in set(elems):
            for (oid, off) in strs:
                def inv(cx, fn=fn, el=el, oid=oid, off=off):
                    so = cx.eng.obj(cx.st, oid); b = so.strs.get(off)
                    if b is None: return None
                    E = S(cx.eng.obj(cx.st, b).content)
                    eo = cx.eng.obj(cx.st, el); arr = eo.fields[0][1]
                    j = z3.Int('j!')
                    return z3.ForAll([j], z3.Implies(z3.And(j > iv(fn(cx)), j < iv(eo.n)), z3.Select(arr, j) != E), patterns=[z3.Select(arr, j)])
                cands.append(('elements above %s differ' % nm, inv))
                def hi(cx, fn=fn, el=el): return ebool(iv(fn(cx)) < iv(cx.eng.obj(cx.st, el).n))
                cands.append(('%s < size' % nm, hi))
    return cands

def setup_registry(eng):
    eng.loopinv[r'language_extension_registry::get_language_from_filename'] = registry_lookup

def setup_language(eng):
    """the static initialisers of the language table run first"""
    eng.inits = [r'_GLOBAL__sub_I_Language']
def setup_views(eng):
    """read_body: its contract is in spec/P21_views.cpp"""
    from .engine import InlineCall
    eng.add_model(r'^srcml_sax2_reader::read_body\(', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_read_body'), a), kind='contract')
    from .engine import S, iv, isconc
    if not hasattr(eng, "keep"): eng.keep = []
    import z3
    def find_is(e, st, a, c):
        """assumes that the first y in x is at r (or that there is none), and remembers the position as a term"""
        x = e.str_get(st, a[0]); y = e.cstr(st, a[1], 'find_is'); r = a[2] if isconc(a[2]) else e.to_int(a[2], 64); none = isconc(r) and r == 2**64 - 1
        k = z3.IndexOf(S(x), S(y), 0); st.pc.append(k == -1 if none else z3.And(k == iv(r), iv(r) + len(y) <= z3.Length(S(x))))
        st.ghost = dict(st.ghost); st.ghost[('find', S(x).get_id(), y, 0)] = r; e.keep.append(S(x))
    eng.add_model('vg_find_is', find_is, exact=True, kind='intrinsic')

def setup_clone(eng):
    """assignment of containers copies them as a whole (trusted); creation is a contract of spec/P16_clone.cpp"""
    from .engine import InlineCall
    eng.add_model('srcml_archive_create', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_archive_create'), []), exact=True, kind='contract')
    eng.add_model('srcml_unit_create', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_unit_create'), a), exact=True, kind='contract')
    def key(p): return (p.obj, str(p.off), str(p.idx))
    def copy(e, st, a, c):
        st.ghost = dict(st.ghost); src = st.ghost.get(('val', key(a[1])), key(a[1])); st.ghost[('val', key(a[1]))] = src; st.ghost[('val', key(a[0]))] = src
        return a[0]
    for t in (r'std::vector<.*>', r'boost::multi_index::multi_index_container<.*>', r'language_extension_registry', r'boost::optional<.*>'):
        n = t.split('<')[0]; last = n.split('::')[-1]
        eng.add_model(r'^%s::(operator=|%s)\(%s.*&&?\)$' % (t, last, n), copy)
    def copy_of(e, st, a, c):
        x = st.ghost.get(('val', key(a[0])), key(a[0])); y = st.ghost.get(('val', key(a[1])), key(a[1])); return 1 if x == y else 0
    eng.add_model('vg_copy_of', copy_of, exact=True, kind='intrinsic')

def setup_archive(eng):
    """the contracts of the reader, the translator and the creation of a unit are in spec/P15_state.cpp"""
    from .engine import InlineCall
    for n, f in ((r'^srcml_sax2_reader::read_header\(', 'vgs_read_header'), (r'^srcml_sax2_reader::read_body\(', 'vgs_read_body'), (r'^srcml_translator::add_unit\(', 'vgs_add_unit')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), kind='contract')
    eng.add_model('srcml_unit_create', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_unit_create'), a), exact=True, kind='contract')
    eng.add_model('srcml_unit_free', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_unit_free'), a), exact=True, kind='contract')
    for n, f in ((r'^srcml_translator::srcml_translator\(', 'vgs_tr_new'), (r'^srcml_translator::set_macro_list\(', 'vgs_macros'), (r'^srcml_translator::close\(', 'vgs_tr_close'), (r'^srcml_translator::~srcml_translator\(', 'vgs_tr_delete'), (r'^srcml_sax2_reader::~srcml_sax2_reader\(', 'vgs_rd_delete')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), kind='contract')
    for n, f in (('srcml_check_language', 'vgs_check_language'), ('xmlBufferCreate', 'vgs_xmlBufferCreate'), ('xmlOutputBufferCreateBuffer', 'vgs_ob_buffer'), ('xmlOutputBufferCreateFilename', 'vgs_ob_filename'), ('xmlOutputBufferCreateFile', 'vgs_ob_file'), ('xmlOutputBufferCreateFd', 'vgs_ob_fd'), ('xmlOutputBufferCreateIO', 'vgs_ob_io'), ('xmlOutputBufferClose', 'vgs_ob_close'), ('xmlBufferDetach', 'vgs_detach'), ('xmlBufferFree', 'vgs_xmlBufferFree')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), exact=True, kind='trusted')

def setup_reading(eng):
    """registering a namespace and the spelling of its URI are contracts (spec/P15_attributes.cpp)"""
    from .engine import InlineCall
    eng.add_model('srcml_archive_register_namespace', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_register'), a), exact=True, kind='contract')
    eng.add_model(r'^srcml_uri_normalize\(', lambda e, st, a, c: None, kind='contract')

def setup_write(eng):
    """add_unit over the contracts of srcMLOutput and of the libxml2 writer (spec/P15_write.cpp); containers are copied as a whole (setup_clone)"""
    setup_clone(eng)
    from .engine import InlineCall
    for n, f in ((r'^srcml_translator::prepareOutput\(', 'vgs_prepare'), (r'^srcMLOutput::outputUnitSeparator\(', 'vgs_separator'), (r'^srcMLOutput::initNamespaces\(', 'vgs_init_namespaces'), (r'^srcMLOutput::startUnit\(', 'vgs_start_unit'), (r'^operator\+=\(boost::multi_index', 'vgs_merge')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), kind='contract')
    for n, f in (('xmlTextWriterWriteRawLen', 'vgs_raw'), ('xmlTextWriterEndElement', 'vgs_end')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), exact=True, kind='trusted')
    eng.add_model(r'^boost::multi_index::multi_index_container<.*>::~multi_index_container\(', lambda e, st, a, c: None)


def setup_document(eng):
    """prepareOutput and close over the contracts of srcMLOutput (spec/P15_write.cpp)"""
    from .engine import InlineCall
    for n, f in ((r'^srcMLOutput::outputXMLDecl\(', 'vgs_decl'), (r'^srcMLOutput::outputProcessingInstruction\(', 'vgs_pi'), (r'^srcMLOutput::outputUnitSeparator\(', 'vgs_doc_separator'), (r'^srcMLOutput::startUnit\(', 'vgs_root'), (r'^srcMLOutput::close\(', 'vgs_doc_close')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), kind='contract')

def setup_reader(eng):
    from .engine import InlineCall
    eng.add_model(r'^srcml_reader_handler::resume_and_wait\(', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_resume_and_wait'), a), kind='contract')

def setup_transforms(eng):
    """the list of transformations, their construction and the reading of their documents are contracts of spec/P17_list.cpp"""
    from .engine import InlineCall
    V = r'^std::vector<ArchiveTransformation, std::allocator<ArchiveTransformation> ?>::'
    for n, f, k in ((V + r'empty\(', 'vgs_l_empty', 'trusted'), (V + r'size\(', 'vgs_l_size', 'trusted'), (V + r'back\(', 'vgs_l_back', 'trusted'), (V + r'clear\(', 'vgs_l_clear', 'trusted'), (V + r'push_back\(', 'vgs_l_push', 'trusted'),
                    (r'^std::shared_ptr<Transformation const>::shared_ptr<Transformation, ', 'vgs_shared', 'trusted'), (r'std::__shared_ptr<Transformation const, .*>::reset<xpathTransformation>\(', 'vgs_reset', 'trusted'), (r'^xpathTransformation::xpathTransformation\(', 'vgs_xpath', 'contract'), (r'^xsltTransformation::xsltTransformation\(', 'vgs_xslt', 'contract'), (r'^relaxngTransformation::relaxngTransformation\(', 'vgs_relaxng', 'contract'),
                    (r'^(void )?std::vector<std::string, .*>::push_back\(', 'vgs_push_string', 'trusted')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), kind=k)
    for n, f in (('xmlReadFile', 'vgs_file'), ('xmlReadMemory', 'vgs_memory'), ('xmlReadIO', 'vgs_io'), ('xmlReadFd', 'vgs_fd'), ('xmlFreeDoc', 'vgs_freedoc')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), exact=True, kind='trusted')
    eng.add_model('xmlRegisterDefaultInputCallbacks', lambda e, st, a, c: None, exact=True, kind='trusted')
    eng.add_model('__dynamic_cast', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_dyncast'), a[:1]), exact=True, kind='trusted')
