"""Ghost output of the libxml2 writer, and ghost functions (recursive definitions over byte sequences, unfolded where needed)."""
import z3
from .engine import *

def fold(eng, name, step):
    """H : Bytes -> Bytes with H(empty) = empty and H(t ++ [c]) = H(t) ++ step(c)"""
    h = z3.Function(name, BYTES, BYTES)
    def unfold(x, k):
        """definition at the k-th byte of x:  1 <= k <= |x|  =>  H(x[0..k)) = H(x[0..k-1)) ++ step(x[k-1])"""
        x = S(x); k = z3.simplify(iv(k)); j = z3.simplify(k - 1)
        return z3.Implies(z3.And(k >= 1, k <= z3.Length(x)), h(z3.Extract(x, 0, k)) == z3.Concat(h(z3.Extract(x, 0, j)), step(x[j])))
    h.unfold_ = None
    return h, unfold, h(seqval(b'')) == seqval(b'')

def fold_invariants(eng, ctx, h, unfold, base, grow=1, free=False):
    """loop invariants: a string / ghost sequence that the loop extends equals its initial value ++ H(prefix read so far)"""
    out = []
    srcs = []
    for nm, fn, oid in ctx.ptr_vars():
        if eng.obj(ctx.entry, oid).kind == 'bytes': srcs.append((nm, oid, lambda c, fn=fn: c.eng.iptr(c.st, fn(c))))
    datas = set(o for o in list(ctx.entry.mem) + list(eng.base) if (ctx.entry.mem.get(o) or eng.base.get(o)).kind == 'bytes')
    if free:        # only sequences that are free variables, each once
        seen = {}
        for o in sorted(datas):
            c = eng.obj(ctx.entry, o).content
            if z3.is_expr(c) and z3.is_const(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED: seen.setdefault(c.get_id(), o)
        datas = set(seen.values())
    for nm, fn, w in ctx.int_vars():
        for oid in datas:
            if free and nm in dict(ctx.phis):
                fn = lambda c, nm=nm, w=w: c.eng.to_int(c.reg(nm), w)
                out.append(('%s within %s' % (nm, oid), lambda cx, fn=fn, oid=oid: ebool(z3.And(iv(fn(cx)) >= 0, iv(fn(cx)) <= z3.Length(S(cx.eng.obj(cx.st, oid).content))))))
            srcs.append(('%s into %s' % (nm, oid), oid, fn))
    dsts = []
    for (oid, off) in ctx.modstr:
        dsts.append(('string %d+%d' % (oid, off), lambda c, oid=oid, off=off: c.eng.obj(c.st, c.eng.obj(c.st, oid).strs[off]).content))
    for g in ctx.modghost:
        if g == 'out': dsts.append(('ghost ' + g, lambda c, g=g: c.st.ghost[g]))
    for sn, oid, idx in srcs:
        for dn, dst in dsts:
            def inv(cx, oid=oid, idx=idx, dst=dst):
                x = S(cx.eng.obj(cx.st, oid).content); i = iv(idx(cx)); i0 = iv(idx(cx.at(cx.entry)))
                if not (isconc(i0) or z3.is_int_value(z3.simplify(i0))): return None
                if z3.simplify(i0).as_long() != 0: return None
                return S(dst(cx)) == S(sconcat(dst(cx.at(cx.entry)), h(z3.Extract(x, z3.IntVal(0), z3.simplify(i)))))
            def lem(cx, oid=oid, idx=idx):
                x = cx.eng.obj(cx.st, oid).content
                if isconc(x): return []
                return [base, unfold(x, idx(cx))]
            inv.lemmas = lem
            def ln(cx, idx=idx, dst=dst):
                i0 = z3.simplify(iv(idx(cx.at(cx.entry))))
                if not z3.is_int_value(i0) or i0.as_long() != 0: return None
                return ebool(iv(slen(dst(cx))) <= iv(slen(dst(cx.at(cx.entry)))) + grow * iv(idx(cx)))
            out.append(('|%s| <= |initial| + %d * %s' % (dn, grow, sn), ln))
            out.append(('%s = initial ++ %s(prefix up to %s)' % (dn, h.name(), sn), inv))
    return out

def esc_step(c):
    return z3.If(c == ord('<'), seqval(b'&lt;'), z3.If(c == ord('>'), seqval(b'&gt;'), z3.If(c == ord('&'), seqval(b'&amp;'), z3.Unit(c))))

def emit(st, x):
    st.ghost = dict(st.ghost); st.ghost['out'] = sconcat(st.ghost.get('out', b''), x)

def setup_position(eng):
    eng.use_positoa = True; setup_output(eng)

def setup_output(eng):
    exact = lambda n, fn, kind='trusted': eng.add_model(n, fn, exact=True, kind=kind)
    esc, unf, base = fold(eng, 'esc', esc_step)
    eng.loopinv[r'^srcMLOutput::processText'] = lambda e, entry, header, ctx=None: True if ctx is None else fold_invariants(e, ctx, esc, unf, base, 5)
    def raw(e, st, a, c):
        emit(st, e.ptr_range(e, st, a[1], a[2], "xmlTextWriterWriteRawLen")); return 0
    exact('xmlTextWriterWriteRawLen', raw)
    attesc = z3.Function('attribute.escape', BYTES, BYTES)
    def cs(e, st, v, why):
        n = e.isnull(v)
        if n is True: return None
        if n is not False: raise ToolLimit('maybe-null ' + why)
        return e.cstr(st, v, why)
    def att(x, y): return sconcat(b' ', x, b'="', attesc(S(y)), b'"')
    def start(e, st, a, c):
        p = cs(e, st, a[1], 'prefix'); emit(st, sconcat(b'<', p if p is not None else b'', b':' if p is not None else b'', cs(e, st, a[2], 'name'))); return 1
    exact('xmlTextWriterStartElementNS', start)
    def attr(e, st, a, c): emit(st, att(cs(e, st, a[1], 'attribute'), cs(e, st, a[2], 'value'))); return 1
    exact('xmlTextWriterWriteAttribute', attr)
    def end(e, st, a, c): emit(st, b'</>'); return 1
    exact('xmlTextWriterEndElement', end)
    def bufw(e, st, a, c): emit(st, e.ptr_range(e, st, a[2], a[1], 'xmlOutputBufferWrite')); return 1
    exact('xmlOutputBufferWrite', bufw)
    def bufs(e, st, a, c): emit(st, e.cstr(st, a[1], 'xmlOutputBufferWriteString')); return 1
    exact('xmlOutputBufferWriteString', bufs)
    def is_start(e, st, a, c):
        p = cs(e, st, a[0], 'prefix'); pl = slen(p)
        x = sconcat(b'<', z3.If(iv(pl) == 0, seqval(b''), S(sconcat(p, b':'))) if not isconc(pl) else (sconcat(p, b':') if pl else b''), cs(e, st, a[1], 'name'))
        for i in (2, 4):
            n = cs(e, st, a[i], 'attribute')
            if n is not None: x = sconcat(x, att(n, cs(e, st, a[i + 1], 'value')))
        em = e.to_bool(a[6])
        if em is True: x = sconcat(x, b'</>')
        return seq_eq(st.ghost.get('out', b''), x)
    exact('vg_is_start', is_start, 'intrinsic')
    exact('vg_is_end', lambda e, st, a, c: seq_eq(st.ghost.get('out', b''), b'</>'), 'intrinsic')
    def reset(e, st, a, c): st.ghost = dict(st.ghost); st.ghost['out'] = b''
    exact('vg_out_reset', reset, 'intrinsic')
    def escaped(e, st, a, c):
        x = e.str_get(st, a[0])
        # lemma (by induction, checked below): a text without <, >, & is its own escape
        st.pc.append(z3.Implies(ebool(e.notin(S(x), b'<>&')), esc(S(x)) == S(x)))
        return seq_eq(st.ghost.get('out', b''), esc(S(x)))
    exact('vg_out_escaped', escaped, 'intrinsic')
    def is_(e, st, a, c): return seq_eq(st.ghost.get('out', b''), e.cstr(st, a[0], 'expected output'))
    exact('vg_out_is', is_, 'intrinsic')
    # ---- positions: the contract of positoa is proved by the harness "decimal"
    dec = z3.Function('decimal', z3.IntSort(), BYTES)
    def posbuf(e, st):
        if not hasattr(e, 'posbuf'): o = e.new_obj(st, 'bytes', None, 'positoa buffer', base=True); o.content = b''; o.nul = True; o.nonul = True; e.posbuf = o.id
        return e.posbuf
    def positoa(e, st, a, c):
        n = iv(e.to_sint(a[0], 32, st)); e.oblige(st, n >= 0, 'precondition of positoa: not negative', 'pre')
        x = dec(n); st.pc += [z3.Length(x) > 0, z3.Length(x) <= 10, ebool(e.notin(x, b'\0'))]
        o = e.wobj(st, posbuf(e, st)); o.content = x
        return Ptr(o.id)
    if getattr(eng, 'use_positoa', False): exact('(anonymous namespace)::positoa(int)', positoa, 'contract')
    def vpos(e, st, a, c):
        p = e.str_get(st, a[0]); q = sconcat(b' ', p, z3.If(iv(slen(p)) == 0, seqval(b''), seqval(b':')) if not isconc(p) else (b':' if p else b''))
        d = [dec(iv(e.to_sint(x, 32, st))) for x in a[1:5]]
        w = sconcat(q, b'start="', d[0], b':', d[1], b'"', q, b'end="', d[2], b':', d[3], b'"')
        return seq_eq(st.ghost.get('out', b''), w)
    exact('vg_position', vpos, 'intrinsic')
    # ---- contract of the namespaces container: position k holds one Namespace object
    def ns_at(e, st, a, c):
        if not isconc(a[1]): raise ToolLimit('namespace position')
        if not hasattr(e, 'nsobj'): e.nsobj = {}
        key = (a[0].obj, a[0].off, a[1])
        if key not in e.nsobj:
            o = e.new_obj(st, 'cells', 72, 'namespace %d' % a[1], base=True); o.regions = [(0, 72, 'lazy', ('ns%d' % a[1], 0))]; e.nsobj[key] = o.id
            for off in (0, 32):
                b = e.new_obj(st, 'bytes', None, 'namespace text', base=True); b.content = z3.Const('ns%d_%d' % (a[1], off), BYTES); b.nul = True; b.nonul = False
                o.strs[off] = b.id
        return Ptr(e.nsobj[key])
    eng.add_model(r'multi_index::detail::random_access_index<.*>::operator\[\]\(unsigned long\) const$', ns_at)
    t = z3.Const('l.t', BYTES); ch = z3.BitVec('l.c', 8); tc = z3.Concat(t, z3.Unit(ch))
    ni = lambda x: z3.And(*[z3.Not(z3.Contains(x, seqval(bytes([b])))) for b in b'<>&'])
    eng.lemma_checks = getattr(eng, 'lemma_checks', []) + [('escape of plain text: empty', z3.Implies(base, esc(seqval(b'')) == seqval(b''))),
        ('escape of plain text: step', z3.Implies(z3.And(z3.Implies(ni(t), esc(t) == t), esc(tc) == z3.Concat(esc(t), esc_step(ch)), ni(tc)), esc(tc) == tc))]

def setup_start(eng):
    """setup_output, with an expected output built by the harness, the declarations as one opaque text, and decimal numbers"""
    setup_output(eng)
    exact = lambda n, fn, kind='intrinsic': eng.add_model(n, fn, exact=True, kind=kind)
    attesc = z3.Function('attribute.escape', BYTES, BYTES); dec = z3.Function('decimal', z3.IntSort(), BYTES)
    def exp(st, x): st.ghost = dict(st.ghost); st.ghost['exp'] = sconcat(st.ghost.get('exp', b''), x)
    def att(x, y): return sconcat(b' ', x, b'="', attesc(S(y)), b'"')
    def with_prefix(p, n): return sconcat(p, z3.If(iv(slen(p)) == 0, seqval(b''), seqval(b':')) if not isconc(p) else (b':' if p else b''), n)
    def tag(e, st, a, c): exp(st, sconcat(b'<', with_prefix(e.str_get(st, a[0]), e.cstr(st, a[1], 'name'))))
    exact('vg_expect_tag', tag)
    exact('vg_expect_att', lambda e, st, a, c: exp(st, att(e.cstr(st, a[0], 'name'), e.cstr(st, a[1], 'value'))))
    exact('vg_expect_number', lambda e, st, a, c: exp(st, att(with_prefix(e.str_get(st, a[0]), e.cstr(st, a[1], 'name')), dec(iv(e.to_int(a[2], 64))))))
    exact('vg_expect_namespaces', lambda e, st, a, c: exp(st, z3.Const('declarations', BYTES)))
    exact('vg_expected', lambda e, st, a, c: seq_eq(st.ghost.get('out', b''), st.ghost.get('exp', b'')))
    eng.add_model(r'^srcMLOutput::outputNamespaces\(', lambda e, st, a, c: emit(st, z3.Const('declarations', BYTES)), kind='contract')
    def fn_dec(e, st, v, name):
        if 'unsigned' not in name: raise ToolLimit('decimal of a signed number')
        x = dec(iv(e.to_int(v, 64 if 'long' in name else 32))); st.pc += [z3.Length(x) > 0, z3.Length(x) <= 20, ebool(e.notin(x, b'\0'))]; return x
    eng.fn_dec = fn_dec

def setup_unparse(eng):
    """contracts of the reader, of the extraction of the source and of libxml2's outputs: spec/P12_output.cpp"""
    for n, f, k in ((r'^srcml_sax2_reader::read_body\(', 'vgs_read_body', 'contract'), (r'^extract_src\(', r'vgs_extract_src', 'contract')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), kind=k)
    for n, f in (('xmlFindCharEncodingHandler', 'vgs_handler'), ('xmlBufferCreate', 'vgs_xmlBufferCreate'), ('xmlOutputBufferCreateBuffer', 'vgs_ob_buffer'), ('xmlOutputBufferCreateFilename', 'vgs_ob_filename'), ('xmlOutputBufferCreateFile', 'vgs_ob_file'),
                 ('xmlOutputBufferCreateFd', 'vgs_ob_fd'), ('xmlOutputBufferCreateIO', 'vgs_ob_io'), ('xmlOutputBufferWrite', 'vgs_ob_write'), ('xmlOutputBufferClose', 'vgs_ob_close'), ('xmlBufferLength', 'vgs_length'), ('xmlBufferDetach', 'vgs_detach'), ('xmlBufferFree', 'vgs_xmlBufferFree')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), exact=True, kind='trusted')
    class Id:
        def __call__(self, x): return x
        def name(self): return 'identity'
    folds = {}
    same = Id()
    def unf_same(x, k):
        x = S(x); k = z3.simplify(iv(k)); j = z3.simplify(k - 1)
        return z3.Implies(z3.And(k >= 1, k <= z3.Length(x)), z3.Extract(x, 0, k) == z3.Concat(z3.Extract(x, 0, j), z3.Unit(x[j])))
    folds[b'\n'] = (same, unf_same, z3.BoolVal(True))
    for end, nm in ((b'\r', 'cr'), (b'\r\n', 'crlf')):
        folds[end] = fold(eng, nm, lambda c, end=end: z3.If(c == 10, seqval(end), z3.Unit(c)))
    def loop(e, entry, header, ctx=None):
        if ctx is None: return True
        end = entry.ghost.get('eol')
        return fold_invariants(e, ctx, *folds[end], len(end), free=True)
    eng.loopinv[r'^srcml_unit_unparse_internal'] = loop
    def set_eol(e, st, a, c): st.ghost = dict(st.ghost); st.ghost['eol'] = {0: b'\n', 1: b'\n', 2: b'\r', 3: b'\r\n'}[a[0]]
    eng.add_model('vg_eol', set_eol, exact=True, kind='intrinsic')
    def eol_is(e, st, a, c):
        x = e.str_get(st, a[0]); y = e.str_get(st, a[1]); end = st.ghost['eol']
        return seq_eq(x, y if end == b'\n' else folds[end][0](S(y)))
    eng.add_model('vg_eol_is', eol_is, exact=True, kind='intrinsic')

def setup_writer(eng):
    """contract of libxml2's text writer, the text written as ghost output: spec/P14_writer.cpp"""
    for n, f in (('xmlTextWriterStartElementNS', 'vgs_start_element'), ('xmlTextWriterEndElement', 'vgs_end_element'), ('xmlTextWriterWriteAttribute', 'vgs_attribute'), ('xmlTextWriterWriteAttributeNS', 'vgs_attribute_ns'),
                 ('xmlTextWriterWriteString', 'vgs_string'), ('xmlTextWriterWriteRaw', 'vgs_raw_text')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), exact=True, kind='trusted')
    def vg_emit(e, st, a, c):
        x = e.cstr(st, a[0], 'text')
        if z3.is_expr(x) and x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:     # a theorem of sequences: a prefix, and the part that follows it
            y, i, n = x.children()
            st.pc.append(z3.Implies(z3.And(i >= 0, n >= 0, i + n <= z3.Length(y)), z3.Concat(z3.Extract(y, z3.IntVal(0), i), x) == z3.Extract(y, z3.IntVal(0), z3.simplify(i + n))))
        emit(st, x)
    eng.add_model('vg_emit', vg_emit, exact=True, kind='intrinsic')
    eng.add_model('vg_text_is', lambda e, st, a, c: seq_eq(st.ghost.get('out', b''), e.cstr(st, a[0], 'text')), exact=True, kind='intrinsic')
    def same(x): return x
    same.name = lambda: 'identity'
    def unf(x, k):
        x = S(x); k = z3.simplify(iv(k)); j = z3.simplify(k - 1)
        return z3.Implies(z3.And(k >= 1, k <= z3.Length(x)), z3.Extract(x, 0, k) == z3.Concat(z3.Extract(x, 0, j), z3.Unit(x[j])))
    class Id:
        def __call__(self, x): return x
        def name(self): return 'identity'
    def text(e, entry, header, ctx=None):
        if ctx is None: return True
        out = fold_invariants(e, ctx, Id(), unf, z3.BoolVal(True)); ps = ctx.ptr_vars()
        for n, f, o in ps:
            for m, g, q in ps:
                if n != m and o == q: out.append(('%s <= %s' % (n, m), lambda c, f=f, g=g: ebool(iv(c.eng.iptr(c.st, f(c))) <= iv(c.eng.iptr(c.st, g(c))))))
        return out
    eng.loopinv[r'^srcml_translator::add_string'] = text
    def keep_difference(e, entry, header, ctx=None):
        if ctx is None: return True
        vs = ctx.int_vars(); out = []
        for i, (n, f, w) in enumerate(vs):
            for m, g, x in vs[:i]:
                out.append(('%s - %s is constant' % (n, m), lambda c, f=f, g=g: ebool(iv(f(c)) - iv(g(c)) == iv(f(c.at(c.entry))) - iv(g(c.at(c.entry))))))
        return out
    eng.loopinv[r'^srcml_write_end_unit|^srcml_translator::add_end_unit'] = keep_difference

def setup_writer_end(eng):
    setup_writer(eng)
    for n, f in (('xmlTextWriterEndElement', 'vgs_end_of'), ('xmlTextWriterFlush', 'vgs_flush'), ('xmlBufferDetach', 'vgs_detach'), ('xmlBufferFree', 'vgs_free_buffer')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), exact=True, kind='trusted')
    eng.add_model('srcml_write_start_unit', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_restart'), a), exact=True, kind='contract')
    for n, f in ((r'^extract_src\(', 'vgs_source'), (r'^srcml_translator::~srcml_translator\(', 'vgs_destroy')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), kind='contract')
    count = z3.Function('newlines', BYTES, z3.IntSort())
    def newlines(st, x):
        if isconc(x): return x.count(b'\n')
        n = count(S(x)); st.pc += [n >= 0, n <= z3.Length(S(x))]; return n
    def std_count(e, st, a, c):
        ch = e.load(st, a[2], ('i', 8), e.mods[0]); p, q = a[0], a[1]
        if ch != 10 or p.obj != q.obj or e.obj(st, p.obj).kind != 'bytes': raise ToolLimit('std::count')
        i, j = e.iptr(st, p), e.iptr(st, q); x = e.obj(st, p.obj).content
        return newlines(st, sextract(x, i, z3.simplify(iv(j) - iv(i))))
    eng.add_model(r'std::count<', std_count)
    eng.add_model('vg_newlines', lambda e, st, a, c: newlines(st, e.str_get(st, a[0])), exact=True, kind='intrinsic')

def setup_writer_start(eng):
    from .contracts import setup_clone
    setup_clone(eng)
    for n, f in (('xmlBufferCreate', 'vgs_new_buffer'), ('xmlOutputBufferCreateBuffer', 'vgs_new_ob'), ('xmlTextWriterFlush', 'vgs_flush_start'), ('xmlBufferContent', 'vgs_content'), ('xmlBufferFree', 'vgs_free_old')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), exact=True, kind='trusted')
    eng.add_model('xmlFindCharEncodingHandler', lambda e, st, a, c: NULL, exact=True, kind='trusted')
    for n, f in ((r'^srcml_translator::srcml_translator\(', 'vgs_translator'), (r'^srcml_translator::set_macro_list\(', 'vgs_set_macros'), (r'^srcMLOutput::startUnit\(', 'vgs_start_tag'), (r'^srcml_translator::close\(', 'vgs_close_old'), (r'^srcml_translator::~srcml_translator\(', 'vgs_destroy_old')):
        eng.add_model(n, lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), a), kind='contract')

def setup_namespaces(eng):
    """contract of the list of namespaces (boost::multi_index), as ghost code of spec/P03_registry.cpp"""
    C = r'boost::multi_index::multi_index_container<Namespace, '; D = r'boost::multi_index::detail::'
    def call(f, n=None): return lambda e, st, a, c: InlineCall(e.func_by_demangled(f), a if n is None else a[:n])
    add = lambda rx, fn: eng.add_model(rx, fn, kind='trusted')
    add(C + r'.*::get<nstags::(uri|prefix|position)>\(', call('vgs_view', 1))
    add(C + r'.*>::~multi_index_container\(', lambda e, st, a, c: None)
    H = D + r'hashed_index<boost::multi_index::member<Namespace, std::string, &Namespace::%s>, .*::%s\('
    for k, f in (('uri', 'vgs_find'), ('prefix', 'vgs_find_prefix')):
        add(H % (k, r'find<char const\*>'), lambda e, st, a, c, f=f: InlineCall(e.func_by_demangled(f), [a[0], e.load(st, a[1], ir.PTR, e.mods[0])])); add(H % (k, r'find<char \[[0-9]+\]>'), call(f, 2)); add(H % (k, 'end'), call('vgs_none', 1))
    add(D + r'random_access_index<.*>::size\(\) const', call('vgs_ns_size', 1))
    add(D + r'random_access_index<.*>::operator\[\]\(unsigned long\) const', call('vgs_ns_at', 2))
    add(D + r'random_access_index<.*>::(begin)\(\)( const)?$', call('vgs_begin', 1)); add(D + r'random_access_index<.*>::(end)\(\)( const)?$', call('vgs_end', 1))
    add(D + r'rnd_node_iterator<.*>::operator\+\+\(\)$', call('vgs_next', 1)); add(D + r'rnd_node_iterator<.*>::operator\*\(\) const$', call('vgs_here', 1))
    add(r'boost::operators_impl::operator!=\(boost::multi_index::detail::(hashed_index_iterator|rnd_node_iterator)<', call('vgs_differ', 2))
    add(r'boost::operators_impl::dereferenceable<boost::multi_index::detail::hashed_index_iterator<.*>::operator->\(\) const$', call('vgs_deref', 1))
    def push(e, st, a, c): return InlineCall(e.func_by_demangled('vgs_push'), a[:2], onret=lambda st, v: (v,))
    add(D + r'random_access_index<.*>::push_back\(', push)
    def modify(e, st, a, c):
        n = re.search(r'::modify<(.*?)>\(', c.name).group(1); fs = [f for m in e.mods for f in m.funcs.values() if m.demangled.get(f.name, '').startswith(n + '::operator()(Namespace&)')]
        if len(fs) != 1: raise ToolLimit('change of a namespace')
        f = fs[0]
        if not isinstance(a[1], Ptr) or not a[1].obj: e.oblige(st, z3.BoolVal(False), 'only an element that was found is changed', 'pre'); return None
        lam = a[2]
        if f.pattrs[0].get('deref') == '8' or len(a) == 4:     # the captures are passed in registers
            o = e.new_obj(st, 'cells', 8 * (len(a) - 2), 'captures'); o.regions = [(0, 8 * (len(a) - 2), 'uninit', None)]
            for i, v in enumerate(a[2:]): e.store(st, Ptr(o.id, 8 * i), v, ('ptr',), e.mods[0])
            lam = Ptr(o.id)
        return InlineCall(f, [lam, a[1]], onret=lambda st, v: (1,))
    add(H % ('uri', r'modify<.*>'), modify)
    eng.add_model(r'\(anonymous namespace\)::srcMLTextWriterWriteNamespace\(', call('vgs_write_ns'), kind='contract')
    def vg_loop(e, st, a, c): st.ghost = dict(st.ghost); st.ghost['loop'] = (iv(e.to_int(a[0], 64)), iv(e.to_int(a[1], 32)))
    eng.add_model('vg_loop', vg_loop, exact=True, kind='intrinsic')
    def loop(e, entry, header, ctx=None):
        if ctx is None: return True
        t, x = entry.ghost['loop']; out = []
        for n, f, w in ctx.int_vars():
            for m, g, o in ctx.ptr_vars():
                out.append(('%s is %s past t' % (n, m), lambda c, f=f, g=g: ebool(iv(f(c)) == z3.If(iv(c.eng.iptr(c.st, g(c))) > t, x, z3.IntVal(0)))))
        return out
    eng.loopinv[r'^srcMLOutput::outputNamespaces'] = loop

def setup_queue(eng):
    """contract of the mutex, condition variable, priority queue and thread of WriteQueue, as ghost code of spec/P20_queue.cpp"""
    def call(f, n=None): return lambda e, st, a, c: InlineCall(e.func_by_demangled(f), a if n is None else a[:n])
    add = lambda rx, fn: eng.add_model(rx, fn, kind='trusted')
    add(r'^std::mutex::lock\(\)', call('vgs_lock', 1)); add(r'^std::mutex::unlock\(\)', call('vgs_unlock', 1))
    add(r'^std::condition_variable::wait\(std::unique_lock<std::mutex>&\)', call('vgs_wait', 2)); add(r'^std::condition_variable::notify_(one|all)\(\)', call('vgs_notify', 1))
    Q = r'^std::priority_queue<.*>::'
    add(Q + r'empty\(\) const', call('vgs_q_empty', 1)); add(Q + r'top\(\) const', call('vgs_q_top', 1)); add(Q + r'pop\(\)', call('vgs_q_pop', 1)); add(Q + r'push\(', call('vgs_q_push', 2))
    add(Q + r'priority_queue\(', call('vgs_q_make', 2)); add(Q + r'~priority_queue\(', lambda e, st, a, c: None)
    add(r'^std::thread::thread<', call('vgs_thread', 1)); add(r'^std::thread::(operator=\(|~thread\()', lambda e, st, a, c: a[0])
    add(r'^std::(mutex|condition_variable)::~?(mutex|condition_variable)\(', lambda e, st, a, c: None)
    add(r'^std::deque<std::shared_ptr<ParseRequest>.*>::~?deque\(\)', lambda e, st, a, c: None)
    add(r'^std::thread::join\(\)', call('vgs_join', 1))
    eng.add_model(r'^srcml_write_request\(', call('vgs_write', 1), kind='contract')
    def loop(e, entry, header, ctx=None):
        if ctx is None: return True
        vs = ctx.int_vars(); out = []
        for i, (n, f, w) in enumerate(vs):
            out.append(('%s is 0 or 1' % n, lambda c, f=f: z3.And(ebool(iv(f(c)) >= 0), ebool(iv(f(c)) <= 1))))
            for k in (0, 1): out.append(('%s is %d' % (n, k), lambda c, f=f, k=k: ebool(iv(f(c)) == k)))
            for m, g, o in vs[:i]:
                if w == o: out.append(('%s is %s' % (n, m), lambda c, f=f, g=g: ebool(iv(f(c)) == iv(g(c)))))
        return out
    eng.loopinv[r'^WriteQueue::process'] = loop

def setup_consume(eng):
    """contracts of the writer, the mutex and the clock for srcml_consume and ParseQueue, as ghost code of spec/P20_consume.cpp"""
    def call(f, n=None): return lambda e, st, a, c: InlineCall(e.func_by_demangled(f), a if n is None else a[:n])
    add = lambda rx, fn: eng.add_model(rx, fn, kind='trusted')
    eng.add_model(r'^WriteQueue::schedule\(', call('vgs_sched', 2), kind='contract')
    add(r'^std::mutex::lock\(\)', call('vgs_clock', 1)); add(r'^std::mutex::unlock\(\)', call('vgs_cunlock', 1))
    add(r'^Timer::start\(\)', lambda e, st, a, c: None)
    add(r'^Timer::cpu_time_elapsed\(\)', lambda e, st, a, c: e.float_value(st) if hasattr(e, 'float_value') else 0)
    def leave(st, v): raise StopPath()
    eng.add_model('exit', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_exit'), a, onret=leave), exact=True, kind='trusted')
    def erase(e, st, a, c):
        b = e.str_buf(st, a[0]); x = e.obj(st, b).content; L = slen(x); p, q = a[1], a[2]
        for r in (p, q):
            if not (isinstance(r, Ptr) and r.obj == b): raise ToolLimit('erase(%r)' % (r,))
        i, j = p.idx, q.idx; e.oblige(st, z3.And(iv(i) >= 0, iv(i) <= iv(j), iv(j) <= iv(L)), 'erase of a range that is not in the string', 'safety')
        e.wobj(st, b).content = sconcat(sextract(x, 0, i), sextract(x, j, iv(L) - iv(j))); return Ptr(b, 0, i)
    add(r'^std::string::erase\(__gnu_cxx', erase)
    def cleaning(e, entry, header, ctx=None):
        if ctx is None: return True
        return [('%s is at the start' % n, lambda c, f=f: ebool(iv(f(c).idx) == 0)) for n, f in ctx.ptr_vars()]
    eng.loopinv[r'^srcml_consume\('] = cleaning

def setup_write(eng):
    """contract of the messages and the log for srcml_write_request, as ghost code of spec/P20_write.cpp"""
    dec = z3.Function('signed.decimal', z3.IntSort(), BYTES)
    def fn_dec(e, st, v, name):
        x = dec(iv(e.to_sint(v, 32, st))); st.pc += [z3.Length(x) > 0, z3.Length(x) <= 20, ebool(e.notin(x, b'\0'))]; return x
    eng.fn_dec = fn_dec
    add = lambda rx, fn: eng.add_model(rx, fn, kind='trusted')
    add(r'^(void |SRCMLStatus )?SRCMLstatus', lambda e, st, a, c: InlineCall(e.func_by_demangled('vgs_told'), []))
    add(r'operator<<.*\(SRCMLStatus', lambda e, st, a, c: None)
    def loop(e, entry, header, ctx=None):
        if ctx is None: return True
        out = []; vs = ctx.int_vars()
        for i, (n, f, w) in enumerate(vs):
            out.append(('%s is not negative' % n, lambda c, f=f: ebool(iv(f(c)) >= 0)))
            for m, g, o in vs:
                if w == o and n < m:
                    out.append(('%s is %s' % (n, m), lambda c, f=f, g=g: ebool(iv(f(c)) == iv(g(c)))))
                    out.append(('%s and %s together are what they were' % (n, m), lambda c, f=f, g=g: ebool(iv(f(c)) + iv(g(c)) == iv(f(c.at(c.entry))) + iv(g(c.at(c.entry))))))
        return out
    eng.loopinv[r'^srcml_write_request'] = loop
