"""Reading source: std::vector<char>, the read callback, the converter and the hash as contracts over ghost streams."""
import re
import z3
from .engine import *

V = 'std::vector<char, std::allocator<char> >'
def vec_get(e, st, p, why):
    """content of the std::vector<char> at p"""
    p = e.need(st, p, why)
    b = e.load_scalar(st, p, ir_ptr(), 8); q = e.load_scalar(st, Ptr(p.obj, p.off + 8, p.idx), ir_ptr(), 8)
    if isinstance(b, Ptr) and b.obj == 0: return b''
    o = e.obj(st, b.obj)
    if o.kind != 'bytes': raise ToolLimit('vector<char> over %s' % o.kind)
    return ext(e, st, o.content, e.iptr(st, b), z3.simplify(iv(e.iptr(st, q)) - iv(e.iptr(st, b))))
def ir_ptr():
    from . import ir
    return ir.PTR
def vec_set(e, st, p, content, name):
    p = e.need(st, p, 'vector'); o = e.bytes_obj(st, content, name, nul=False)
    n = slen(content); vo = e.wobj(st, p.obj); off = p.off + p.idx * vo.stride
    for k, v in ((0, Ptr(o.id)), (8, Ptr(o.id, 0, n)), (16, Ptr(o.id, 0, n))): vo.cells[off + k] = (8, v)
    return o
def norm(st, x):
    """concatenated parts of x, with the splits already made"""
    out = []
    for y in sparts(x):
        k = ('split', y) if isinstance(y, bytes) else ('split', y.get_id())
        if k in st.ghost: out += norm(st, st.ghost[k][0]) + norm(st, st.ghost[k][1])
        else: out.append(y)
    return out
def cut(e, st, x, i):
    """(x[0..i), x[i..)) for 0 <= i <= |x|; a part that the position falls into is split into two named halves"""
    ps = norm(st, x); i = z3.simplify(iv(i)); pos = z3.IntVal(0)
    for k, y in enumerate(ps):
        if const_diff(i, pos) == 0 or e.prove_quick(st, i == pos): return sconcat(*ps[:k]), sconcat(*ps[k:])
        nxt = z3.simplify(pos + iv(slen(y)))
        if const_diff(i, nxt) == 0: return sconcat(*ps[:k+1]), sconcat(*ps[k+1:])
        if isinstance(y, bytes):
            d = const_diff(i, pos)
            if d is not None and 0 < d < len(y): return sconcat(*(ps[:k] + [y[:d]])), sconcat(*([y[d:]] + ps[k+1:]))
        elif not e.prove_quick(st, i >= nxt):
            if not e.prove_quick(st, i <= nxt) and not e.prove_quick(st, i <= nxt, 6000):
                if e.sat(st, True, 4000) == 'unsat': raise Infeasible()
                raise ToolLimit('position %s in %s' % (i, [str(z)[:60] for z in ps]))
            a = e.fresh('part', BYTES); b = e.fresh('part', BYTES); st.pc += [y == z3.Concat(a, b), z3.Length(a) == i - pos, z3.Length(b) == nxt - i]
            st.ghost = dict(st.ghost); st.ghost[('split', y.get_id())] = (a, b); e.keep.append(y)
            return sconcat(*(ps[:k] + [a])), sconcat(*([b] + ps[k+1:]))
        pos = nxt
    if const_diff(i, pos) == 0 or e.prove_quick(st, i == pos): return sconcat(*ps), b''
    if e.sat(st, True, 4000) == 'unsat': raise Infeasible()
    raise ToolLimit('position %s after %s: %s' % (i, [str(v) for v in ps], [str(v)[:80] for v in st.pc[8:]]))
def ext(e, st, x, i, n):
    a, b = cut(e, st, x, i); return cut(e, st, b, n)[0]
def same(e, st, x, y):
    p = norm(st, x); q = norm(st, y)
    z = lambda v: not isinstance(v, bytes) and e.prove_quick(st, z3.Length(v) == 0)
    p = [v for v in p if not z(v)]; q = [v for v in q if not z(v)]
    eq = lambda u, v: u == v if isinstance(u, bytes) and isinstance(v, bytes) else not isinstance(u, bytes) and not isinstance(v, bytes) and u.eq(v)
    while p and q and eq(p[0], q[0]): p = p[1:]; q = q[1:]
    while p and q and eq(p[-1], q[-1]): p = p[:-1]; q = q[:-1]
    return seq_eq(sconcat(*p), sconcat(*q))
def rng(e, st, p, n, why):
    p = e.need(st, p, why); o = e.obj(st, p.obj)
    if not o.alive: e.oblige(st, False, 'use after free: ' + why, 'safety'); raise Infeasible()
    if o.kind != 'bytes': return e.ptr_range(e, st, p, n, why)
    i = iv(e.iptr(st, p)); e.oblige(st, z3.And(i >= 0, iv(n) >= 0, i + iv(n) <= iv(slen(o.content))), why + ': reads out of bounds of %s' % o.name, 'safety')
    return ext(e, st, o.content, i, n)
def overwrite(e, st, oid, i, d):
    a, b = cut(e, st, e.obj(st, oid).content, i)
    try: y = cut(e, st, b, slen(d))[1]
    except ToolLimit: y = e.fresh('rest', BYTES); st.pc.append(z3.Length(y) == iv(slen(b)) - iv(slen(d)))     # forgets the rest
    o = e.wobj(st, oid); o.content = sconcat(a, d, y)
def g(st, k): return st.ghost.get(k, b'')
def gset(st, k, v): st.ghost = dict(st.ghost); st.ghost[k] = v

def setup_source(eng):
    exact = lambda n, fn, kind='trusted': eng.add_model(n, fn, exact=True, kind=kind)
    eng.keep = []; eng.cheap_branch = True
    eng.noop_calls = re.compile(r'^(fprintf|strerror|__errno_location|llvm\..*|\(anonymous namespace\)::compatibleEncodings\(.*|std::string::(c_str|empty|size)\(\) const|bool std::operator(==|!=).*)$')
    def i_vec(e, st, a, c):
        n = 'vec_%d' % len(st.inputs); x = z3.Const(n, BYTES); st.inputs.append((n, 'str', x))
        st.pc.append(z3.Length(x) < 2**40); vec_set(e, st, a[0], x, 'buffer')
    exact('vg_vector', i_vec, 'intrinsic')
    def resize(e, st, a, c):
        x = vec_get(e, st, a[0], 'resize'); n = a[1] if isconc(a[1]) else e.to_int(a[1], 64)
        alts = []
        L = slen(x); c_ = ebool(iv(n) <= iv(L))
        for cond in (c_, z3.Not(c_)):
            cond = z3.simplify(cond)
            if z3.is_false(cond) or not e.feasible(st, cond): continue
            s = st.fork(); s.pc.append(cond)
            if cond is alts or z3.is_true(z3.simplify(cond)) and False: pass
            if cond.eq(z3.simplify(c_)): vec_set(e, s, a[0], cut(e, s, x, n)[0], 'buffer')
            else:
                z = e.fresh('zeros', BYTES); s.pc.append(z3.Length(z) == iv(n) - iv(L)); vec_set(e, s, a[0], sconcat(x, z), 'buffer')
            alts.append((s, None))
        return Fork(alts)
    exact(V + '::resize(unsigned long)', resize)
    def ins(e, st, a, c):
        x = vec_get(e, st, a[0], 'insert'); p = e.need(st, a[2], 'insert'); q = e.need(st, a[3], 'insert')
        n = z3.simplify(iv(e.iptr(st, q)) - iv(e.iptr(st, p)))
        if z3.is_int_value(n): n = n.as_long()
        d = rng(e, st, p, n, 'insert')
        if isconc(slen(x)) and slen(x) == 0: vec_set(e, st, a[0], d, 'buffer')
        else:
            at = e.iptr(st, e.need(st, a[1], 'insert')); vec_set(e, st, a[0], sconcat(cut(e, st, x, at)[0], d, cut(e, st, x, at)[1]), 'buffer')
        return UNDEF
    eng.add_model(r'std::vector<char, std::allocator<char> >::insert<char const\*, void>\(', ins)
    def erase(e, st, a, c):
        x = vec_get(e, st, a[0], 'erase'); i = e.iptr(st, e.need(st, a[1], 'erase')); j = e.iptr(st, e.need(st, a[2], 'erase')) ; L = slen(x)
        e.oblige(st, z3.And(0 <= iv(i), iv(i) <= iv(j), iv(j) <= iv(L)) if not (isconc(i) and isconc(j) and isconc(L)) else 0 <= i <= j <= L, 'vector::erase within the vector', 'safety')
        vec_set(e, st, a[0], sconcat(cut(e, st, x, i)[0], cut(e, st, x, j)[1]), 'buffer'); return UNDEF
    eng.add_model(r'^std::vector<char, std::allocator<char> >::erase\(__gnu_cxx::__normal_iterator<char const\*, [^,]*(, [^,]*)?>, __gnu', erase)
    def move(e, st, a, c):
        p = e.need(st, a[0], 'move'); q = e.need(st, a[1], 'move'); d = e.need(st, a[2], 'move')
        n = z3.simplify(iv(e.iptr(st, q)) - iv(e.iptr(st, p)))
        x = rng(e, st, p, n, 'move'); o = e.wobj(st, d.obj); i = iv(e.iptr(st, d)); L = iv(slen(o.content))
        e.oblige(st, z3.And(i >= 0, i + n <= L), 'move within the destination', 'safety')
        if d.obj == p.obj: e.oblige(st, z3.Or(i <= iv(e.iptr(st, p)), i >= iv(e.iptr(st, q))), 'move: the destination is not inside the source', 'safety')
        overwrite(e, st, d.obj, z3.simplify(i), x); return UNDEF
    eng.add_model(r'^(\S.* )?std::(move|copy)<char\*, __gnu_cxx::__normal_iterator<char\*', move)
    # ---- the read callback delivers at most n bytes, in any chunks; fails (-1) or ends (0) at any time
    def read(e, st, a, c):
        p = e.need(st, a[1], 'read buffer'); n = iv(a[2] if isconc(a[2]) else e.to_int(a[2], 64)); o = e.obj(st, p.obj); i = z3.simplify(iv(e.iptr(st, p)))
        e.oblige(st, z3.And(i >= 0, i + n <= iv(slen(o.content))), 'the read buffer has room for the bytes asked for', 'safety')
        alts = []; plan = st.ghost.get('plan')
        for k in range(2):
            s = st.fork()
            if plan is not None:
                j, end = plan; s.ghost = dict(s.ghost)
                if (k == 0) != (j == 0 and end): continue
                s.ghost['plan'] = (j - 1, end) if j > 0 else None
            if k == 0: r = e.fresh('noread', z3.BitVecSort(64)); s.pc.append(z3.Or(r == 0, r == z3.BitVecVal(2**64 - 1, 64)))
            else:
                d = e.fresh('read', BYTES); ln = z3.Length(d); s.pc += [ln > 0, ln <= n]
                if plan is not None: tot = iv(slen(g(s, 'delivered'))) + ln; s.pc.append(tot < 4 if plan[0] > 0 else tot >= 4)
                if not e.feasible(s, True): continue
                overwrite(e, s, p.obj, i, d)
                gset(s, 'delivered', sconcat(g(s, 'delivered'), d)); r = ln
            alts.append((s, r))
        return Fork(alts)
    exact('vg_read', read, 'intrinsic')
    def plan_(e, st, a, c): b = e.to_bool(a[1]); gset(st, 'plan', (a[0], b))
    exact('vg_plan', plan_, 'intrinsic')
    # ---- hash
    exact('SHA1_Init', lambda e, st, a, c: (gset(st, 'hashed', b''), gset(st, 'ctx', a[0]), 1)[2])
    def upd(e, st, a, c):
        n = a[2] if isconc(a[2]) else e.to_int(a[2], 64)
        gset(st, 'hashed', sconcat(g(st, 'hashed'), rng(e, st, a[1], n, 'SHA1_Update'))); return 1
    exact('SHA1_Update', upd)
    # ---- converter: consumes a prefix of its input, produces a bounded output
    def iopen(e, st, a, c):
        to = e.cstr(st, a[0], 'iconv_open'); q = e.need(st, a[1], 'iconv_open'); qo = e.obj(st, q.obj)
        frm = qo.content if qo.kind == 'bytes' and qo.nul and isconc(e.iptr(st, q)) and e.iptr(st, q) == 0 else e.cstr(st, q, 'iconv_open')   # an encoding has no NUL
        gset(st, 'conv', frm); ok = e.fresh('iconv_known', z3.BoolSort()); s = st.fork(); s.pc.append(z3.Not(ok)); st.pc.append(ok)
        o = e.new_obj(st, 'cells', 8, 'converter'); o.regions = [(0, 8, 'uninit', None)]
        el = e.call_model('__errno_location', s); e.store_scalar(s, el, 22, ('i', 32), 4)
        m1 = e.conv_failed
        return Fork([(st, Ptr(o.id)), (s, m1)])
    eng.conv_failed = Ptr(0, 2**64 - 1)
    exact('iconv_close', lambda e, st, a, c: 0)
    def compat(e, st, a, c): return e.fresh('compatible', z3.BoolSort())
    exact('(anonymous namespace)::compatibleEncodings(char const*, char const*)', compat, 'contract')
    def iconv(e, st, a, c):
        P = ir_ptr()
        e.oblige(st, e.same_ic(st, a[0]), 'iconv is called with an open converter', 'safety')
        ip = e.load_scalar(st, a[1], P, 8); il = e.load_scalar(st, a[2], ('i', 64), 8); op = e.load_scalar(st, a[3], P, 8); ol = e.load_scalar(st, a[4], ('i', 64), 8)
        il = iv(il if isconc(il) else e.to_int(il, 64)); ol = iv(ol if isconc(ol) else e.to_int(ol, 64))
        x = rng(e, st, ip, il, 'iconv input'); C = e.fresh('consumed', BYTES); R = e.fresh('unconverted', BYTES); k = z3.Length(C); d = e.fresh('produced', BYTES); m = z3.Length(d)
        op = e.need(st, op, 'iconv output'); oo = e.wobj(st, op.obj); i = z3.simplify(iv(e.iptr(st, op)))
        e.oblige(st, z3.And(i >= 0, i + ol <= iv(slen(oo.content))), 'the output buffer of iconv has the size given', 'safety')
        st.pc += [S(x) == z3.Concat(C, R), z3.Length(R) == il - k, k <= il, m <= ol]
        overwrite(e, st, e.need(st, ip, 'iconv input').obj, iv(e.iptr(st, ip)), sconcat(C, R))
        rest = e.fresh('scratch', BYTES); oo = e.wobj(st, op.obj); st.pc.append(z3.Length(rest) == iv(slen(oo.content)) - i - m); oo.content = sconcat(cut(e, st, oo.content, i)[0], d, rest)
        gset(st, 'converted', sconcat(g(st, 'converted'), C)); gset(st, 'produced', d); gset(st, 'given', x)
        e.store_scalar(st, a[1], e.padd(st, ip, k), P, 8); e.store_scalar(st, a[2], z3.simplify(il - k), ('i', 64), 8)
        e.store_scalar(st, a[3], e.padd(st, op, m), P, 8); e.store_scalar(st, a[4], z3.simplify(ol - m), ('i', 64), 8)
        el = e.call_model('__errno_location', st); e.store_scalar(st, el, e.fresh('errno', z3.BitVecSort(32)), ('i', 32), 4)
        r = e.fresh('iconv', z3.BitVecSort(64))
        # contract: an error (-1) or a count; when it did not fail, everything was consumed
        st.pc.append(z3.Implies(r != z3.BitVecVal(2**64 - 1, 64), k == il))
        return r
    exact('iconv', iconv)
    def call_model(nm, st): return eng.find_model(nm)[0](eng, st, [], None)
    eng.call_model = call_model
    def same_ic(st, v):
        return not (isinstance(v, Ptr) and v.obj == 0)
    eng.same_ic = same_ic
    exact('iconv_open', iopen)
    # ---- ghost observations
    def eqv(which):
        def f(e, st, a, c): return same(e, st, vec_get(e, st, a[0], 'vector'), g(st, which))
        return f
    exact('vg_is_produced', eqv('produced'), 'intrinsic')
    def save(e, st, a, c): gset(st, 'saved%d' % a[0], vec_get(e, st, a[1], 'vector'))
    exact('vg_save', save, 'intrinsic')
    exact('vg_hashed_is_delivered', lambda e, st, a, c: same(e, st, g(st, 'hashed'), g(st, 'delivered')), 'intrinsic')
    def stream(e, st, a, c):
        """converted ++ unconverted tail == leftover at the start ++ delivered bytes (from byte `skip`)"""
        n0 = e.to_int(a[2], 64) if not isconc(a[2]) else a[2]; n1 = e.to_int(a[1], 64) if not isconc(a[1]) else a[1]
        raw = vec_get(e, st, a[0], 'raw'); k = a[3] if isconc(a[3]) else e.to_int(a[3], 32); d = g(st, 'delivered')
        e.oblige(st, ebool(iv(n1) <= iv(slen(raw))), 'the unconverted tail lies within the buffer', 'assert')
        left = cut(e, st, raw, n1)[0]; before = cut(e, st, g(st, 'saved0'), n0)[0]
        if isconc(k): return same(e, st, sconcat(g(st, 'converted'), left), sconcat(before, cut(e, st, d, k)[1]))
        q = sconcat(g(st, 'converted'), left); kk = iv(k)
        return z3.And(*[z3.Implies(kk == v, ebool(same(e, st, q, sconcat(before, cut(e, st, d, v)[1])))) for v in (0, 3)])
    exact('vg_stream', stream, 'intrinsic')
    exact('vg_delivered', lambda e, st, a, c: z3.simplify(iv(slen(g(st, 'delivered')))), 'intrinsic')
    def dbyte(e, st, a, c):
        d = g(st, 'delivered'); L = iv(slen(d)); return z3.If(L > a[0], z3.ZeroExt(24, S(d)[a[0]]), z3.BitVecVal(0, 32))
    exact('vg_byte', dbyte, 'intrinsic')
    def enc(e, st, a, c):
        d = g(st, 'delivered'); L = iv(slen(d)); by = lambda k, v: z3.And(L > k, S(d)[k] == z3.BitVecVal(v, 8)) if v else z3.And(L > k, S(d)[k] == z3.BitVecVal(0, 8))
        b8 = z3.And(by(0, 0xEF), by(1, 0xBB), by(2, 0xBF)); b32 = z3.And(L >= 4, z3.Or(z3.And(by(0, 0xFF), by(1, 0xFE), by(2, 0), by(3, 0)), z3.And(by(0, 0), by(1, 0), by(2, 0xFE), by(3, 0xFF))))
        b16 = z3.Or(z3.And(by(0, 0xFF), by(1, 0xFE)), z3.And(by(0, 0xFE), by(1, 0xFF)))
        x = S(e.str_get(st, a[0])); dec = S(e.str_get(st, a[1])); v = lambda t: x == seqval(t)
        return z3.If(z3.Length(dec) > 0, x == dec, z3.If(b8, v(b'UTF-8'), z3.If(b32, v(b'UTF-32'), z3.If(b16, v(b'UTF-16'), v(b'ISO-8859-1')))))
    exact('vg_encoding', enc, 'intrinsic')
    exact('vg_conv_is', lambda e, st, a, c: same(e, st, g(st, 'conv'), e.str_get(st, a[0])), 'intrinsic')
    exact('vg_converted_anything', lambda e, st, a, c: 'given' in st.ghost, 'intrinsic')
    exact('strerror', lambda e, st, a, c: Ptr(e.bytes_obj(st, b'error', 'strerror', nul=True, nonul=True).id))
    def final(e, st, a, c):
        bs = [e.fresh('digest', z3.BitVecSort(8)) for _ in range(20)]
        for i, b in enumerate(bs): e.store_scalar(st, e.padd(st, a[0], i), b, ('i', 8), 1)
        gset(st, 'digest', bs); return 1
    exact('SHA1_Final', final)
    def deliver(e, st, a, c): n = a[1] if isconc(a[1]) else e.to_int(a[1], 64); gset(st, 'delivered', rng(e, st, a[0], n, 'source'))
    exact('vg_deliver', deliver, 'intrinsic')
    def norm_name(e, st, a, c):
        x = e.fresh('encoding', BYTES); st.pc += [z3.Length(x) > 0]; e.str_new(st, a[0], x)
    exact('(anonymous namespace)::normalizeEncodingName(char const*)', norm_name, 'contract')
    def isdig(e, st, a, c):
        x = sparts(e.str_get(st, a[0])); bs = [q for b in st.ghost['digest'] for q in (z3.LShR(b, 4), b & 15)]
        hx = lambda q: z3.If(z3.ULT(q, 10), q + ord('0'), q + (ord('a') - 10))
        if len(x) != 40 or any(isinstance(u, bytes) or u.decl().kind() != z3.Z3_OP_SEQ_UNIT for u in x): return seq_eq(e.str_get(st, a[0]), z3.Concat(*[z3.Unit(hx(q)) for q in bs]))
        return z3.And(*[u.arg(0) == hx(q) for u, q in zip(x, bs)])
    exact('vg_is_digest', isdig, 'intrinsic')
    eng.add_model(r'^antlr::(CharBuffer|InputBuffer)::~', lambda e, st, a, c: None)
    eng.add_model(r'^antlr::CharBuffer::CharBuffer', lambda e, st, a, c: None)
    def printf(e, st, a, c): return e.fresh('printed', z3.BitVecSort(32))
    for nm in ('fprintf', 'fputs', 'fputc', 'fwrite', 'puts', 'perror'): exact(nm, printf)
    def readchars(e, st, a, c):
        if 'UTF8CharBuffer9readChars' in c.fr.f.name: return InlineCall(e.func_by_demangled('vfs_recursive'), a)
        return InlineCall(e.func_by_demangled('UTF8CharBuffer::readChars()'), a)
    exact('UTF8CharBuffer::readChars()', readchars, 'contract')

def setup_getchar(eng):
    """readChars() through its contract: the end of the text, or the next non-empty piece of it"""
    setup_source(eng)
    exact = lambda n, fn, kind='trusted': eng.add_model(n, fn, exact=True, kind=kind)
    def fields(e):
        f = e.func_by_demangled('vfs_offsets'); return f
    def more(e, st, a, c):
        b = a[0]; off = st.ghost['offsets']; F = st.ghost['future']; alts = []
        s = st.fork(); s.pc.append(z3.Length(F) == 0); gset(s, 'future', b''); alts.append((s, 0))
        d = e.fresh('piece', BYTES); F2 = e.fresh('future', BYTES); st.pc += [F == z3.Concat(d, F2), z3.Length(d) > 0, z3.Length(d) < 2**40]
        st.ghost = dict(st.ghost); st.ghost[('split', F.get_id())] = (d, F2); st.ghost['future'] = F2
        vec_set(e, st, e.padd(st, b, off['cooked']), d, 'piece'); e.store_scalar(st, e.padd(st, b, off['pos']), 0, ('i', 64), 8)
        alts.append((st, z3.Length(d)))
        return Fork(alts)
    exact('UTF8CharBuffer::readChars()', more, 'contract')
    def remaining(e, st, b):
        off = st.ghost['offsets']; ld = lambda k: e.load_scalar(st, e.padd(st, b, off[k]), ('i', 64), 8)
        toi = lambda v: v if isconc(v) else e.to_int(v, 64)
        if e.prove_quick(st, iv(toi(ld('insize'))) == 0): return S(st.ghost['future'])
        return sconcat(cut(e, st, vec_get(e, st, e.padd(st, b, off['cooked']), 'cooked'), toi(ld('pos')))[1], st.ghost['future'])
    def init(e, st, a, c):
        st.ghost = dict(st.ghost); st.ghost['offsets'] = dict(cooked=a[1], pos=a[2], insize=a[3]); st.ghost['future'] = e.fresh('future', BYTES); st.pc.append(z3.Length(st.ghost['future']) < 2**40)
        st.ghost['buffer'] = a[0]; st.ghost['stream'] = remaining(e, st, a[0])
    exact('vg_stream_init', init, 'intrinsic')
    def short(e, st): return S(sconcat(*[v for v in norm(st, st.ghost['stream']) if isinstance(v, bytes) or not e.prove_quick(st, z3.Length(v) == 0)]))
    def nxt(e, st, a, c): return z3.ZeroExt(24, e.load_byte_seq(st, e.obj(st, e.bytes_obj(st, short(e, st), 'stream', nul=True).id), iv(e.to_sint(a[0], 32, st) if not isconc(a[0]) else a[0])))
    exact('vg_next', nxt, 'intrinsic')
    def rest(e, st, a, c): return same(e, st, remaining(e, st, st.ghost['buffer']), cut(e, st, st.ghost['stream'], e.to_sint(a[0], 32, st) if not isconc(a[0]) else a[0])[1])
    exact('vg_rest_is', rest, 'intrinsic')
    exact('vg_length', lambda e, st, a, c: z3.simplify(z3.Length(short(e, st))), 'intrinsic')

def setup_make(eng):
    """readChars() has been decided on its own"""
    setup_source(eng)
    eng.add_model('UTF8CharBuffer::readChars()', lambda e, st, a, c: e.fresh_int('first', 0, 2**40, st), exact=True, kind='contract')
    from .engine import InlineCall
    for n, k in (('read', 3), ('open', 2), ('close', 1), ('fread', 4), ('feof', 1)):
        eng.add_model(n, lambda e, st, a, c, n=n, k=k: InlineCall(e.func_by_demangled('vgs_' + n), a[:k]), exact=True, kind='contract')
