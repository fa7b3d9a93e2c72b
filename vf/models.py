"""Trusted contracts of the C and C++ library functions the verified code calls.

Each function states the library's documented behaviour on the engine's abstract state
(std::string values are byte sequences).  They are assumptions: listed in every evidence file
under trusted_base, and exercised natively by the bounded runs of the same harnesses.
"""
import z3, re
from .engine import *
from . import ir

NPOS = (1 << 64) - 1

def concrete(x):
    return isinstance(x, bytes)

def M(eng):
    A = eng.add_model
    def exact(name, fn): A(name, fn, exact=True)

    # ---------------------------------------------------------------- allocation
    def op_new(e, st, a, c):
        n = a[0]
        if isconc(n):
            o = e.new_obj(st, 'cells', n, 'heap'); o.regions = [(0, n, 'uninit', None)]
        else:
            o = e.new_obj(st, 'rawbuf', e.to_int(n, 64), 'heap'); o.stride = 1
        o.meta['heap'] = True
        return Ptr(o.id)
    for n in ('operator new(unsigned long)', 'operator new[](unsigned long)', 'malloc'): exact(n, op_new)
    def op_delete(e, st, a, c):
        p = a[0]
        if isinstance(p, MaybePtr):
            # only the non-null case frees
            p = p.ptr
            o = e.obj(st, p.obj)
            if o.kind == 'unknown': e.become_cells(o.id)
            e.wobj(st, p.obj).meta['freed?'] = True
            return None
        if isinstance(p, Ptr) and p.obj == 0: return None
        if isinstance(p, Undef): raise ToolLimit('delete undef')
        o = e.wobj(st, p.obj)
        if not o.alive: e.oblige(st, False, 'double free of %s' % o.name, 'safety')
        o.alive = False
        return None
    for n in ('operator delete(void*)', 'operator delete(void*, unsigned long)', 'operator delete[](void*)', 'free'): exact(n, op_delete)

    # ---------------------------------------------------------------- mem*
    def memcpy(e, st, a, c):
        n = a[2]
        e.memcpy(st, a[0], a[1], n if isconc(n) else e.to_int(n, 64)); return a[0]
    for n in ('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove'): exact(n, memcpy)
    def memset(e, st, a, c):
        e.memset(st, a[0], a[1], a[2]); return a[0]
    exact('llvm.memset.p0.i64', memset); exact('memset', memset)

    # ---------------------------------------------------------------- C strings
    def strlen(e, st, a, c):
        return slen(e.cstr(st, a[0], 'strlen'))
    exact('strlen', strlen)
    exact('std::char_traits<char>::length(char const*)', strlen)
    def strcmp_like(e, st, x, y):
        if concrete(x) and concrete(y):
            return 0 if x == y else (1 if x > y else (1 << 32) - 1)
        r = e.fresh('strcmp', z3.BitVecSort(32))
        st.pc.append((r == 0) == ebool(seq_eq(x, y)))
        return r
    def strcmp(e, st, a, c):
        return strcmp_like(e, st, e.cstr(st, a[0], 'strcmp'), e.cstr(st, a[1], 'strcmp'))
    exact('strcmp', strcmp); exact('xmlStrcmp', strcmp)
    def strncmp(e, st, a, c):
        n = a[2]
        if not isconc(n): n = e.to_int(n, 64)
        x = e.cstr(st, a[0], 'strncmp'); y = e.cstr(st, a[1], 'strncmp')
        return strcmp_like(e, st, sextract(x, 0, n), sextract(y, 0, n))
    exact('strncmp', strncmp)
    def strchr(e, st, a, c):
        p = e.need(st, a[0], 'strchr'); x = e.cstr(st, a[0], 'strchr'); ch = a[1]
        if not isconc(ch): raise ToolLimit('strchr char')
        ch &= 255
        i = e.iptr(st, p)
        if ch == 0: return Ptr(p.obj, 0, i + slen(x))
        if concrete(x):
            k = x.find(bytes([ch]))
            return NULL if k < 0 else e.padd(st, p, k)
        ps = sparts(x)
        if len(ps) > 1:
            k, j = e.scan(e, st, ps, bytes([ch]))
            if j is not None: r = e.plen(ps[:k]) + j; return e.padd(st, p, r if isconc(r) else z3.simplify(r))
        k = z3.IndexOf(S(x), seqval(bytes([ch])), z3.IntVal(0))
        s2 = st.fork(); out = []
        if e.feasible(st, k < 0): st.pc.append(k < 0); out.append((st, NULL))
        if e.feasible(s2, k >= 0):
            r = e.fresh_int('strchr'); s2.pc += [r == k, k >= 0]
            out.append((s2, e.padd(s2, p, r)))
        return Fork(out)
    exact('strchr', strchr)
    def strstr(e, st, a, c):
        p = e.need(st, a[0], 'strstr'); x = e.cstr(st, a[0], 'strstr'); y = e.cstr(st, a[1], 'strstr')
        if not concrete(y): raise ToolLimit('strstr')
        ps = sparts(x)
        if ps and isinstance(ps[0], bytes) and y in ps[0]: return e.padd(st, p, ps[0].find(y))
        if concrete(x): return NULL
        k = z3.IndexOf(S(x), seqval(y), z3.IntVal(0)); s2 = st.fork(); out = []
        if e.feasible(st, k < 0): st.pc.append(k < 0); out.append((st, NULL))
        if e.feasible(s2, k >= 0): r = e.fresh_int('strstr'); s2.pc += [r == k, k >= 0]; out.append((s2, e.padd(s2, p, r)))
        return Fork(out)
    exact('strstr', strstr)
    def notin(x, chars):
        """no byte of sequence x is in chars"""
        if concrete(x): return not any(b in chars for b in x)
        ps = sparts(x)
        if len(ps) > 1: return AND(*[notin(y, chars) for y in ps])
        return AND(*[z3.Not(z3.Contains(x, seqval(bytes([b])))) for b in chars])
    eng.notin = notin
    def strpbrk(e, st, a, c):
        p = e.need(st, a[0], 'strpbrk'); x = e.cstr(st, a[0], 'strpbrk'); cs = e.cstr(st, a[1], 'strpbrk')
        if not concrete(cs): raise ToolLimit('strpbrk set')
        if concrete(x):
            for i, b in enumerate(x):
                if b in cs: return e.padd(st, p, i)
            return NULL
        s2 = st.fork(); out = []
        cond = notin(x, cs)
        if e.feasible(st, cond): st.pc.append(cond); out.append((st, NULL))
        r = e.fresh_int('strpbrk')
        n = z3.Length(x)
        s2.pc += [r >= 0, r < n, ebool(notin(sextract(x, 0, r), cs)), OR(*[x[r] == b for b in cs])]
        if e.feasible(s2, True if False else z3.BoolVal(True)): out.append((s2, e.padd(s2, p, r)))
        if not out: raise Infeasible()
        return Fork(out)
    exact('strpbrk', strpbrk); exact('strpbrk(char const*, char const*)', strpbrk)
    def strspn_like(neg):
        def f(e, st, a, c):
            x = e.cstr(st, a[0], 'strcspn'); cs = e.cstr(st, a[1], 'strcspn')
            if not concrete(cs): raise ToolLimit('strcspn set')
            if concrete(x):
                for i, b in enumerate(x):
                    if (b in cs) == neg: return i
                return len(x)
            if not neg: raise ToolLimit('strspn')
            n = z3.Length(x)
            r = e.fresh_int('strcspn')
            st.pc += [r >= 0, r <= n, ebool(notin(sextract(x, 0, r), cs)), OR(r == n, *[x[r] == b for b in cs])]
            return r
        return f
    exact('strcspn', strspn_like(True)); exact('strspn', strspn_like(False))
    def memchr(e, st, a, c):
        p = e.need(st, a[0], 'memchr'); ch = a[1]; n = a[2]
        if not isconc(ch): raise ToolLimit('memchr char')
        ch &= 255
        o = e.obj(st, p.obj)
        if o.kind == 'unknown': e.become_bytes(o.id); st.mem.pop(o.id, None); o = e.obj(st, p.obj)
        if o.kind != 'bytes': raise ToolLimit('memchr in ' + o.kind)
        i = e.iptr(st, p); nn = n if isconc(n) else e.to_int(n, 64)
        if o.nul:
            full = sconcat(o.content, b'\0')
            # C17: memchr behaves as if reading sequentially and stopping at the match
            x = sextract(o.content, i, smin(nn, slen(o.content) - i))
            if ch == 0: raise ToolLimit('memchr NUL')
            if not concrete(x):
                # either found within content, or n must be within the buffer
                has = z3.Contains(S(x), seqval(bytes([ch])))
                e.oblige(st, OR(has, iv(i) + iv(nn) <= iv(slen(o.content)) + 1), 'memchr reads out of bounds of %s' % o.name, 'safety')
        else:
            x = sextract(o.content, i, nn)
            e.oblige(st, iv(i) + iv(nn) <= iv(slen(o.content)), 'memchr reads out of bounds of %s' % o.name, 'safety')
        if concrete(x):
            k = x.find(bytes([ch]))
            return NULL if k < 0 else e.padd(st, p, k)
        s2 = st.fork(); out = []
        cond = notin(x, bytes([ch]))
        if e.feasible(st, cond): st.pc.append(ebool(cond)); out.append((st, NULL))
        r = e.fresh_int('memchr')
        s2.pc += [r >= 0, r < iv(slen(x)), ebool(notin(sextract(x, 0, r), bytes([ch]))), S(x)[r] == ch, r == z3.IndexOf(S(x), seqval(bytes([ch])), 0)]
        if e.feasible(s2, z3.BoolVal(True)): out.append((s2, e.padd(s2, p, r)))
        if not out: raise Infeasible()
        return Fork(out)
    exact('memchr', memchr)
    def memcmp(e, st, a, c):
        n = a[2]
        if not isconc(n): n = e.to_int(n, 64)
        xs = []
        for q in a[:2]:
            p = e.need(st, q, 'memcmp'); o = e.obj(st, p.obj)
            if o.kind == 'unknown': e.become_bytes(o.id); st.mem.pop(o.id, None); o = e.obj(st, p.obj)
            if o.kind != 'bytes': raise ToolLimit('memcmp in ' + o.kind)
            i = e.iptr(st, p)
            full = sconcat(o.content, b'\0') if o.nul else o.content
            e.oblige(st, ebool(iv(i) + iv(n) <= iv(slen(full))) if not (isconc(i) and isconc(n) and isconc(slen(full))) else i + n <= slen(full), 'memcmp reads out of bounds of %s' % o.name, 'safety')
            xs.append(sextract(full, i, n))
        return strcmp_like(e, st, xs[0], xs[1])
    exact('memcmp', memcmp)

    # ---------------------------------------------------------------- std::string
    P = 'std::string::'
    def ctor(n, fn): exact(P + n, fn)
    def s_default(e, st, a, c): e.str_new(st, a[0], b'')
    ctor('basic_string()', s_default)
    ctor('basic_string(std::allocator<char> const&)', s_default)
    def s_cstr(e, st, a, c): 
        x = e.cstr(st, a[1], 'std::string(const char*)'); e.str_new(st, a[0], x, nonul=True)
    ctor('basic_string(char const*, std::allocator<char> const&)', s_cstr)
    A(r'^std::string::basic_string<std::allocator<char> >\(char const\*, std::allocator<char> const&\)$', s_cstr)
    def ptr_range(e, st, q, n, why):
        p = e.need(st, q, why); o = e.obj(st, p.obj)
        if not o.alive: e.oblige(st, False, 'use after free: ' + why, 'safety'); raise Infeasible()
        if o.kind == 'unknown': e.become_bytes(o.id); st.mem.pop(o.id, None); o = e.obj(st, p.obj)
        nn = n if isconc(n) else e.to_int(n, 64)
        if o.kind == 'cells' and isconc(nn):
            bs = [e.load_scalar(st, Ptr(p.obj, p.off + k, p.idx), ('i', 8), 1) for k in range(nn)]
            if all(isconc(b) for b in bs): return bytes(bs)
            return z3.Concat(*[z3.Unit(e.to_bv(b, 8)) for b in bs]) if nn > 1 else z3.Unit(e.to_bv(bs[0], 8))
        if o.kind == 'abuf':
            i = e.iptr(st, p)
            e.oblige(st, z3.And(iv(i) >= 0, iv(i) + iv(nn) <= iv(o.size)), why + ': reads out of bounds of %s' % o.name, 'safety')
            r = e.fresh('fromarr', BYTES); k = e.fresh('k', z3.IntSort())
            st.pc.append(z3.Length(r) == iv(nn))
            st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < iv(nn)), r[k] == z3.Select(o.arr, k + iv(i)))))
            return r
        if o.kind != 'bytes': raise ToolLimit('%s from %s' % (why, o.kind))
        i = e.iptr(st, p)
        full = sconcat(o.content, b'\0') if o.nul else o.content
        L = slen(full)
        if isconc(i) and isconc(nn) and isconc(L): cond = i >= 0 and i + nn <= L
        else: cond = z3.And(iv(i) >= 0, iv(nn) >= 0, iv(i) + iv(nn) <= iv(L))
        e.oblige(st, cond, why + ': reads out of bounds of %s' % o.name, 'safety')
        # avoid the terminator when it is not included
        if o.nul:
            n0 = slen(o.content)
            if isconc(i) and isconc(nn) and isconc(n0): inc = i + nn > n0
            else: inc = not e.prove_quick(st, iv(i) + iv(nn) <= iv(n0))
            return sextract(full if inc else o.content, i, nn)
        return sextract(o.content, i, nn)
    eng.ptr_range = ptr_range
    def s_ptrn(e, st, a, c):
        x = ptr_range(e, st, a[1], a[2], 'std::string(ptr,n)'); o = e.obj(st, e.need(st, a[1], 'std::string(ptr,n)').obj)
        # a part of a text without NUL has none
        e.str_new(st, a[0], x, nonul=o.kind == 'bytes' and o.nonul and z3.is_expr(x) and x.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_expr(o.content) and x.arg(0).eq(o.content))
    ctor('basic_string(char const*, unsigned long, std::allocator<char> const&)', s_ptrn)
    def s_copy(e, st, a, c): e.str_new(st, a[0], e.str_get(st, a[1]))
    ctor('basic_string(std::string const&)', s_copy)
    ctor('basic_string(std::string const&, std::allocator<char> const&)', s_copy)
    def s_move(e, st, a, c):
        x = e.str_get(st, a[1]); e.str_set(st, a[1], b''); e.str_new(st, a[0], x)
    ctor('basic_string(std::string&&)', s_move)
    def s_fill(e, st, a, c):
        if isconc(a[1]) and isconc(a[2]): e.str_new(st, a[0], bytes([a[2]]) * a[1])
        elif isconc(a[1]) and a[1] == 1: e.str_new(st, a[0], z3.Unit(e.to_bv(a[2], 8)))
        else: raise ToolLimit('string(n,c)')
    ctor('basic_string(unsigned long, char, std::allocator<char> const&)', s_fill)
    A(r'^std::string::basic_string<std::allocator<char> >\(unsigned long, char, std::allocator<char> const&\)$', s_fill)
    def s_il(e, st, a, c): raise ToolLimit('string(initializer_list)')
    def s_sub(e, st, x, pos, n):
        """substring; throws out_of_range when pos > size"""
        L = slen(x)
        pos = pos if isconc(pos) else e.to_int(pos, 64)
        n = n if isconc(n) else e.to_int(n, 64)
        if isconc(pos) and isconc(L):
            if pos > L: raise Throw('@_ZTISt12out_of_range')
        rest = L - pos
        if isconc(n) and n == NPOS: m = rest
        elif isconc(n) and isconc(rest): m = min(n, rest)
        else:
            if e.prove_quick(st, iv(n) <= iv(rest)): m = n
            elif e.prove_quick(st, iv(n) >= iv(rest)): m = rest
            else: m = z3.If(iv(n) <= iv(rest), iv(n), iv(rest))
        return sextract(x, pos, m)
    def with_range(e, st, x, pos, fn):
        """fork on pos > size -> out_of_range"""
        L = slen(x); posi = pos if isconc(pos) else e.to_int(pos, 64)
        if isconc(posi) and isconc(L):
            if posi > L: raise Throw('@_ZTISt12out_of_range')
            return fn(st)
        bad = iv(posi) > iv(L)
        if e.prove_quick(st, z3.Not(bad)): return fn(st)
        if not e.feasible(st, z3.Not(bad)): raise Throw('@_ZTISt12out_of_range')
        s2 = st.fork()
        st.pc.append(z3.Not(bad)); s2.pc.append(bad)
        return Fork([(st, fn(st)), (s2, Throw('@_ZTISt12out_of_range'))])
    def s_substr(e, st, a, c):
        x = e.str_get(st, a[1])
        return with_range(e, st, x, a[2], lambda s: e.str_new(s, a[0], s_sub(e, s, x, a[2], a[3])))
    exact(P + 'substr(unsigned long, unsigned long) const', s_substr)
    def s_ctorsub(e, st, a, c):
        x = e.str_get(st, a[1])
        n = a[3] if len(a) > 3 and not isinstance(a[3], (Ptr, MaybePtr)) else NPOS
        return with_range(e, st, x, a[2], lambda s: e.str_new(s, a[0], s_sub(e, s, x, a[2], n)))
    ctor('basic_string(std::string const&, unsigned long, unsigned long)', s_ctorsub)
    ctor('basic_string(std::string const&, unsigned long)', s_ctorsub)
    def s_dtor(e, st, a, c): e.str_destroy(st, a[0])
    exact(P + '~basic_string()', s_dtor)
    def s_size(e, st, a, c):
        L = slen(e.str_get(st, a[0]))
        if not isconc(L):                     # max_size()
            b = z3.simplify(L < (1 << 62))
            if e.known(st, b) is not True: st.pc.append(b)
        return L
    exact(P + 'size() const', s_size); exact(P + 'length() const', s_size)
    def s_empty(e, st, a, c):
        x = e.str_get(st, a[0])
        return len(x) == 0 if concrete(x) else z3.Length(x) == 0
    exact(P + 'empty() const', s_empty)
    def s_data(e, st, a, c):
        b = e.str_buf(st, a[0]); return Ptr(b, 0, 0)
    for n in ('c_str() const', 'data() const', 'data()'): exact(P + n, s_data)
    # iterators: __normal_iterator is a struct with one pointer returned as ptr
    exact(P + 'begin()', s_data); exact(P + 'begin() const', s_data); exact(P + 'cbegin() const', s_data)
    def s_end(e, st, a, c):
        b = e.str_buf(st, a[0]); x = e.obj(st, b).content
        return Ptr(b, 0, slen(x))
    exact(P + 'end()', s_end); exact(P + 'end() const', s_end); exact(P + 'cend() const', s_end)
    def s_index(e, st, a, c):
        b = e.str_buf(st, a[0]); i = a[1] if isconc(a[1]) else e.to_int(a[1], 64)
        x = e.obj(st, b).content; L = slen(x)
        e.oblige(st, (i <= L) if isconc(i) and isconc(L) else iv(i) <= iv(L), 'string index out of bounds', 'safety')
        return Ptr(b, 0, i)
    exact(P + 'operator[](unsigned long)', s_index); exact(P + 'operator[](unsigned long) const', s_index)
    def s_at(e, st, a, c):
        b = e.str_buf(st, a[0]); i = a[1] if isconc(a[1]) else e.to_int(a[1], 64)
        L = slen(e.obj(st, b).content)
        bad = (i >= L) if isconc(i) and isconc(L) else iv(i) >= iv(L)
        if bad is True: raise Throw('@_ZTISt12out_of_range')
        if bad is False or e.prove_quick(st, z3.Not(bad)): return Ptr(b, 0, i)
        s2 = st.fork(); s2.pc.append(bad); st.pc.append(z3.Not(bad))
        out = [(st, Ptr(b, 0, i)), (s2, Throw('@_ZTISt12out_of_range'))]
        return Fork([x for x in out if e.feasible(x[0], z3.BoolVal(True))])
    exact(P + 'at(unsigned long)', s_at); exact(P + 'at(unsigned long) const', s_at)
    def s_back(e, st, a, c):
        b = e.str_buf(st, a[0]); L = slen(e.obj(st, b).content)
        e.oblige(st, L > 0 if isconc(L) else L > 0, 'back() of empty string', 'safety')
        return Ptr(b, 0, L - 1)
    exact(P + 'back()', s_back); exact(P + 'back() const', s_back)
    def s_front(e, st, a, c):
        b = e.str_buf(st, a[0]); L = slen(e.obj(st, b).content)
        e.oblige(st, L > 0, 'front() of empty string', 'safety')
        return Ptr(b, 0, 0)
    exact(P + 'front()', s_front); exact(P + 'front() const', s_front)
    def ret_this(fn):
        def f(e, st, a, c):
            r = fn(e, st, a, c)
            return r if isinstance(r, Fork) else a[0]
        return f
    def s_assign_c(e, st, a, c): x = e.cstr(st, a[1], 'string = const char*'); e.str_set(st, a[0], x); return a[0]
    exact(P + 'operator=(char const*)', s_assign_c); exact(P + 'assign(char const*)', s_assign_c)
    def s_assign_ch(e, st, a, c): e.str_set(st, a[0], z3.Unit(e.to_bv(a[1], 8)) if not isconc(a[1]) else bytes([a[1]])); return a[0]
    exact(P + 'operator=(char)', s_assign_ch)
    def s_assign_n(e, st, a, c): x = ptr_range(e, st, a[1], a[2], 'assign'); e.str_set(st, a[0], x); return a[0]
    exact(P + 'assign(char const*, unsigned long)', s_assign_n)
    def s_assign(e, st, a, c): x = e.str_get(st, a[1]); e.str_set(st, a[0], x); return a[0]
    exact(P + 'operator=(std::string const&)', s_assign); exact(P + 'assign(std::string const&)', s_assign)
    def s_assign_m(e, st, a, c):
        x = e.str_get(st, a[1])
        if e.str_buf(st, a[1]) != e.str_buf(st, a[0]): e.str_set(st, a[1], b'')
        e.str_set(st, a[0], x); return a[0]
    exact(P + 'operator=(std::string&&)', s_assign_m)
    def s_assign_sub(e, st, a, c):
        x = e.str_get(st, a[1])
        def f(s): e.str_set(s, a[0], s_sub(e, s, x, a[2], a[3])); return a[0]
        return with_range(e, st, x, a[2], f)
    exact(P + 'assign(std::string const&, unsigned long, unsigned long)', s_assign_sub)
    def app(get):
        def f(e, st, a, c):
            y = get(e, st, a); e.str_set(st, a[0], sconcat(e.str_get(st, a[0]), y)); return a[0]
        return f
    ap_c = app(lambda e, st, a: e.cstr(st, a[1], 'append'))
    ap_s = app(lambda e, st, a: e.str_get(st, a[1]))
    ap_n = app(lambda e, st, a: ptr_range(e, st, a[1], a[2], 'append'))
    def chseq(e, v): return bytes([v & 255]) if isconc(v) else z3.Unit(e.to_bv(v, 8))
    ap_ch = app(lambda e, st, a: chseq(e, a[1]))
    exact(P + 'append(char const*)', ap_c); exact(P + 'operator+=(char const*)', ap_c)
    exact(P + 'append(std::string const&)', ap_s); exact(P + 'operator+=(std::string const&)', ap_s)
    exact(P + 'append(char const*, unsigned long)', ap_n); exact(P + 'operator+=(char)', ap_ch)
    exact(P + 'push_back(char)', lambda e, st, a, c: (ap_ch(e, st, a, c), None)[1])
    def s_append_sub(e, st, a, c):
        x = e.str_get(st, a[1])
        def f(s): e.str_set(s, a[0], sconcat(e.str_get(s, a[0]), s_sub(e, s, x, a[2], a[3]))); return a[0]
        return with_range(e, st, x, a[2], f)
    exact(P + 'append(std::string const&, unsigned long, unsigned long)', s_append_sub)
    def s_append_fill(e, st, a, c):
        if not (isconc(a[1]) and isconc(a[2])): raise ToolLimit('append(n,c)')
        e.str_set(st, a[0], sconcat(e.str_get(st, a[0]), bytes([a[2]]) * a[1])); return a[0]
    exact(P + 'append(unsigned long, char)', s_append_fill)
    def s_clear(e, st, a, c): e.str_set(st, a[0], b'')
    exact(P + 'clear()', s_clear)
    exact(P + 'reserve(unsigned long)', lambda e, st, a, c: None)
    exact(P + 'shrink_to_fit()', lambda e, st, a, c: None)
    exact(P + 'get_allocator() const', lambda e, st, a, c: None)
    def s_capacity(e, st, a, c):
        L = slen(e.str_get(st, a[0])); r = e.fresh_int('cap', 15, (1 << 62), st); st.pc.append(r >= iv(L)); return r
    exact(P + 'capacity() const', s_capacity)
    def s_popback(e, st, a, c):
        x = e.str_get(st, a[0]); L = slen(x)
        e.oblige(st, L > 0, 'pop_back of empty string', 'safety')
        e.str_set(st, a[0], sextract(x, 0, L - 1))
    exact(P + 'pop_back()', s_popback)
    def s_resize(e, st, a, c):
        x = e.str_get(st, a[0]); n = a[1] if isconc(a[1]) else e.to_int(a[1], 64); L = slen(x)
        if isconc(n) and isconc(L): e.str_set(st, a[0], x[:n] if n <= L else sconcat(x, b'\0' * (n - L))); return
        if e.prove_quick(st, iv(n) <= iv(L)): e.str_set(st, a[0], sextract(x, 0, n)); return
        raise ToolLimit('string resize growing')
    exact(P + 'resize(unsigned long)', s_resize)
    def s_erase(e, st, a, c):
        x = e.str_get(st, a[0])
        def f(s):
            pos = a[1] if isconc(a[1]) else e.to_int(a[1], 64); n = a[2] if isconc(a[2]) else e.to_int(a[2], 64)
            cut = s_sub(e, s, x, pos, n); k = slen(cut); L = slen(x)
            m = pos + k
            e.str_set(s, a[0], sconcat(sextract(x, 0, pos), sextract(x, m, L - m))); return a[0]
        return with_range(e, st, x, a[1], f)
    exact(P + 'erase(unsigned long, unsigned long)', s_erase)
    def s_insert(get):
        def g(e, st, a, c):
            x = e.str_get(st, a[0]); y = get(e, st, a)
            def f(s):
                pos = a[1] if isconc(a[1]) else e.to_int(a[1], 64); L = slen(x)
                e.str_set(s, a[0], sconcat(sextract(x, 0, pos), y, sextract(x, pos, L - pos))); return a[0]
            return with_range(e, st, x, a[1], f)
        return g
    exact(P + 'insert(unsigned long, char const*)', s_insert(lambda e, st, a: e.cstr(st, a[2], 'insert')))
    exact(P + 'insert(unsigned long, std::string const&)', s_insert(lambda e, st, a: e.str_get(st, a[2])))
    exact(P + 'insert(unsigned long, unsigned long, char)', s_insert(lambda e, st, a: bytes([a[3]]) * a[2]))
    def s_replace(get):
        def g(e, st, a, c):
            x = e.str_get(st, a[0]); y = get(e, st, a)
            def f(s):
                pos = a[1] if isconc(a[1]) else e.to_int(a[1], 64); L = slen(x)
                k = slen(s_sub(e, s, x, pos, a[2])); m = pos + k
                e.str_set(s, a[0], sconcat(sextract(x, 0, pos), y, sextract(x, m, L - m))); return a[0]
            return with_range(e, st, x, a[1], f)
        return g
    exact(P + 'replace(unsigned long, unsigned long, char const*, unsigned long)', s_replace(lambda e, st, a: ptr_range(e, st, a[3], a[4], 'replace')))
    exact(P + 'replace(unsigned long, unsigned long, char const*)', s_replace(lambda e, st, a: e.cstr(st, a[3], 'replace')))
    exact(P + 'replace(unsigned long, unsigned long, std::string const&)', s_replace(lambda e, st, a: e.str_get(st, a[3])))
    # ---- search
    def scan(e, st, ps, cs, rev=False):
        """parts without a byte of cs are skipped: (number of parts skipped, offset inside the next part or None)"""
        k = 0
        for y in (reversed(ps) if rev else ps):
            if isinstance(y, bytes):
                js = [j for j, b in enumerate(y) if b in cs]
                if js: return k, (js[-1] if rev else js[0])
            elif not (cs and e.prove_quick(st, ebool(notin(y, cs)), 600)): return k, None
            k += 1
        return k, None
    eng.scan = scan
    def plen(ps):
        r = 0
        for y in ps: r = r + (len(y) if isinstance(y, bytes) else z3.Length(y))
        return r
    eng.plen = plen
    def find_first(e, st, x, cs, pos):
        pos = pos if isconc(pos) else e.to_int(pos, 64)
        if not concrete(cs): raise ToolLimit('find_first_of set')
        if concrete(x) and isconc(pos):
            for i in range(pos, len(x)):
                if x[i] in cs: return i
            return NPOS
        ps = sparts(x); cut = scut(ps, pos) if not (isconc(pos) and pos == 0) else ([], ps)
        if cut is not None:
            k, j = scan(e, st, cut[1], cs)
            base = plen(cut[0] + cut[1][:k])
            if k == len(cut[1]): return NPOS
            if j is not None: return z3.simplify(iv(base + j)) if not isconc(base + j) else base + j
            tail = sconcat(*cut[1][k:])
        else: base = pos; tail = sextract(x, pos, slen(x) - pos)
        r = e.fresh_int('ffo'); T = S(tail)
        none = OR(False if cut is not None else iv(pos) >= iv(slen(x)), notin(T, cs))
        st.pc.append(z3.If(ebool(none), r == NPOS, z3.And(r < NPOS, r >= iv(base), r < iv(base) + z3.Length(T), OR(*[T[r - iv(base)] == b for b in cs]), ebool(notin(S(sextract(T, 0, r - iv(base))), cs)))))
        return r
    def find(e, st, x, y, pos):
        pos = pos if isconc(pos) else e.to_int(pos, 64)
        if concrete(x) and concrete(y) and isconc(pos):
            k = x.find(y, pos) if pos <= len(x) else -1
            return NPOS if k < 0 else k
        if concrete(y) and len(y) == 1: return find_first(e, st, x, y, pos)
        known = st.ghost.get(('find', S(x).get_id(), y, pos)) if concrete(y) and isconc(pos) else None
        if known is not None: return known
        k = z3.IndexOf(S(x), S(y), iv(pos))
        r = e.fresh_int('find')
        st.pc.append(z3.If(k < 0, r == NPOS, z3.And(r < NPOS, r == k, r >= iv(pos), r + iv(slen(y)) <= iv(slen(x)))))
        return r
    exact(P + 'find(char const*, unsigned long) const', lambda e, st, a, c: find(e, st, e.str_get(st, a[0]), e.cstr(st, a[1], 'find'), a[2]))
    exact(P + 'find(std::string const&, unsigned long) const', lambda e, st, a, c: find(e, st, e.str_get(st, a[0]), e.str_get(st, a[1]), a[2]))
    exact(P + 'find(char, unsigned long) const', lambda e, st, a, c: find(e, st, e.str_get(st, a[0]), chseq(e, a[1]), a[2]))
    exact(P + 'find_first_of(char, unsigned long) const', lambda e, st, a, c: find(e, st, e.str_get(st, a[0]), chseq(e, a[1]), a[2]))
    exact(P + 'find_first_of(char const*, unsigned long) const', lambda e, st, a, c: find_first(e, st, e.str_get(st, a[0]), e.cstr(st, a[1], 'find_first_of'), a[2]))
    def find_last(e, st, x, cs, pos):
        if not (isconc(pos) and pos == NPOS): raise ToolLimit('find_last_of with position')
        if not concrete(cs): raise ToolLimit('find_last_of set')
        if concrete(x):
            for i in range(len(x) - 1, -1, -1):
                if x[i] in cs: return i
            return NPOS
        ps = sparts(x); k, j = scan(e, st, ps, cs, True)
        if k == len(ps): return NPOS
        head = ps[:len(ps) - k]
        if j is not None:
            r = plen(head[:-1]) + j
            return r if isconc(r) else z3.simplify(r)
        H = S(sconcat(*head)); r = e.fresh_int('flo'); L = z3.Length(H)
        st.pc.append(z3.If(ebool(notin(H, cs)), r == NPOS, z3.And(r < NPOS, r >= 0, r < L, OR(*[H[r] == b for b in cs]), ebool(notin(S(sextract(H, r + 1, L - r - 1)), cs)))))
        return r
    for n in ('find_last_of(char const*, unsigned long) const', ):
        exact(P + n, lambda e, st, a, c: find_last(e, st, e.str_get(st, a[0]), e.cstr(st, a[1], 'find_last_of'), a[2]))
    for n in ('find_last_of(char, unsigned long) const', 'rfind(char, unsigned long) const'):
        exact(P + n, lambda e, st, a, c: find_last(e, st, e.str_get(st, a[0]), chseq(e, a[1]), a[2]))
    def s_compare(e, st, x, y): return strcmp_like(e, st, x, y)
    exact(P + 'compare(char const*) const', lambda e, st, a, c: s_compare(e, st, e.str_get(st, a[0]), e.cstr(st, a[1], 'compare')))
    exact(P + 'compare(std::string const&) const', lambda e, st, a, c: s_compare(e, st, e.str_get(st, a[0]), e.str_get(st, a[1])))
    def s_compare3(get):
        def g(e, st, a, c):
            x = e.str_get(st, a[0]); y = get(e, st, a)
            return with_range(e, st, x, a[1], lambda s: s_compare(e, s, s_sub(e, s, x, a[1], a[2]), y))
        return g
    exact(P + 'compare(unsigned long, unsigned long, char const*) const', s_compare3(lambda e, st, a: e.cstr(st, a[3], 'compare')))
    exact(P + 'compare(unsigned long, unsigned long, char const*, unsigned long) const', s_compare3(lambda e, st, a: ptr_range(e, st, a[3], a[4], 'compare')))
    exact(P + 'compare(unsigned long, unsigned long, std::string const&) const', s_compare3(lambda e, st, a: e.str_get(st, a[3])))
    def eqop(neg, gx, gy):
        def f(e, st, a, c):
            r = seq_eq(gx(e, st, a[0]), gy(e, st, a[1]))
            return NOT(r) if neg else r
        return f
    gs = lambda e, st, p: e.str_get(st, p)
    gc = lambda e, st, p: e.cstr(st, p, 'string comparison')
    for op, neg in (('==', False), ('!=', True)):
        exact('bool std::operator%s(std::string const&, std::string const&)' % op, eqop(neg, gs, gs))
        exact('bool std::operator%s(std::string const&, char const*)' % op, eqop(neg, gs, gc))
        exact('bool std::operator%s(char const*, std::string const&)' % op, eqop(neg, gc, gs))
    def plus(gx, gy):
        def f(e, st, a, c): e.str_new(st, a[0], sconcat(gx(e, st, a[1]), gy(e, st, a[2])))
        return f
    gch = lambda e, st, p: chseq(e, p)
    for tx, gx in (('std::string const&', gs), ('std::string&&', gs), ('char const*', gc), ('char', gch)):
        for ty, gy in (('std::string const&', gs), ('std::string&&', gs), ('char const*', gc), ('char', gch)):
            exact('std::string std::operator+(%s, %s)' % (tx, ty), plus(gx, gy))
    def s_swap(e, st, a, c):
        x = e.str_get(st, a[0]); y = e.str_get(st, a[1]); e.str_set(st, a[0], y); e.str_set(st, a[1], x)
    exact(P + 'swap(std::string&)', s_swap)
    def to_string(e, st, a, c):
        v = a[1]
        if not isconc(v):
            r = e.fn_dec(e, st, v, c.name)
            e.str_new(st, a[0], r); return
        w = 64 if 'long' in c.name else 32
        if 'unsigned' not in c.name and v >> (w - 1): v -= 1 << w
        e.str_new(st, a[0], str(v).encode())
    A(r'^std::(__cxx11::)?to_string\(', to_string)

    # ---------------------------------------------------------------- std::vector of plain elements
    # the elements are kept as one array per field (schema: field offset -> kind)
    SCHEMA = {'std::pair<std::string, int>': (40, 'S@0,i32@32'), 'std::string': (32, 'S@0'), 'std::pair<std::string, std::string>': (64, 'S@0,S@32')}
    eng.vec_schema = SCHEMA
    sp = lambda T: T + ' ' if T.endswith('>') else T
    VEC = lambda T: 'std::vector<%s, std::allocator<%s> >' % (T, sp(T))
    def vec_new(e, st, T):
        stride, sch = SCHEMA[T]
        o = e.new_obj(st, 'elems', None, 'vector elements'); o.stride = stride; o.fields = {}; o.n = 0
        for f in sch.split(','):
            k, off = f.split('@'); off = int(off)
            o.fields[off] = ('S', e.fresh('va', z3.ArraySort(z3.IntSort(), BYTES))) if k == 'S' else (k, e.fresh('va', z3.ArraySort(z3.IntSort(), z3.BitVecSort(int(k[1:])))))
        return o
    def vec_obj(e, st, p, T):
        b = e.load(st, p, ir.PTR, e.mods[0])
        if isinstance(b, Ptr) and b.obj and e.obj(st, b.obj).kind == 'elems': return e.wobj(st, b.obj)
        if isinstance(b, Ptr) and b.obj == 0: return vec_new(e, st, T)
        raise ToolLimit('vector operation on unknown storage')
    def vec_bind(e, st, p, o):
        for k, v in ((0, Ptr(o.id, 0, 0)), (8, Ptr(o.id, 0, o.n)), (16, Ptr(o.id, 0, o.n))): e.store(st, Ptr(p.obj, p.off + k, p.idx), v, ir.PTR, e.mods[0])
    def vec_put(e, st, o, i, src):
        for off, (k, arr) in list(o.fields.items()):
            q = Ptr(src.obj, src.off + off, src.idx)
            if k == 'S': v = S(e.str_get(st, q))
            else: w = int(k[1:]); v = e.to_bv(e.load(st, q, ('i', w), e.mods[0]), w)
            o.fields[off] = (k, z3.Store(arr, iv(i), v))
    def vec_push(e, st, a, c):
        T = re.match(r'^std::vector<(.*?), std::allocator<.*> ?>::(push_back|emplace_back)', c.name).group(1)
        p = e.need(st, a[0], 'vector'); src = e.need(st, a[1], 'vector element')
        o = vec_obj(e, st, p, T); vec_put(e, st, o, o.n, src); o.n = o.n + 1
        vec_bind(e, st, p, o)
    for T in SCHEMA:
        for op in ('push_back(%s const&)' % T, 'push_back(%s&&)' % T): exact('%s::%s' % (VEC(T), op), vec_push)
    # NB: T is recovered from the demangled name: the shortest prefix up to ', std::allocator<'
    def vec_copy(assign):
        def f(e, st, a, c):
            T = re.match(r'^std::vector<(.*?), std::allocator<.*> ?>::(vector|operator=)', c.name).group(1)
            p = e.need(st, a[0], 'vector'); q = e.need(st, a[1], 'vector')
            s0 = vec_obj(e, st, q, T); o = vec_new(e, st, T); o.fields = dict(s0.fields); o.n = s0.n
            vec_bind(e, st, p, o)
            return p if assign else None
        return f
    for T in SCHEMA:
        V = VEC(T)
        exact('%s::vector(%s const&)' % (V, V), vec_copy(False)); exact('%s::operator=(%s const&)' % (V, V), vec_copy(True))
        exact('%s::~vector()' % V, lambda e, st, a, c: None)
        def vec_il(e, st, a, c, T=T):
            p = e.need(st, a[0], 'vector'); q = e.need(st, a[1], 'initializer list'); n = a[2]
            if not isconc(n): raise ToolLimit('initializer list')
            o = vec_new(e, st, T)
            for i in range(n): vec_put(e, st, o, i, Ptr(q.obj, q.off + i * SCHEMA[T][0], q.idx))
            o.n = n; vec_bind(e, st, p, o)
        exact('%s::vector(std::initializer_list<%s>, std::allocator<%s> const&)' % (V, sp(T), sp(T)), vec_il)

    # ---------------------------------------------------------------- exceptions
    def alloc_exc(e, st, a, c):
        n = a[0] if isconc(a[0]) else 64
        o = e.new_obj(st, 'cells', max(n, 1), 'exception'); o.regions = [(0, max(n, 1), 'uninit', None)]
        return Ptr(o.id)
    exact('__cxa_allocate_exception', alloc_exc); exact('__cxa_free_exception', lambda e, st, a, c: None)
    def cxa_throw(e, st, a, c):
        ti = c.ins.a['args'][1][1]
        raise Throw(ti[1], a[0])
    exact('__cxa_throw', cxa_throw)
    def begin_catch(e, st, a, c):
        st.caught.append((st.exc, a[0])); return a[0]
    exact('__cxa_begin_catch', begin_catch)
    exact('__cxa_get_exception_ptr', lambda e, st, a, c: a[0])
    def end_catch(e, st, a, c):
        if st.caught: st.caught.pop()
    exact('__cxa_end_catch', end_catch)
    def rethrow(e, st, a, c):
        if not st.caught: raise ToolLimit('rethrow')
        (ti, obj), _ = st.caught[-1]
        raise Throw(ti, obj)
    exact('__cxa_rethrow', rethrow)
    def typeid_for(e, st, a, c):
        t = c.ins.a['args'][0][1]
        return e.ti_id(None if t[0] == 'null' else t[1])
    exact('llvm.eh.typeid.for', typeid_for); exact('llvm.eh.typeid.for.p0', typeid_for)
    def thrower(ti):
        def f(e, st, a, c): raise Throw(ti)
        return f
    exact('std::__throw_out_of_range_fmt(char const*, ...)', thrower('@_ZTISt12out_of_range'))
    exact('std::__throw_out_of_range(char const*)', thrower('@_ZTISt12out_of_range'))
    exact('std::__throw_length_error(char const*)', thrower('@_ZTISt12length_error'))
    exact('std::__throw_logic_error(char const*)', thrower('@_ZTISt11logic_error'))
    exact('std::__throw_invalid_argument(char const*)', thrower('@_ZTISt16invalid_argument'))
    exact('std::__throw_bad_alloc()', thrower('@_ZTISt9bad_alloc'))
    exact('std::__throw_bad_array_new_length()', thrower('@_ZTISt9bad_alloc'))
    def term(e, st, a, c):
        e.oblige(st, False, 'std::terminate reached', 'safety'); raise StopPath()
    exact('std::terminate()', term); exact('abort', term); exact('__clang_call_terminate', term)
    def assert_fail(e, st, a, c):
        e.oblige(st, False, 'assertion in the code fails', 'safety'); raise StopPath()
    exact('__assert_fail', assert_fail)
    exact('llvm.trap', term)
    def trivial(*names):
        for n in names: exact(n, lambda e, st, a, c: None)
    trivial('__cxa_atexit', 'std::allocator<char>::allocator()', 'std::allocator<char>::~allocator()', 'std::__new_allocator<char>::__new_allocator()', 'std::__new_allocator<char>::~__new_allocator()', 'std::exception::~exception()')
    exact('llvm.is.constant.i64', lambda e, st, a, c: False)
    exact('llvm.threadlocal.address.p0', lambda e, st, a, c: a[0])
    exact('__cxa_guard_acquire', lambda e, st, a, c: 1)
    exact('__cxa_guard_release', lambda e, st, a, c: None)
    exact('__gthread_active_p()', lambda e, st, a, c: 0)
    def expect(e, st, a, c): return a[0]
    A(r'^llvm\.expect', expect)
    def minmax(nm):
        def f(e, st, a, c):
            p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[nm]
            t = c.ins.a['args'][0][0]
            cnd = e.icmp(st, p, t, a[0], a[1])
            if cnd is True: return a[0]
            if cnd is False: return a[1]
            return z3.If(cnd, e.to_bv(a[0], t[1]), e.to_bv(a[1], t[1]))
        return f
    for nm in ('smax', 'smin', 'umax', 'umin'): A(r'^llvm\.%s\.' % nm, minmax(nm))
    def tolower(e, st, a, c):
        v = a[0]
        if isconc(v): return v + 32 if 65 <= v <= 90 else v
        b = e.to_bv(v, 32)
        return z3.If(z3.And(z3.UGE(b, 65), z3.ULE(b, 90)), b + 32, b)
    exact('tolower', tolower)
    def errno_loc(e, st, a, c):
        k = ('errno',)
        if k not in st.ghost:
            o = e.new_obj(st, 'cells', 4, 'errno'); o.regions = [(0, 4, 'lazy', ('errno', 0))]; st.ghost[k] = o.id
        return Ptr(st.ghost[k])
    exact('__errno_location', errno_loc)

# ---------------------------------------------------------------- harness intrinsics (vf.h)
def intrinsics(eng):
    A = eng.add_model
    def exact(name, fn): A(name, fn, exact=True, kind='intrinsic')
    def lit(e, st, p): return e.cstr(st, p, 'label').decode()
    def addin(st, name, kind, t):
        st.inputs.append((name, kind, t))
    def i_int(w, signed_):
        def f(e, st, a, c):
            n = lit(e, st, a[0]); v = z3.BitVec('in_%s_%d' % (n, len(st.inputs)), w); addin(st, n, 'int', v); return v
        return f
    exact('vf_int', i_int(32, True)); exact('vf_uint', i_int(32, False)); exact('vf_u64', i_int(64, False)); exact('vf_char', i_int(8, False))
    def i_size(e, st, a, c):
        n = lit(e, st, a[0]); lo = a[1]; hi = a[2]
        v = z3.Int('in_%s_%d' % (n, len(st.inputs))); st.pc += [v >= iv(e.to_int(lo, 64)), v <= iv(e.to_int(hi, 64))]; addin(st, n, 'int', v); return v
    exact('vf_size', i_size)
    def i_irange(e, st, a, c):
        n = lit(e, st, a[0]); lo = e.to_sint(a[1], 32); hi = e.to_sint(a[2], 32)
        v = z3.Int('in_%s_%d' % (n, len(st.inputs))); st.pc += [v >= lo, v <= hi]; addin(st, n, 'int', v)
        if lo < 0: raise ToolLimit('vf_irange negative')
        return v
    exact('vf_irange', i_irange)
    def i_bool(e, st, a, c):
        n = lit(e, st, a[0]); v = z3.Bool('in_%s_%d' % (n, len(st.inputs))); addin(st, n, 'int', v); return v
    exact('vf_bool', i_bool)
    def i_cstr(maybe):
        def f(e, st, a, c):
            n = lit(e, st, a[0]); k = len(st.inputs)
            s = z3.Const('in_%s_%d' % (n, k), BYTES)
            st.pc.append(z3.Not(z3.Contains(s, seqval(b'\0'))))
            o = e.bytes_obj(st, s, 'input ' + n, nul=True, nonul=True, const=True)
            if maybe:
                b = z3.Bool('in_%s_%d_null' % (n, k)); addin(st, n, 'cstr?', (b, s))
                return MaybePtr(b, Ptr(o.id))
            addin(st, n, 'str', s)
            return Ptr(o.id)
        return f
    exact('vf_cstr', i_cstr(False)); exact('vf_cstr_or_null', i_cstr(True))
    exact('vf_text', i_cstr(False)); exact('vf_text_or_null', i_cstr(True))
    def i_bytes(e, st, a, c):
        n = lit(e, st, a[0]); k = len(st.inputs)
        s = z3.Const('in_%s_%d' % (n, k), BYTES)
        o = e.bytes_obj(st, s, 'input ' + n, nul=False, const=True)
        addin(st, n, 'str', s)
        e.store(st, a[1], z3.Length(s), ('i', 64), e.mods[0])
        return Ptr(o.id)
    exact('vf_bytes', i_bytes)
    def i_string(e, st, a, c):
        n = lit(e, st, a[0]); k = len(st.inputs)
        s = z3.Const('in_%s_%d' % (n, k), BYTES)
        addin(st, n, 'str', s)
        e.str_set(st, a[1], s)
    exact('vf_string', i_string)
    def i_object(e, st, a, c):
        n = lit(e, st, a[0]); sz = a[1]
        nm = 'obj_%s_%d' % (n, len(st.inputs))
        o = e.new_obj(st, 'cells', sz, n); o.regions = [(0, sz, 'lazy', (nm, 0))]
        addin(st, n, 'obj', z3.IntVal(0))
        return Ptr(o.id)
    exact('vf_object', i_object)
    def i_assume(e, st, a, c):
        b = e.to_bool(a[0])
        if b is False: raise StopPath()
        if b is not True:
            if not e.feasible(st, b): raise StopPath()
            st.pc.append(b)
    exact('vf_assume', i_assume)
    def i_assert(e, st, a, c):
        b = e.to_bool(a[0]); e.oblige(st, b, lit(e, st, a[1]), 'assert')
    exact('vf_assert', i_assert)
    def i_reach(e, st, a, c):
        if not e.dry: e.reach.append((lit(e, st, a[0]), list(st.pc)))
    exact('vf_reach', i_reach)
    exact('vf_symbolic', lambda e, st, a, c: 1)
    def getstr(e, st, v):
        return e.cstr(st, v, 'compared string')
    def i_streq(e, st, a, c):
        na, nb = e.isnull(a[0]), e.isnull(a[1])
        def content(v):
            if isinstance(v, Ptr) and v.obj == 0: return b''
            if isinstance(v, MaybePtr): v = v.ptr
            return getstr(e, st, v)
        x, y = content(a[0]), content(a[1])
        return OR(AND(na, nb), AND(NOT(na), NOT(nb), seq_eq(x, y)))
    exact('vf_streq', i_streq)
    def i_ssave(e, st, a, c):
        v = a[1]; n = e.isnull(v)
        if n is True: t = b''
        else: t = getstr(e, st, v.ptr if isinstance(v, MaybePtr) else v)
        st.ghost[('slot', a[0])] = (n, t)
    exact('vf_str_save', i_ssave)
    def i_ssame(e, st, a, c):
        n0, t0 = st.ghost[('slot', a[0])]
        v = a[1]; n = e.isnull(v)
        if n is True: t = b''
        else: t = getstr(e, st, v.ptr if isinstance(v, MaybePtr) else v)
        return OR(AND(n0, n), AND(NOT(n0), NOT(n), seq_eq(t0, t)))
    exact('vf_str_same', i_ssame)
    def i_snap(e, st, a, c):
        p = e.need(st, a[0], 'snapshot')
        st.ghost[('snap', p.obj, p.off)] = (dict(e.obj(st, p.obj).cells), dict(e.obj(st, p.obj).strs), list(e.obj(st, p.obj).regions))
        k = ('snapbuf',)
        for off, b in e.obj(st, p.obj).strs.items(): st.ghost[('snapbuf', p.obj, off)] = e.obj(st, b).content
    exact('vf_frame_save', i_snap)
    def i_frame(e, st, a, c):
        """vf_frame_check(obj, size, ex_off1, ex_len1, ex_off2, ex_len2, label)"""
        p = e.need(st, a[0], 'frame'); label = lit(e, st, a[6])
        ex = [(a[2], a[2] + a[3]), (a[4], a[4] + a[5])]
        def excl(off, w): return any(x <= off and off + w <= y for x, y in ex)
        cells0, strs0, regs0 = st.ghost[('snap', p.obj, p.off)]
        o = e.obj(st, p.obj)
        for off in set(cells0) | set(o.cells):
            x = o.cells.get(off); y = cells0.get(off)
            w = (x or y)[0]
            if excl(off, w): continue
            if x is None:
                e.oblige(st, False, label + ': field at offset %d changed' % off, 'frame'); continue
            if y is None:
                b = Obj(o.id, 'cells', o.size, o.name); b.regions = regs0; b.owner = st.sid
                d = e.default(st, b, off, x[0], ir.PTR if isinstance(x[1], (MaybePtr, Ptr, FuncPtr)) else ('i', 8 * x[0]))
                y = (x[0], d)
            if e.same_val(x[1], y[1]): continue
            cond = valeq(e, st, x[1], y[1], x[0])
            e.oblige(st, cond, label + ': field at offset %d changed' % off, 'frame')
        for off in set(strs0) | set(o.strs):
            if excl(off, 32): continue
            b = o.strs.get(off)
            if b is None:
                e.oblige(st, False, label + ': string at offset %d destroyed' % off, 'frame'); continue
            cur = e.obj(st, b).content
            old = st.ghost.get(('snapbuf', p.obj, off))
            if old is None:
                r = [z for z in regs0 if z[0] <= off and off + 32 <= z[1] and z[2] == 'lazy']
                if not r: e.oblige(st, False, label + ': string at offset %d appeared' % off, 'frame'); continue
                base, delta = r[-1][3]
                old = z3.Const('S%s_%d' % (base, off + delta), BYTES)
            e.oblige(st, seq_eq(cur, old), label + ': string at offset %d changed' % off, 'frame')
    exact('vf_frame_check', i_frame)
    def valeq(e, st, x, y, w):
        if isinstance(x, (Ptr, MaybePtr, FuncPtr)) or isinstance(y, (Ptr, MaybePtr, FuncPtr)):
            try: return e.peq(st, x, y)
            except ToolLimit: return False
        if isinstance(x, Undef) or isinstance(y, Undef): return False
        if e.is_intrep(x) or e.is_intrep(y): return iv(e.to_int(x, 8 * w)) == iv(e.to_int(y, 8 * w))
        return e.to_bv(x, 8 * w) == e.to_bv(y, 8 * w)
    eng.valeq = valeq
    def i_vec(e, st, a, c):
        """vf_vector(&vec, stride, schema, name): the vector holds n >= 0 elements (symbolic)"""
        p = e.need(st, a[0], 'vector'); stride = a[1]; schema = lit(e, st, a[2]); n = lit(e, st, a[3]); maxn = a[4]
        nm = '%s_%d' % (n, len(st.inputs))
        o = e.new_obj(st, 'elems', None, n); o.stride = stride; o.fields = {}
        o.n = z3.Int('n_' + nm); st.pc += [o.n >= 0, o.n <= iv(maxn)]
        for f in schema.split(','):
            k, off = f.split('@'); off = int(off)
            if k == 'S': o.fields[off] = ('S', z3.Const('f%d_%s' % (off, nm), z3.ArraySort(z3.IntSort(), BYTES)))
            else: o.fields[off] = (k, z3.Const('f%d_%s' % (off, nm), z3.ArraySort(z3.IntSort(), z3.BitVecSort(int(k[1:])))))
        addin(st, n, 'vec', o.n)
        vo = e.wobj(st, p.obj); off = p.off
        for k, v in ((0, Ptr(o.id, 0, 0)), (8, Ptr(o.id, 0, o.n))):
            vo.cells[off + k] = (8, v)
        cap = z3.Int('cap_' + nm); st.pc += [cap >= o.n]
        vo.cells[off + 16] = (8, Ptr(o.id, 0, cap))
    exact('vf_vector', i_vec)
