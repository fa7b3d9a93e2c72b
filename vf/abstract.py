"""Sound abstraction of byte sequences for the solvers: sequences become an uninterpreted sort, the sequence operations become
uninterpreted functions constrained by ground instances of theorems of the sequence theory.  Unsatisfiability carries over to
the original formula; satisfiability does not (the original formula is then given to the full theory)."""
import z3
BV8 = z3.BitVecSort(8); BYTES = z3.SeqSort(BV8)
U = z3.DeclareSort('Bytes')
I = z3.IntSort(); B = z3.BoolSort()
_len = z3.Function('a.len', U, I)
_cat = z3.Function('a.cat', U, U, U)
_suf = z3.Function('a.suf', U, U, U)
_pre = z3.Function('a.pre', U, U, U)
_ext = z3.Function('a.ext', U, I, I, U)
_nth = z3.Function('a.nth', U, I, BV8)
_unit = z3.Function('a.unit', BV8, U)
_idx = z3.Function('a.idx', U, U, I, I)
_has = z3.Function('a.has', U, U, B)
_pfx = z3.Function('a.pfx', U, U, B)
_sfx = z3.Function('a.sfx', U, U, B)

class Unsupported(Exception): pass
class Abs:
    def __init__(self):
        self.cache = {}; self.keep = []; self.lem = {}; self.consts = {}; self.decls = {}; self.bound = set(); self.n = 0
        self.dep = {}; self.lemc = {}
    def sort(self, s):
        if s == BYTES: return U
        if s.kind() == z3.Z3_ARRAY_SORT: return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        if s.kind() == z3.Z3_SEQ_SORT or s.kind() == z3.Z3_RE_SORT: raise Unsupported('sort')
        return s
    def const(self, b):
        if b not in self.consts:
            c = z3.Const('a.lit.' + (b.hex() or 'empty'), U); self.consts[b] = c
            l = [_len(c) == len(b)]
            for i in range(min(len(b), 24)): l.append(_nth(c, i) == b[i])
            for d, k in self.consts.items():
                if d != b: l.append(k != c)
            self.lem[c.get_id()] = (c, l)
        return self.consts[b]
    def lemma(self, t, *ls):
        if t.get_id() not in self.lem: self.lem[t.get_id()] = (t, list(ls))
    def note(self, t):
        """facts of every sequence term"""
        if t.get_id() in self.lem: return t
        self.lemma(t, _len(t) >= 0, (_len(t) == 0) == (t == self.const(b'')))
        return t
    def has_bound(self, t):
        if not self.bound: return False
        i = t.get_id()
        if i in self.dep: return self.dep[i][1]
        if z3.is_const(t): r = t.get_id() in self.bound
        else: r = any(self.has_bound(c) for c in t.children())
        self.dep[i] = (t, r); return r
    def flat(self, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            r = []
            for c in t.children(): r += self.flat(c)
            return r
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EMPTY: return []
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT and z3.is_bv_value(t.arg(0)): return [bytes([t.arg(0).as_long()])]
        if z3.is_string_value(t): raise Unsupported('string')
        return [t]
    def cat(self, ps):
        out = []
        for p in ps:
            if isinstance(p, bytes) and out and isinstance(out[-1], bytes): out[-1] += p
            else: out.append(p)
        if not out: return self.const(b'')
        r = None
        for p in reversed(out):
            x = self.const(p) if isinstance(p, bytes) else self.tr(p)
            if r is None: r = x; continue
            t = _cat(x, r)
            if not self.has_bound(t) and t.get_id() not in self.lem:
                e = self.const(b'')
                self.lem[t.get_id()] = (t, [_len(t) == _len(x) + _len(r), _suf(x, t) == r, _pre(r, t) == x, _len(t) >= 0, (_len(t) == 0) == (t == e), z3.Implies(_len(x) == 0, t == r), z3.Implies(_len(r) == 0, t == x), z3.Implies(_len(x) > 0, _nth(t, 0) == _nth(x, 0))] + [_nth(t, i) == _nth(x, i) for i in range(len(p) if isinstance(p, bytes) and len(p) < 24 else 0)])
            r = t
        return r
    def tr(self, t):
        k = t.get_id()
        if k in self.cache: return self.cache[k]
        r = self.tr0(t)
        self.keep.append(t); self.cache[k] = r
        return r
    def tr0(self, t):
        if z3.is_quantifier(t):
            if t.is_lambda(): raise Unsupported('lambda')
            vs = [z3.Const('q!%d!%s' % (self.n + i, t.var_name(i)), t.var_sort(i)) for i in range(t.num_vars())]
            self.n += t.num_vars()
            sub = list(reversed(vs))
            body = z3.substitute_vars(t.body(), *sub)
            pats = []
            tv = []
            for v in vs:
                w = z3.Const(str(v), self.sort(v.sort())); tv.append(w); self.bound.add(w.get_id()); self.keep.append(w)
            self.dep.clear()
            b = self.tr(body)
            for i in range(t.num_patterns()):
                p = t.pattern(i)
                ps = [self.tr(z3.substitute_vars(c, *sub)) for c in p.children()]
                if all(self.has_bound(x) for x in ps): pats.append(z3.MultiPattern(*ps))
            f = z3.ForAll if t.is_forall() else z3.Exists
            return f(tv, b, patterns=pats)
        if z3.is_var(t): raise Unsupported('var')
        d = t.decl(); kd = d.kind(); s = t.sort()
        if s == BYTES:
            if kd in (z3.Z3_OP_SEQ_CONCAT, z3.Z3_OP_SEQ_EMPTY): return self.cat(self.flat(t))
            if kd == z3.Z3_OP_SEQ_UNIT:
                f = self.flat(t)[0]
                if isinstance(f, bytes): return self.const(f)
                x = self.tr(t.arg(0)); r = _unit(x)
                if not self.has_bound(r): self.lemma(r, _len(r) == 1, _nth(r, 0) == x)
                return r
            if kd == z3.Z3_OP_SEQ_EXTRACT:
                a, i, n = [self.tr(c) for c in t.children()]
                r = _ext(a, i, n)
                if not self.has_bound(r):
                    e = self.const(b'')
                    self.lemma(r, _len(r) >= 0, (_len(r) == 0) == (r == e), z3.Implies(z3.And(i >= 0, n >= 0, i + n <= _len(a)), _len(r) == n), z3.Implies(z3.And(i == 0, n >= _len(a)), r == a),
                               z3.Implies(z3.And(i >= 0, i < _len(a), n > 0), z3.And(_nth(r, 0) == _nth(a, i), _len(r) > 0)), z3.Implies(z3.And(i >= 0, i < _len(a), i + n > _len(a)), _len(r) == _len(a) - i), _len(r) <= _len(a), z3.Implies(z3.Or(n <= 0, i < 0, i >= _len(a)), r == e))
                return r
        if kd == z3.Z3_OP_SEQ_LENGTH and t.arg(0).sort() == BYTES:
            a = self.tr(t.arg(0))
            if not self.has_bound(a): self.note(a)
            return _len(a)
        if kd in (z3.Z3_OP_SEQ_NTH,) or d.name() in ('seq.nth_i', 'seq.nth_u', 'seq.nth'):
            a, i = self.tr(t.arg(0)), self.tr(t.arg(1)); return _nth(a, i)
        if kd == z3.Z3_OP_SEQ_AT:
            a, i = self.tr(t.arg(0)), self.tr(t.arg(1)); r = _ext(a, i, z3.IntVal(1))
            if not self.has_bound(r): self.lemma(r, _len(r) <= 1, z3.Implies(z3.And(i >= 0, i < _len(a)), z3.And(_len(r) == 1, _nth(r, 0) == _nth(a, i))))
            return r
        if kd == z3.Z3_OP_SEQ_CONTAINS: return _has(self.tr(t.arg(0)), self.tr(t.arg(1)))
        if kd == z3.Z3_OP_SEQ_PREFIX: return _pfx(self.tr(t.arg(0)), self.tr(t.arg(1)))
        if kd == z3.Z3_OP_SEQ_SUFFIX: return _sfx(self.tr(t.arg(0)), self.tr(t.arg(1)))
        if kd == z3.Z3_OP_SEQ_INDEX:
            c = [self.tr(x) for x in t.children()]; r = _idx(c[0], c[1], c[2] if len(c) > 2 else z3.IntVal(0))
            if not self.has_bound(r): self.lemma(r, r >= -1, z3.Implies(r >= 0, r + _len(c[1]) <= _len(c[0])), z3.Implies(r >= 0, r >= (c[2] if len(c) > 2 else 0)))
            return r
        ch = [self.tr(c) for c in t.children()]
        if kd == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                if s == BYTES or z3.is_array(t): 
                    r = z3.Const(d.name(), self.sort(s))
                    return self.note(r) if s == BYTES and r.get_id() not in self.bound else r
                return t
            key = d.get_id()
            if key not in self.decls: self.keep.append(d); self.decls[key] = z3.Function(d.name(), *([self.sort(d.domain(i)) for i in range(d.arity())] + [self.sort(d.range())]))
            r = self.decls[key](*ch)
        elif kd == z3.Z3_OP_SELECT: r = z3.Select(*ch)
        elif kd == z3.Z3_OP_STORE:
            r = z3.Store(*ch)
            if not self.has_bound(r): self.lemma(r, z3.Select(r, ch[1]) == ch[2])
        elif kd == z3.Z3_OP_CONST_ARRAY: r = z3.K(self.sort(s.domain()), ch[0])
        elif kd == z3.Z3_OP_EQ: r = ch[0] == ch[1]
        elif kd == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
        elif kd == z3.Z3_OP_ITE: r = z3.If(*ch)
        elif not ch: r = t
        else:
            for c in t.children():
                if c.sort() == BYTES: raise Unsupported(d.name())
            r = d(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
        if s == BYTES and not self.has_bound(r): self.note(r)
        return r
    def lemmas_of(self, x):
        """the lemmas of the terms that occur in x (transitively)"""
        i = x.get_id()
        if i in self.lemc: return self.lemc[i][1]
        seen = set(); out = {}; stack = [x]
        while stack:
            y = stack.pop(); k = y.get_id()
            if k in seen: continue
            seen.add(k)
            if z3.is_quantifier(y): stack.append(y.body()); continue
            if z3.is_app(y): stack += y.children()
            if k in self.lem and self.lem[k][1]:
                out[k] = self.lem[k][1]; stack += self.lem[k][1]
        self.lemc[i] = (x, out)
        return out

def check(ab, fs, timeout):
    """'unsat' carries over to fs; anything else means nothing"""
    try: ts = [ab.tr(f) for f in fs]
    except Unsupported: return 'unknown'
    s = z3.Solver(); s.set('timeout', timeout)
    done = set()
    for t in ts:
        s.add(t)
        for k, ls in ab.lemmas_of(t).items():
            if k in done: continue
            done.add(k); s.add(ls)
    return str(s.check())
