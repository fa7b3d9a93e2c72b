"""Modular deductive verifier: symbolic execution / VC generation over LLVM IR.

Each harness (a contract on real functions, see /verif/spec/*.cpp) is executed symbolically over
the IR that clang-18 emits for /repo's current sources.  Every path produces obligations
(vf_assert, memory safety, loop-invariant initiation and preservation, callee preconditions) that
are discharged by z3 / cvc5.  Loops listed by a contract are cut by inductive invariants; all
other loops must terminate concretely within LIMIT iterations, otherwise ToolLimit is raised.
"""
import time, sys, os, re, subprocess, tempfile
import z3
from . import ir, abstract
from .ir import IRError

sys.setrecursionlimit(100000)

class ToolLimit(Exception):
    """the tool cannot decide (unsupported construct, timeout, too many paths): never a violation"""
class Infeasible(Exception):
    pass
class Throw(Exception):
    """a modelled callee throws"""
    def __init__(self, ti, obj=None):
        self.ti = ti; self.obj = obj
class SplitIndex(Exception):
    """re-execute the instruction with a symbolic index fixed to each feasible value"""
    def __init__(self, i, values): self.i = i; self.values = values
class StopPath(Exception):
    """path ends here (exit, unreachable code after noreturn, ...)"""

BV8 = z3.BitVecSort(8)
BYTES = z3.SeqSort(BV8)
_seqc = {}
def seqval(b):
    if b not in _seqc:
        if len(b) == 0: r = z3.Empty(BYTES)
        elif len(b) == 1: r = z3.Unit(z3.BitVecVal(b[0], 8))
        else: r = z3.Concat(*[z3.Unit(z3.BitVecVal(x, 8)) for x in b])
        _seqc[b] = r
    return _seqc[b]
def S(x):
    return seqval(bytes(x)) if isinstance(x, (bytes, bytearray)) else x
def slen(x):
    return len(x) if isinstance(x, bytes) else z3.Length(x)
def isconc(x):
    return isinstance(x, (int, bool))
def sconcat(*xs):
    out = []
    for x in xs:
        if isinstance(x, bytes):
            if not x: continue
            if out and isinstance(out[-1], bytes): out[-1] += x; continue
        out.append(x)
    if not out: return b''
    if len(out) == 1: return out[0]
    parts = []
    for x in out:
        e = S(x)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT: parts += e.children()
        else: parts.append(e)
    return z3.Concat(*parts)
def smin(a, b):
    if isconc(a) and isconc(b): return min(a, b)
    return z3.If(a <= b, a, b)
def iv(x):
    return z3.IntVal(x) if isconc(x) else x
def sparts(x):
    """flatten a sequence expression into its concatenated parts (bytes literals or expressions)"""
    if isinstance(x, bytes): return [x] if x else []
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        r = []
        for c in x.children(): r += sparts(c)
    elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY: return []
    elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_UNIT and z3.is_bv_value(x.arg(0)): return [bytes([x.arg(0).as_long()])]
    else: return [x]
    out = []
    for y in r:
        if isinstance(y, bytes) and out and isinstance(out[-1], bytes): out[-1] += y
        else: out.append(y)
    return out
def same_int(a, b):
    if isconc(a) and isconc(b): return a == b
    d = z3.simplify(iv(a) - iv(b))
    return z3.is_int_value(d) and d.as_long() == 0
def const_diff(a, b):
    """a - b when it is a constant, else None"""
    if isconc(a) and isconc(b): return a - b
    d = z3.simplify(iv(a) - iv(b))
    return d.as_long() if z3.is_int_value(d) else None
def scut(ps, i):
    """split parts at position i: (left, right), or None when i is not (syntactically) at a known place"""
    pos = 0
    for k, y in enumerate(ps + [b'']):
        d = const_diff(i, pos)
        if d is not None:
            if d == 0: return ps[:k], ps[k:]
            if isinstance(y, bytes) and 0 < d <= len(y): return ps[:k] + [y[:d]], ([y[d:]] if d < len(y) else []) + ps[k+1:]
            if d < 0: return None
        pos = pos + slen(y) if not (isconc(pos) and isinstance(y, bytes)) else pos + len(y)
    return None
def sextract(s, i, n):
    if isinstance(s, bytes) and isconc(i) and isconc(n): return s[i:i+n]
    if not isinstance(s, bytes):
        ps = sparts(s)
        if 1 < len(ps) <= 60:
            a = scut(ps, i)
            if a is not None:
                b = scut(a[1], n)
                if b is not None: return sconcat(*b[0])
                if a[0]: s = sconcat(*a[1]); i = 0
    if isconc(i) and i == 0:
        if not isinstance(s, bytes) and z3.is_expr(n) and n.eq(z3.Length(s)): return s
    return z3.SubSeq(S(s), iv(i), iv(n))
def seq_eq(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes): return a == b
    a = S(a); b = S(b)
    if a.eq(b): return True
    return a == b

class BI:
    """zext of a symbolic i1"""
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def __repr__(self): return 'BI(%s)' % self.b

class Ptr:
    __slots__ = ('obj', 'off', 'idx')
    def __init__(self, obj, off=0, idx=0):
        self.obj = obj; self.off = off; self.idx = idx
    def __repr__(self): return 'Ptr(%s+%s[%s])' % (self.obj, self.off, self.idx)
NULL = Ptr(0, 0, 0)
class MaybePtr:
    """pointer that is null exactly when isnull holds, else ptr"""
    __slots__ = ('isnull', 'ptr')
    def __init__(self, isnull, ptr): self.isnull = isnull; self.ptr = ptr
    def __repr__(self): return 'MaybePtr(%s,%s)' % (self.isnull, self.ptr)
class PtrInt:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
class FuncPtr:
    __slots__ = ('name', 'mod')
    def __init__(self, name, mod): self.name = name; self.mod = mod
    def __repr__(self): return 'FuncPtr(%s)' % self.name
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

def AND(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if z3.is_false(x): return False
        if z3.is_true(x): continue
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def OR(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def NOT(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def IMPLIES(a, b): return OR(NOT(a), b)
def ITE(c, a, b):
    if c is True: return a
    if c is False: return b
    return z3.If(c, a, b)
def ebool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

class Obj:
    __slots__ = ('id','size','kind','cells','strs','regions','name','alive','const','content','nul','nonul','n','stride','fields','owner','nested','meta','arr')
    def __init__(self, id, kind, size=None, name=''):
        self.id = id; self.kind = kind; self.size = size; self.name = name
        self.cells = {}; self.strs = {}; self.regions = []; self.alive = True; self.const = False
        self.content = None; self.nul = False; self.nonul = False; self.n = None; self.stride = 1; self.fields = None
        self.owner = None; self.nested = {}; self.meta = {}; self.arr = None
    def copy(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__: setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells); o.strs = dict(self.strs); o.regions = list(self.regions); o.nested = dict(self.nested); o.meta = dict(self.meta)
        if self.fields is not None: o.fields = dict(self.fields)
        return o

class Frame:
    __slots__ = ('f','mod','regs','block','prev','ip','retins','allocas','depth','loopn','onret')
    def copy(self):
        g = Frame.__new__(Frame)
        for s in Frame.__slots__: setattr(g, s, getattr(self, s))
        g.regs = dict(self.regs); g.allocas = list(self.allocas); g.loopn = dict(self.loopn)
        return g

_sid = [0]
class State:
    def __init__(self):
        _sid[0] += 1
        self.sid = _sid[0]
        self.frames = []; self.mem = {}; self.pc = []; self.ghost = {}; self.cuts = []; self.inputs = []; self.exc = None; self.caught = []
        self.steps = 0; self.facts = None; self.solver = None; self.trace = []; self.pcset = None
    def fork(self):
        s = State.__new__(State)
        _sid[0] += 1
        s.sid = _sid[0]
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.ghost = dict(self.ghost); s.cuts = list(self.cuts); s.inputs = list(self.inputs)
        s.exc = self.exc; s.caught = list(self.caught); s.steps = self.steps; s.trace = list(self.trace); s.facts = None; s.solver = None; s.pcset = None
        _sid[0] += 1
        self.sid = _sid[0]
        return s

class Obligation:
    __slots__ = ('label','kind','status','model','secs','by','where','trace')
    def __init__(self, label, kind, status, secs, by, where, model=None, trace=None):
        self.label = label; self.kind = kind; self.status = status; self.secs = secs; self.by = by; self.where = where; self.model = model; self.trace = trace

class Cut:
    __slots__ = ('depth','fname','header','body','back','exit','dry','ended')
    def __init__(self, depth, fname, header, body, dry):
        self.depth = depth; self.fname = fname; self.header = header; self.body = body; self.dry = dry
        self.back = []; self.exit = []; self.ended = []

class Engine:
    def __init__(self, mods, models=None, contracts=None, loopinv=None, timeout_ms=8000, budget_s=300):
        self.noop_cache = {}
        self.mods = mods
        self.models = models or []      # list of (regex|exact, fn)
        self.exact = {}
        self.regex = []
        self.base = {}                  # pristine objects
        self.nextobj = [1]
        self.obligs = []
        self.dry = 0
        self.timeout = timeout_ms
        self.t0 = time.time(); self.budget = budget_s
        self.solver_time = 0.0; self.nq = 0
        self.globobj = {}; self.globname = {}
        self.loopinv = loopinv or {}    # demangled name regex -> handler
        self.fresh_n = 0
        self.paths = 0; self.max_paths = 6000
        self.unroll = 40
        self.inlined = set(); self.modelled = set(); self.contracted = set()
        self.axioms = []                # global axioms (spec functions)
        self.pending = []
        self.modelcache = {}
        self.max_depth = 200
        self.lemma_hooks = []
        self.cutloops = set()
        self.reach = []
        self.qcache = {}; self.seqc = {}; self.qc = {}; self.abs = abstract.Abs(); self.seq_timeout = 400
        self.cex_limit = 3
        self.harness_done = 0

    # ---------------------------------------------------------------- models
    def add_model(self, pat, fn, exact=False, kind='trusted'):
        if exact: self.exact[pat] = (fn, kind)
        else: self.regex.append((re.compile(pat), fn, kind))
    def find_model(self, d):
        if d in self.modelcache: return self.modelcache[d]
        r = self.exact.get(d)
        if r is None:
            for rx, fn, kind in self.regex:
                if rx.search(d): r = (fn, kind); break
        self.modelcache[d] = r
        return r

    # ---------------------------------------------------------------- objects
    def newid(self):
        self.nextobj[0] += 1
        return self.nextobj[0]
    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (name, self.fresh_n), sort)
    def fresh_int(self, name, lo=None, hi=None, st=None):
        v = self.fresh(name, z3.IntSort())
        if st is not None:
            if lo is not None: st.pc.append(v >= lo)
            if hi is not None: st.pc.append(v <= hi)
        return v
    def new_obj(self, st, kind, size=None, name='', base=False):
        o = Obj(self.newid(), kind, size, name)
        if base: self.base[o.id] = o
        else:
            o.owner = st.sid; st.mem[o.id] = o
        return o
    def obj(self, st, id):
        o = st.mem.get(id) if st is not None else None
        if o is None:
            o = self.base.get(id)
            if o is None: raise ToolLimit('no object %s' % id)
        return o
    def wobj(self, st, id):
        o = st.mem.get(id)
        if o is None:
            b = self.base.get(id)
            if b is None: raise ToolLimit('no object %s' % id)
            o = b.copy(); o.owner = st.sid; st.mem[id] = o
        elif o.owner != st.sid:
            o = o.copy(); o.owner = st.sid; st.mem[id] = o
        return o
    def bytes_obj(self, st, content, name='', nul=True, nonul=False, const=False):
        o = self.new_obj(st, 'bytes', None, name)
        o.content = content; o.nul = nul; o.nonul = nonul; o.const = const
        return o

    # ---------------------------------------------------------------- solver
    def check_budget(self):
        if time.time() - self.t0 > self.budget: raise ToolLimit('time budget exhausted')
    def _solver(self, st, extra, timeout):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout)
        for a in self.axioms: s.add(a)
        for c in st.pc: s.add(c)
        for e in extra: s.add(e)
        return s
    def sat(self, st, cond, timeout=1500, cheap=False):
        """'sat' / 'unsat' / 'unknown' for pc /\\ cond"""
        if cond is True: cond = z3.BoolVal(True)
        if cond is False: return 'unsat'
        c = z3.simplify(cond)
        if z3.is_false(c): return 'unsat'
        self.check_budget()
        t = time.time(); self.nq += 1
        fs = list(self.axioms) + list(st.pc) + [c]
        if self.has_seq(fs):
            if not self.has_seq1(c):
                s = z3.Solver(); s.set('timeout', 500)
                s.add([f for f in fs if not self.has_seq1(f)])
                if s.check() == z3.unsat: self.solver_time += time.time() - t; return 'unsat'
            r0 = abstract.check(self.abs, fs, min(timeout, 1000))
            if r0 == 'unsat' or (cheap and r0 == 'sat'): self.solver_time += time.time() - t; return 'unsat' if r0 == 'unsat' else 'unknown'
            if r0 == 'sat':
                q = self.quant(fs)
                gs = [f for f in fs if not self.quant([f])] if q else fs        # fewer facts: unsat carries over
                r1 = self.cvc5(gs, min(timeout, self.seq_timeout)); self.solver_time += time.time() - t
                if r1 == 'unsat' or q: return r1 if r1 == 'unsat' else 'unknown'
                if r1 == 'sat': return 'sat'
                t = time.time(); timeout = min(timeout, self.seq_timeout)
        s = self._solver(st, [c], timeout)
        r = str(s.check())
        self.solver_time += time.time() - t
        return r
    def known(self, st, c):
        """literal c is (True) / contradicts (False) a conjunct of the path condition; None: no quick answer"""
        k = st.pcset
        if k is None or k[0] > len(st.pc): k = st.pcset = [0, set()]
        while k[0] < len(st.pc):
            k[1].add(st.pc[k[0]].get_id()); k[0] += 1
        if c.get_id() in k[1]: return True
        n = c.children()[0] if z3.is_not(c) else z3.Not(c)
        if n.get_id() in k[1]: return False
        return None
    def feasible(self, st, cond):
        if isinstance(cond, bool): return cond
        q = self.known(st, cond)
        if q is not None: return q
        return self.sat(st, cond, cheap=self.cheap_branch) != 'unsat'
    cheap_branch = False        # branch feasibility by the abstraction alone (explores more paths, never fewer)
    def prove_quick(self, st, cond, timeout=1500, cheap=False):
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.sat(st, z3.Not(c), timeout, cheap or self.cheap_branch) == 'unsat'
    def prove(self, st, cond, timeout=None):
        """returns (status, model, by): status in proved / refuted / unknown"""
        if isinstance(cond, bool): 
            if cond: return 'proved', None, 'simplify'
            cond = z3.BoolVal(False)
        c = z3.simplify(cond)
        if z3.is_true(c) or self.known(st, c): return 'proved', None, 'simplify'
        self.check_budget()
        t = time.time(); self.nq += 1
        fs = list(self.axioms) + list(st.pc) + [z3.Not(c)]
        if self.has_seq(fs):
            if abstract.check(self.abs, fs, 3000) == 'unsat':
                self.solver_time += time.time() - t
                return 'proved', None, 'z3'
            if self.quant(fs):
                gs = [f for f in fs if not self.quant([f])]
                if self.cvc5(gs, 1000) == 'unsat':
                    self.solver_time += time.time() - t
                    return 'proved', None, 'cvc5'
            if self.cvc5(fs, min(4000, timeout or self.timeout)) == 'unsat':
                self.solver_time += time.time() - t
                return 'proved', None, 'cvc5'
        s = self._solver(st, [z3.Not(c)], timeout or self.timeout)
        r = s.check()
        self.solver_time += time.time() - t
        if r == z3.unsat: return 'proved', None, 'z3'
        if r == z3.sat: 
            m = s.model()
            if self.axioms or self.quantified(st): 
                # models under quantified axioms may be partial; still usable as a candidate for replay
                return 'refuted', m, 'z3'
            return 'refuted', m, 'z3'
        # second back end
        r2 = self.cvc5(fs, (timeout or self.timeout))
        if r2 == 'unsat': return 'proved', None, 'cvc5'
        if r2 == 'sat': return 'refuted', None, 'cvc5'
        return 'unknown', None, 'z3+cvc5'
    def quantified(self, st): return False
    def has_seq(self, fs):
        return any(self.has_seq1(f) for f in fs)
    def quant(self, fs): return any(self.quant1(f) for f in fs)
    def quant1(self, t):
        i = t.get_id(); c = self.qc.get(i)
        if c is None: c = self.qc[i] = (t, z3.is_quantifier(t) or any(self.quant1(x) for x in t.children()))
        return c[1]
    def has_seq1(self, t):
        i = t.get_id(); c = self.seqc.get(i)
        if c is None:
            if z3.is_quantifier(t): r = True
            else: r = t.sort() == BYTES or any(self.has_seq1(x) for x in t.children())
            c = self.seqc[i] = (t, r)
        return c[1]
    def cvc5(self, fs, timeout):
        try:
            s = z3.Solver()
            for f in fs: s.add(f)
            txt = s.to_smt2()
            if 'seq.map' in txt or 'lambda' in txt: return 'unknown'
            txt = txt.replace('bv2int', 'bv2nat').replace('int2bv', 'int2bv')
            txt = '(set-logic ALL)\n' + txt
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt); fn = f.name
            try:
                p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--strings-exp', fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout / 1000 + 5)
                out = p.stdout.strip().split('\n')[0] if p.stdout else ''
            finally:
                os.unlink(fn)
            return out if out in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'

    def where(self, st):
        if not st.frames: return ''
        fr = st.frames[-1]
        return self.dem(fr.f) + ' ' + str(fr.block)
    def dem(self, f):
        return f.mod.demangled.get(f.name, f.name)

    def oblige(self, st, cond, label, kind='assert'):
        """record an obligation pc => cond, then assume cond"""
        if self.dry:
            if cond is False: raise Infeasible()
            if cond is not True: self.assume(st, cond)
            return
        t = time.time()
        status, model, by = self.prove(st, cond)
        tr = None
        ob = Obligation(label, kind, status, time.time() - t, by, self.where(st))
        if status == 'refuted':
            ob.model = self.model_inputs(st, model) if model is not None else None
            ob.trace = list(st.trace[-12:])
        self.obligs.append(ob)
        if status != 'proved':
            if cond is False: raise Infeasible()
            if status == 'refuted' and self.sat(st, cond) == 'unsat': raise Infeasible()
            st.pc.append(ebool(cond))
    def model_inputs(self, st, model):
        out = []
        for name, kind, t in st.inputs:
            try:
                out.append((name, kind, self.eval_input(model, kind, t)))
            except Exception as e:
                out.append((name, kind, None))
        return out
    def eval_input(self, m, kind, t):
        if kind == 'cstr?':
            isnull, seq = t
            if isnull is not False and z3.is_true(m.eval(ebool(isnull), model_completion=True)): return None
            return self.eval_seq(m, seq)
        if kind == 'str': return self.eval_seq(m, t)
        v = m.eval(t, model_completion=True) if z3.is_expr(t) else t
        if isinstance(v, (int, bool)): return int(v)
        if z3.is_bv_value(v): return v.as_long()
        if z3.is_int_value(v): return v.as_long()
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        return None
    def eval_seq(self, m, t):
        if isinstance(t, bytes): return list(t)
        n = m.eval(z3.Length(t), model_completion=True).as_long()
        n = min(n, 4096)
        return [m.eval(t[i], model_completion=True).as_long() & 255 for i in range(n)]
    def assume(self, st, cond):
        if cond is True: return
        if cond is False: raise Infeasible()
        st.pc.append(cond)

    # ---------------------------------------------------------------- integer values
    def to_bv(self, v, w):
        if isinstance(v, bool): return z3.BitVecVal(int(v), w)
        if isinstance(v, int): return z3.BitVecVal(v, w)
        if isinstance(v, BI): return z3.If(v.b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, Undef): return self.fresh('undef', z3.BitVecSort(w))
        if isinstance(v, (PtrInt, Ptr, MaybePtr, FuncPtr)): raise ToolLimit('pointer as bitvector')
        if z3.is_bv(v):
            if v.size() != w: raise ToolLimit('bv width %d vs %d' % (v.size(), w))
            return v
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_int(v): return z3.Int2BV(v, w)
        raise ToolLimit('to_bv %r' % (v,))
    def to_int(self, v, w):
        """unsigned value as python int or Int term"""
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, BI): return z3.If(v.b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Undef): raise ToolLimit('undef int')
        if isinstance(v, (PtrInt, Ptr, MaybePtr, FuncPtr)): raise ToolLimit('pointer as int')
        if z3.is_int(v): return v
        if z3.is_bv(v):
            s = z3.simplify(v)
            if z3.is_bv_value(s): return s.as_long()
            return z3.BV2Int(v, False)
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        raise ToolLimit('to_int %r' % (v,))
    def to_sint(self, v, w, st=None):
        if isinstance(v, int): return v - (1 << w) if v >> (w - 1) else v
        if z3.is_expr(v) and z3.is_bv(v):
            s = z3.simplify(v)
            if z3.is_bv_value(s): return s.as_signed_long()
            return z3.BV2Int(v, True)
        i = self.to_int(v, w)
        if isconc(i): return i - (1 << w) if i >> (w - 1) else i
        half = 1 << (w - 1)
        if st is not None and self.prove_quick(st, i < half, 1500, True): return i
        return z3.If(i >= half, i - (1 << w), i)
    def norm(self, st, i, w):
        """wrap a mathematical integer into [0,2^w)"""
        if isconc(i): return i & ((1 << w) - 1)
        i = z3.simplify(i)
        if z3.is_int_value(i): return i.as_long() & ((1 << w) - 1)
        if st is not None:
            if self.prove_quick(st, z3.And(i >= 0, i < (1 << w)), 1500, True): return i
            if self.prove_quick(st, z3.And(i >= -(1 << w), i < 0), 1500, True): return i + (1 << w)
        return i % (1 << w)
    def to_bool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if isinstance(v, BI): return v.b
        if isinstance(v, Undef): return self.fresh('undefb', z3.BoolSort())
        if z3.is_bool(v): 
            if z3.is_true(v): return True
            if z3.is_false(v): return False
            return v
        if z3.is_bv(v):
            return z3.Extract(0, 0, v) == 1
        if z3.is_int(v): return (v % 2) == 1
        raise ToolLimit('to_bool %r' % (v,))
    def is_intrep(self, v):
        return z3.is_expr(v) and z3.is_int(v)
    def isexp(self, v): return z3.is_expr(v)

    def simp(self, v):
        if z3.is_expr(v):
            v = z3.simplify(v)
            if z3.is_bv_value(v) or z3.is_int_value(v): return v.as_long()
            if z3.is_true(v): return True
            if z3.is_false(v): return False
        return v

    def binop(self, st, op, a, b, w):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.fresh('undef', z3.BitVecSort(w))
        if w == 1:
            x = self.to_bool(a); y = self.to_bool(b)
            if op == 'and': return AND(x, y)
            if op == 'or': return OR(x, y)
            if op in ('xor', 'add', 'sub'):
                if isinstance(x, bool) and isinstance(y, bool): return x != y
                if isinstance(x, bool): x, y = y, x
                if isinstance(y, bool): return z3.Not(x) if y else x
                return z3.Xor(x, y)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrint_bin(st, op, a, b, w)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            sa = a - (1 << w) if a >> (w-1) else a
            sb = b - (1 << w) if b >> (w-1) else b
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sa >> b) & M if b < w else (M if sa < 0 else 0)
            if b == 0: 
                self.oblige(st, False, 'division by zero', 'safety')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            if op == 'sdiv':
                q = abs(sa) // abs(sb); q = -q if (sa < 0) != (sb < 0) else q; return q & M
            if op == 'srem':
                r = abs(sa) % abs(sb); r = -r if sa < 0 else r; return r & M
        # identities
        if isinstance(b, int):
            if b == 0 and op in ('add','sub','or','xor','shl','lshr','ashr'): return a
            if b == 1 and op in ('mul','udiv','sdiv'): return a
            if b == 0 and op in ('and', 'mul'): return 0
        if isinstance(a, int) and a == 0 and op in ('add','or','xor'): return b
        intmode = self.is_intrep(a) or self.is_intrep(b)
        if intmode and op in ('add','sub','mul','udiv','urem','sdiv','srem'):
            if op in ('add','sub','mul'):
                x = self.to_int(a, w); y = self.to_int(b, w)
                # adding a "negative" constant
                if op == 'add' and isinstance(y, int) and y >= (1 << (w-1)): return self.norm(st, x - ((1 << w) - y), w)
                if op == 'add': r = x + y
                elif op == 'sub': r = x - y
                else:
                    if isinstance(y, int) and y >= (1 << (w-1)): y -= 1 << w
                    r = x * y
                return self.norm(st, r, w)
            if op in ('udiv','urem'):
                x = self.to_int(a, w); y = self.to_int(b, w)
                if not isinstance(y, int): raise ToolLimit('symbolic divisor')
                return (x / y) if op == 'udiv' else (x % y)
            x = self.to_sint(a, w, st); y = self.to_sint(b, w, st)
            if not isinstance(y, int): raise ToolLimit('symbolic divisor')
            if y > 0:
                if self.prove_quick(st, x >= 0):
                    r = x / y if op == 'sdiv' else x % y
                    return r
                q = z3.If(x >= 0, x / y, -((-x) / y))
                r = q if op == 'sdiv' else x - q * y
                return self.norm(st, r, w)
            raise ToolLimit('negative divisor')
        if intmode:
            if op == 'and' and isinstance(b, int) and (b & (b + 1)) == 0: return self.to_int(a, w) % (b + 1)
            if op == 'shl' and isinstance(b, int): return self.norm(st, self.to_int(a, w) * (1 << b), w)
            if op == 'lshr' and isinstance(b, int): return self.to_int(a, w) / (1 << b)
        x = self.to_bv(a, w); y = self.to_bv(b, w)
        if op in ('udiv','urem','sdiv','srem'):
            if not isinstance(b, int): self.oblige(st, y != 0, 'division by zero', 'safety')
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        return self.simp(r)

    def ptrint_bin(self, st, op, a, b, w):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            p, q = self.deref(st, a.p), self.deref(st, b.p)
            if p.obj != q.obj:
                if p.obj == 0 or q.obj == 0: raise ToolLimit('null pointer difference')
                self.oblige(st, False, 'pointer difference of unrelated objects', 'safety')
            return self.norm(st, self.iptr(st, p) - self.iptr(st, q), w) if not (isconc(p.idx) and isconc(q.idx)) else (self.iptr(st, p) - self.iptr(st, q)) & ((1 << w) - 1)
        if op == 'add' and isinstance(a, PtrInt) and not isinstance(b, PtrInt):
            return PtrInt(self.padd(st, a.p, self.to_sint(b, 64, st)))
        raise ToolLimit('pointer arithmetic %s' % op)
    def stride(self, st, p):
        return 1 if p.obj == 0 else self.obj(st, p.obj).stride
    def iptr(self, st, p):
        s = self.stride(st, p)
        if isconc(p.idx): return p.off + p.idx * s
        return p.off + p.idx * s if s != 1 else (p.off + p.idx if p.off else p.idx)
    def deref(self, st, v):
        """strip MaybePtr when used as address-like value without null check"""
        if isinstance(v, MaybePtr):
            return v.ptr
        if isinstance(v, PtrInt): return self.deref(st, v.p)
        if isinstance(v, Ptr): return v
        raise ToolLimit('not a pointer %r' % (v,))
    def padd(self, st, p, delta):
        if isinstance(p, MaybePtr):
            if isconc(delta) and delta == 0: return p
            p = self.need(st, p, 'pointer arithmetic on null')
        if isinstance(p, FuncPtr): raise ToolLimit('arith on function pointer')
        if isinstance(p, Undef): raise ToolLimit('arith on undef pointer')
        if isconc(delta) and delta == 0: return p
        if p.obj == 0:
            raise ToolLimit('arithmetic on null pointer')
        o = self.obj(st, p.obj)
        if o.kind == 'cells':
            if isconc(delta): return Ptr(p.obj, p.off + delta, p.idx)
            raise ToolLimit('symbolic offset into %s' % o.name)
        s = o.stride
        if isconc(delta) and delta % s == 0 and s > 1:
            k = delta // s
            return Ptr(p.obj, p.off, p.idx + k if not isconc(p.idx) else p.idx + k)
        if s == 1:
            d = p.idx + delta
            if z3.is_expr(d): d = self.simp_int(d)
            return Ptr(p.obj, 0, d if p.off == 0 else d + p.off)
        if isconc(delta):
            return Ptr(p.obj, p.off + delta, p.idx)
        # symbolic delta in a strided object: must be a multiple of stride
        raise ToolLimit('symbolic byte offset into strided object')
    def simp_int(self, d):
        d = z3.simplify(d)
        if z3.is_int_value(d): return d.as_long()
        return d
    def need(self, st, v, why):
        """pointer must be non-null: obligation"""
        if isinstance(v, MaybePtr):
            self.oblige(st, NOT(v.isnull), 'null dereference: ' + why, 'safety')
            return v.ptr
        if isinstance(v, PtrInt): return self.need(st, v.p, why)
        if isinstance(v, int) and v == 0: v = NULL
        if isinstance(v, Ptr):
            if v.obj == 0:
                self.oblige(st, False, 'null dereference: ' + why, 'safety')
                raise Infeasible()
            return v
        if isinstance(v, Undef): raise ToolLimit('undef pointer: ' + why)
        raise ToolLimit('deref of %r (%s)' % (v, why))
    def isnull(self, v):
        if isinstance(v, MaybePtr): return v.isnull
        if isinstance(v, Ptr): return v.obj == 0
        if isinstance(v, FuncPtr): return False
        if isinstance(v, PtrInt): return self.isnull(v.p)
        if isinstance(v, int): return v == 0
        raise ToolLimit('isnull %r' % (v,))

    # ---------------------------------------------------------------- memory
    def region_at(self, o, off, w):
        for (a, b, kind, par) in reversed(o.regions):
            if a <= off and off + w <= b: return (a, b, kind, par)
            if a < off + w and off < b: return (a, b, 'mixed', None)
        return None
    def load(self, st, p, ty, mod):
        ty = mod.resolve(ty) if ty[0] == 'named' else ty
        p = self.need(st, p, 'load')
        o = self.obj(st, p.obj)
        if not o.alive:
            self.oblige(st, False, 'use after free/destroy of %s' % o.name, 'safety'); raise Infeasible()
        w = mod.sizeof(ty)
        if ty[0] in ('st', 'arr'):
            if ty[0] == 'arr' : 
                return [self.load(st, self.padd(st, p, i * mod.sizeof(ty[2])), ty[2], mod) for i in range(ty[1])]
            out = []
            for i in range(len(ty[1])):
                off, t = mod.offset(ty, i)
                out.append(self.load(st, self.padd(st, p, off), t, mod))
            return out
        return self.load_scalar(st, p, ty, w)
    def load_scalar(self, st, p, ty, w):
        o = self.obj(st, p.obj)
        if o.kind == 'bytes':
            i = self.iptr(st, p)
            if w != 1:
                if isinstance(o.content, bytes) and isconc(i):
                    d = o.content + (b'\0' if o.nul else b'')
                    if i < 0 or i + w > len(d):
                        self.oblige(st, False, 'read out of bounds of %s' % o.name, 'safety'); raise Infeasible()
                    return int.from_bytes(d[i:i+w], 'little')
                r = 0
                bs = [self.load_byte_seq(st, o, i + k) for k in range(w)]
                if all(isinstance(x, int) for x in bs): return sum(x << (8*k) for k, x in enumerate(bs))
                return self.simp(z3.Concat(*[self.to_bv(x, 8) for x in reversed(bs)]))
            return self.load_byte_seq(st, o, i)
        if o.kind == 'abuf':
            i = self.iptr(st, p)
            if w != 1: raise ToolLimit('wide load from buffer')
            self.bounds(st, i, 1, o)
            return self.simp(z3.Select(o.arr, iv(i)))
        if o.kind == 'elems':
            f = o.fields.get(p.off)
            if f is None: raise ToolLimit('element field %s of %s' % (p.off, o.name))
            self.oblige(st, AND(p.idx >= 0, p.idx < o.n) if not (isconc(p.idx) and isconc(o.n)) else (0 <= p.idx < o.n), 'element index out of bounds of %s' % o.name, 'safety')
            kind, arr = f
            v = z3.Select(arr, iv(p.idx))
            if kind == 'p': 
                return self.ptr_of_id(st, v, o, p.off)
            return self.simp(v)
        if o.kind == 'unknown':
            # decide: used as plain memory
            self.become_cells(o.id)
            st.mem.pop(o.id, None)
            o = self.obj(st, p.obj)
        if not isconc(p.idx):
            raise ToolLimit('symbolic index into %s' % o.name)
        off = p.off + p.idx * o.stride
        nst = self.nested_at(o, off)
        if nst is not None:
            a, oid = nst
            return self.load_scalar(st, Ptr(oid, 0, off - a), ty, w)
        if o.size is not None and (off < 0 or off + w > o.size):
            self.oblige(st, False, 'read out of bounds of %s (offset %d, size %s)' % (o.name, off, o.size), 'safety'); raise Infeasible()
        c = o.cells.get(off)
        if c is not None and c[0] == w:
            v = c[1]
            if ty == ir.PTR:
                if isinstance(v, int) and v == 0: return NULL
                if isinstance(v, PtrInt): return v.p
                if isinstance(v, (Ptr, MaybePtr, FuncPtr, Undef)): return v
                if z3.is_expr(v): raise ToolLimit('integer loaded as pointer')
                return v
            if isinstance(v, (Ptr, MaybePtr, FuncPtr)) and ty[0] == 'i': return PtrInt(v)
            return v
        # overlapping?
        ov = [k for k in range(off - 15, off + w) if k in o.cells and k + o.cells[k][0] > off]
        if ov:
            bs = [self.load_byte(st, o, off + k) for k in range(w)]
            if all(isinstance(x, int) for x in bs):
                v = sum(x << (8 * k) for k, x in enumerate(bs))
                if ty == ir.PTR:
                    if v == 0: return NULL
                    raise ToolLimit('assembled pointer')
                return v
            if ty == ir.PTR: raise ToolLimit('assembled pointer')
            return self.simp(z3.Concat(*[self.to_bv(x, 8) for x in reversed(bs)]) if w > 1 else self.to_bv(bs[0], 8))
        v = self.default(st, o, off, w, ty)
        if v is not None and not isinstance(v, Undef):
            wo = self.wobj(st, o.id); wo.cells[off] = (w, v)
        return v
    def load_byte_seq(self, st, o, i):
        n = slen(o.content)
        if isconc(i) and isconc(n):
            if 0 <= i < n: return o.content[i]
            if i == n and o.nul: return 0
            self.oblige(st, False, 'read out of bounds of %s (index %d, size %d)' % (o.name, i, n), 'safety'); raise Infeasible()
        i_ = iv(i); n_ = iv(n)
        if o.nul:
            self.oblige(st, z3.And(i_ >= 0, i_ <= n_), 'read out of bounds of %s' % o.name, 'safety')
            if self.prove_quick(st, i_ < n_): v = S(o.content)[i_]
            elif self.prove_quick(st, i_ == n_): return 0
            else: v = z3.If(i_ < n_, S(o.content)[i_], z3.BitVecVal(0, 8))
        else:
            self.oblige(st, z3.And(i_ >= 0, i_ < n_), 'read out of bounds of %s' % o.name, 'safety')
            v = S(o.content)[i_]
        return v
    def bounds(self, st, i, w, o):
        size = o.size
        c = AND(i >= 0 if isconc(i) else i >= 0, (i + w <= size))
        self.oblige(st, c, 'buffer index out of bounds of %s' % o.name, 'safety')
    def nested_at(self, o, off):
        for a, (size, oid) in o.nested.items():
            if a <= off < a + size: return a, oid
        return None
    def load_byte(self, st, o, off):
        for k in range(off, off - 16, -1):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                w, v = c
                d = off - k
                if isinstance(v, bool): v = int(v)
                if isinstance(v, int): return (v >> (8 * d)) & 255
                if isinstance(v, BI): return v if d == 0 else 0
                if isinstance(v, (Ptr, MaybePtr, PtrInt, FuncPtr)): raise ToolLimit('byte of pointer')
                if isinstance(v, Undef): return UNDEF
                b = self.to_bv(v, w * 8)
                return self.simp(z3.Extract(8 * d + 7, 8 * d, b))
        v = self.default(st, o, off, 1, ('i', 8))
        if not isinstance(v, Undef):
            wo = self.wobj(st, o.id); wo.cells[off] = (1, v)
        return v
    def default(self, st, o, off, w, ty):
        r = self.region_at(o, off, w)
        if r is None: return UNDEF
        a, b, kind, par = r
        if kind == 'zero': return NULL if ty == ir.PTR else 0
        if kind == 'uninit': return UNDEF
        if kind == 'lazy':
            base, delta = par
            return self.lazy_val(base, off + delta, w, ty)
        if kind == 'const':
            data = par
            v = int.from_bytes(data[off - a: off - a + w], 'little')
            return v if ty != ir.PTR else (NULL if v == 0 else UNDEF)
        raise ToolLimit('mixed default region in %s' % o.name)
    def lazy_val(self, base, off, w, ty):
        nm = 'L%s_%d_%d' % (base, off, w)
        if ty == ir.PTR:
            key = ('lp', nm)
            if key not in self.globname:
                o = Obj(self.newid(), 'unknown', None, nm + '*')
                self.base[o.id] = o
                self.globname[key] = o.id
            return MaybePtr(z3.Bool(nm + '_null'), Ptr(self.globname[key]))
        if ty[0] == 'i':
            return z3.BitVec(nm, w * 8) if ty[1] != 1 else z3.Bool(nm)
        if ty == ('f', 64): return z3.BitVec(nm, 64)
        raise ToolLimit('lazy value of type %r' % (ty,))
    def become_cells(self, oid):
        b = self.base.get(oid)
        if b.kind == 'unknown':
            b.kind = 'cells'; b.regions = [(0, 1 << 40, 'lazy', (b.name, 0))]
    def become_bytes(self, oid):
        b = self.base.get(oid)
        if b.kind == 'unknown':
            b.kind = 'bytes'; b.content = z3.Const('cs_' + b.name, BYTES); b.nul = True; b.nonul = True
            self.axioms.append(z3.Not(z3.Contains(b.content, z3.Unit(z3.BitVecVal(0, 8)))))
    def store(self, st, p, v, ty, mod):
        ty = mod.resolve(ty) if ty[0] == 'named' else ty
        p = self.need(st, p, 'store')
        if ty[0] == 'st':
            for i in range(len(ty[1])):
                off, t = mod.offset(ty, i)
                self.store(st, self.padd(st, p, off), v[i] if isinstance(v, list) else v, t, mod)
            return
        if ty[0] == 'arr':
            for i in range(ty[1]):
                self.store(st, self.padd(st, p, i * mod.sizeof(ty[2])), v[i], ty[2], mod)
            return
        w = mod.sizeof(ty)
        self.store_scalar(st, p, v, ty, w)
    def store_scalar(self, st, p, v, ty, w):
        o = self.obj(st, p.obj)
        if not o.alive:
            self.oblige(st, False, 'write after free/destroy of %s' % o.name, 'safety'); raise Infeasible()
        if o.const:
            self.oblige(st, False, 'write to constant %s' % o.name, 'safety'); raise Infeasible()
        if o.kind == 'unknown':
            self.become_cells(o.id); st.mem.pop(o.id, None); o = self.obj(st, p.obj)
        o = self.wobj(st, p.obj)
        if o.kind == 'bytes':
            if w != 1: raise ToolLimit('wide store to string')
            i = self.iptr(st, p); n = slen(o.content)
            lim = AND(i >= 0, i < n) if isconc(i) and isconc(n) else z3.And(iv(i) >= 0, iv(i) < iv(n))
            if o.nul and isconc(v) and v == 0:
                lim = AND(i >= 0, i <= n) if isconc(i) and isconc(n) else z3.And(iv(i) >= 0, iv(i) <= iv(n))
            self.oblige(st, lim, 'write out of bounds of %s' % o.name, 'safety')
            if o.nul and isconc(v) and v == 0 and self.prove_quick(st, iv(i) == iv(n)): return
            if isinstance(o.content, bytes) and isconc(i) and isconc(v):
                o.content = o.content[:i] + bytes([v]) + o.content[i+1:]
            else:
                o.content = sconcat(sextract(o.content, 0, i), z3.Unit(self.to_bv(v, 8)), sextract(o.content, i + 1, n - i - 1))
            o.nonul = False
            return
        if o.kind == 'abuf':
            if w != 1: raise ToolLimit('wide store to buffer')
            i = self.iptr(st, p)
            self.bounds(st, i, 1, o)
            o.arr = z3.Store(o.arr, iv(i), self.to_bv(v, 8))
            return
        if o.kind == 'elems':
            f = o.fields.get(p.off)
            if f is None: raise ToolLimit('element field %s of %s' % (p.off, o.name))
            self.oblige(st, AND(p.idx >= 0, p.idx < o.n), 'element index out of bounds of %s' % o.name, 'safety')
            kind, arr = f
            if kind == 'S' or kind == 'p': raise ToolLimit('raw store to element')
            o.fields[p.off] = (kind, z3.Store(arr, iv(p.idx), self.to_bv(v, w * 8)))
            return
        if not isconc(p.idx): raise ToolLimit('symbolic index into %s' % o.name)
        off = p.off + p.idx * o.stride
        nst = self.nested_at(o, off)
        if nst is not None:
            a, oid = nst
            return self.store_scalar(st, Ptr(oid, 0, off - a), v, ty, w)
        if o.size is not None and (off < 0 or off + w > o.size):
            self.oblige(st, False, 'write out of bounds of %s (offset %d, size %s)' % (o.name, off, o.size), 'safety'); raise Infeasible()
        # remove overlapping
        for k in range(off - 15, off + w):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off and k != off:
                # split the partially overwritten cell into bytes
                if k < off or k + c[0] > off + w:
                    bs = [(k + d, self.load_byte(st, o, k + d)) for d in range(c[0])]
                    o = self.wobj(st, p.obj)
                    del o.cells[k]
                    for kk, bv in bs:
                        if not (off <= kk < off + w): o.cells[kk] = (1, bv)
                else:
                    del o.cells[k]
        c = o.cells.get(off)
        if c is not None and c[0] > w:
            bs = [(off + d, self.load_byte(st, o, off + d)) for d in range(w, c[0])]
            o = self.wobj(st, p.obj)
            for kk, bv in bs: o.cells[kk] = (1, bv)
        if isinstance(v, Undef):
            o.cells.pop(off, None)
            # forget: treat as uninit by explicit cell
            o.cells[off] = (w, v)
        else:
            o.cells[off] = (w, v)
    def clear_range(self, o, off, n):
        for k in [k for k in o.cells if off <= k < off + n]: 
            del o.cells[k]
        for k in [k for k in o.strs if off <= k < off + n]: del o.strs[k]
    def memset(self, st, p, v, n):
        if isconc(n) and n == 0: return
        p = self.need(st, p, 'memset')
        o = self.wobj(st, p.obj)
        if o.kind == 'cells' and isconc(n):
            off = p.off + p.idx
            if o.size is not None and off + n > o.size:
                self.oblige(st, False, 'memset out of bounds of %s' % o.name, 'safety'); raise Infeasible()
            if isconc(v) and v == 0:
                self.clear_range(o, off, n); o.regions.append((off, off + n, 'zero', None)); return
            if isconc(v):
                self.clear_range(o, off, n); o.regions.append((off, off + n, 'const', bytes([v]) * n)); return
        raise ToolLimit('memset')
    def memcpy(self, st, d, s, n):
        if isconc(n) and n == 0: return
        d = self.need(st, d, 'memcpy dest'); s = self.need(st, s, 'memcpy src')
        so = self.obj(st, s.obj)
        do = self.wobj(st, d.obj)
        if not so.alive or not do.alive:
            self.oblige(st, False, 'memcpy on freed object', 'safety'); raise Infeasible()
        if so.kind == 'cells' and do.kind == 'cells' and isconc(n):
            a = s.off + s.idx; b = d.off + d.idx
            for o, x in ((so, a), (do, b)):
                if o.size is not None and (x < 0 or x + n > o.size):
                    self.oblige(st, False, 'memcpy out of bounds of %s' % o.name, 'safety'); raise Infeasible()
            if any(a <= k < a + n for k in so.strs): raise ToolLimit('memcpy over std::string')
            cells = {k - a + b: c for k, c in so.cells.items() if a <= k and k + c[0] <= a + n}
            part = [k for k, c in so.cells.items() if (k < a < k + c[0]) or (k < a + n < k + c[0])]
            extra = {}
            for k in part:
                c = so.cells[k]
                for x in range(max(k, a), min(k + c[0], a + n)): extra[x - a + b] = (1, self.load_byte(st, so, x))
            regs = []
            for (x, y, kind, par) in so.regions:
                lo = max(x, a); hi = min(y, a + n)
                if lo < hi:
                    if kind == 'lazy': par2 = (par[0], par[1] + (a - b))
                    elif kind == 'const': par2 = par[lo - x: hi - x]
                    else: par2 = par
                    regs.append((lo - a + b, hi - a + b, kind, par2))
            do = self.wobj(st, d.obj)
            self.clear_range(do, b, n)
            do.regions.append((b, b + n, 'uninit', None))
            do.regions += regs
            do.cells.update(cells); do.cells.update(extra)
            return
        if so.kind == 'bytes':
            i = self.iptr(st, s)
            full = sconcat(so.content, b'\0') if so.nul else so.content
            L = slen(full)
            lim = AND(i >= 0, n >= 0, i + n <= L) if isconc(i) and isconc(n) and isconc(L) else z3.And(iv(i) >= 0, iv(n) >= 0, iv(i) + iv(n) <= iv(L))
            self.oblige(st, lim, 'memcpy reads out of bounds of %s' % so.name, 'safety')
            data = sextract(full, i, n)
            if do.kind == 'cells' and isinstance(data, bytes):
                b = d.off + d.idx
                if do.size is not None and b + len(data) > do.size:
                    self.oblige(st, False, 'memcpy out of bounds of %s' % do.name, 'safety'); raise Infeasible()
                self.clear_range(do, b, len(data)); do.regions.append((b, b + len(data), 'const', data)); return
            if do.kind == 'rawbuf':
                # fresh heap buffer of symbolic size becomes a byte sequence
                if isconc(d.idx) and d.idx == 0 and d.off == 0:
                    self.oblige(st, ebool(iv(n) <= iv(do.size)) if not (isconc(n) and isconc(do.size)) else n <= do.size, 'memcpy overflows %s' % do.name, 'safety')
                    do.kind = 'bytes'; do.content = data; do.nul = False; return
        raise ToolLimit('memcpy %s -> %s' % (so.kind, do.kind))

    # ---------------------------------------------------------------- std::string cells
    def str_buf(self, st, p):
        """object id of the buffer that holds the content of the std::string at p; (buf id)"""
        p = self.need(st, p, 'std::string')
        o = self.obj(st, p.obj)
        if not o.alive:
            self.oblige(st, False, 'use after free/destroy of %s' % o.name, 'safety'); raise Infeasible()
        if o.kind == 'unknown':
            self.become_cells(o.id); st.mem.pop(o.id, None); o = self.obj(st, p.obj)
        if o.kind == 'elems':
            f = o.fields.get(p.off)
            if f is None or f[0] != 'S': raise ToolLimit('no string field at %s in %s' % (p.off, o.name))
            self.oblige(st, AND(p.idx >= 0, p.idx < o.n), 'element index out of bounds of %s' % o.name, 'safety')
            key = ('ebuf', o.id, p.off, str(p.idx), f[1].get_id())
            b = st.ghost.get(key)
            if b is None:
                bo = self.bytes_obj(st, z3.Select(f[1], iv(p.idx)), 'element string')
                bo.const = True
                st.ghost[key] = bo.id; b = bo.id
            return b
        if o.kind != 'cells': raise ToolLimit('string in %s object' % o.kind)
        off = p.off + p.idx * o.stride
        b = o.strs.get(off)
        if b is not None: return b
        r = self.region_at(o, off, 32)
        if r is not None and r[2] == 'lazy':
            base, delta = r[3]
            nm = 'S%s_%d' % (base, off + delta)
            key = ('ls', nm)
            if key not in self.globname:
                bo = Obj(self.newid(), 'bytes', None, nm)
                bo.content = z3.Const(nm, BYTES); bo.nul = True
                self.base[bo.id] = bo
                self.globname[key] = bo.id
            o = self.wobj(st, o.id); o.strs[off] = self.globname[key]
            return o.strs[off]
        self.oblige(st, False, 'use of an unconstructed std::string in %s' % o.name, 'safety')
        raise Infeasible()
    def str_get(self, st, p):
        return self.obj(st, self.str_buf(st, p)).content
    def str_set(self, st, p, content):
        """assign: new buffer, the old one's pointers become invalid"""
        p = self.need(st, p, 'std::string')
        o = self.obj(st, p.obj)
        if o.kind == 'elems':
            o = self.wobj(st, p.obj)
            kind, arr = o.fields[p.off]
            self.oblige(st, AND(p.idx >= 0, p.idx < o.n), 'element index out of bounds of %s' % o.name, 'safety')
            o.fields[p.off] = (kind, z3.Store(arr, iv(p.idx), S(content)))
            return
        b = self.str_buf(st, p)
        wo = self.wobj(st, b); wo.alive = False
        self.str_new(st, p, content)
    def str_new(self, st, p, content, nonul=False):
        p = self.need(st, p, 'std::string')
        o = self.wobj(st, p.obj)
        if o.kind == 'unknown':
            self.become_cells(o.id); st.mem.pop(o.id, None); o = self.wobj(st, p.obj)
        if o.kind == 'rawbuf' and isconc(o.size):
            o.kind = 'cells'; o.regions = [(0, o.size, 'uninit', None)]
        if o.kind == 'elems': 
            self.str_set(st, p, content); return
        if o.kind != 'cells': raise ToolLimit('string constructed in %s' % o.kind)
        off = p.off + p.idx * o.stride
        if o.size is not None and (off < 0 or off + 32 > o.size):
            self.oblige(st, False, 'std::string constructed out of bounds of %s' % o.name, 'safety'); raise Infeasible()
        for k in [k for k in o.cells if off <= k < off + 32]: del o.cells[k]
        bo = self.bytes_obj(st, content, 'string data', nul=True, nonul=nonul)
        o.strs[off] = bo.id
    def str_destroy(self, st, p):
        p = self.need(st, p, '~string')
        o = self.obj(st, p.obj)
        if o.kind == 'elems': return
        b = self.str_buf(st, p)
        wo = self.wobj(st, b); wo.alive = False
        o = self.wobj(st, p.obj)
        off = p.off + p.idx * o.stride
        o.strs.pop(off, None)
        o.regions.append((off, off + 32, 'uninit', None))
    def cstr(self, st, p, why='C string'):
        """content of the NUL-terminated string at p (up to first NUL)"""
        p = self.need(st, p, why)
        o = self.obj(st, p.obj)
        if not o.alive:
            self.oblige(st, False, 'use after free/destroy: ' + why, 'safety'); raise Infeasible()
        if o.kind == 'unknown':
            self.become_bytes(o.id); st.mem.pop(o.id, None); o = self.obj(st, p.obj)
        if o.kind == 'cells':
            # concrete char array
            out = bytearray(); k = 0; syms = []
            while True:
                c = self.load_scalar(st, Ptr(p.obj, p.off + k, p.idx), ('i', 8), 1)
                if not isconc(c):
                    if not self.prove_quick(st, self.to_bv(c, 8) != 0): raise ToolLimit('symbolic char array as C string')
                    syms.append((k, self.to_bv(c, 8))); c = 1
                if c == 0:
                    if not syms: return bytes(out)
                    m = dict(syms); u = [z3.Unit(m.get(j, z3.BitVecVal(out[j], 8))) for j in range(k)]
                    return z3.Concat(*u) if k > 1 else u[0]
                out.append(c); k += 1
        if o.kind == 'abuf': raise ToolLimit('C string in array buffer')
        if o.kind != 'bytes': raise ToolLimit('C string in %s object' % o.kind)
        i = self.iptr(st, p); n = slen(o.content)
        if isinstance(o.content, bytes) and isconc(i):
            d = o.content[i:]
            k = d.find(b'\0')
            if k >= 0: return d[:k]
            if not o.nul: self.oblige(st, False, why + ': not NUL-terminated', 'safety'); raise Infeasible()
            return d
        if not o.nul: 
            self.oblige(st, z3.Contains(sextract(o.content, i, n - i), seqval(b'\0')), why + ': not NUL-terminated', 'safety')
        self.oblige(st, z3.And(iv(i) >= 0, iv(i) <= iv(n)), why + ': pointer out of bounds of %s' % o.name, 'safety')
        if o.nonul: return o.content if isconc(i) and i == 0 else sextract(o.content, i, n - i)
        tail = o.content if isconc(i) and i == 0 else sextract(o.content, i, n - i)
        ps = sparts(tail); k, j = self.scan(self, st, ps, b'\0')
        if k == len(ps): return tail
        head = ps[:k]
        if j is not None: return sconcat(*(head + [ps[k][:j]]))
        tail = sconcat(*ps[k:])
        key = ('strlen', o.id, S(o.content).get_id(), str(i))
        if key in st.ghost: return st.ghost[key]
        # general: prefix before the first NUL
        r = self.fresh('cs', BYTES)
        st.pc.append(z3.Not(z3.Contains(r, seqval(b'\0'))))
        rest = self.fresh('rest', BYTES)
        st.pc.append(z3.Or(r == S(tail), S(tail) == z3.Concat(r, seqval(b'\0'), rest)))
        st.ghost[key] = sconcat(*(head + [r]))
        return st.ghost[key]

    # ---------------------------------------------------------------- globals
    def glob(self, st, name, mod):
        key = (name, mod if name not in self.shared_globals else None)
        name0 = name
        if name in mod.aliases: name = mod.aliases[name]
        if name in mod.funcs or name in mod.decls: return FuncPtr(name, mod)
        m = mod
        if name in mod.gtext:
            t, v, const = mod.global_init(name)
            if v is None or 'internal' not in mod.gtext[name].split(' ')[:3] and 'private' not in mod.gtext[name].split(' ')[:3]:
                # external linkage: one object for the program
                for mm in self.mods:
                    if name in mm.gtext and not re.match(r'(?:dso_local )?(?:external|extern_weak)\b', mm.gtext[name]):
                        m = mm; break
                key = (name, None)
            else: key = (name, id(mod))
        else:
            raise ToolLimit('global %s' % name)
        if key in self.globobj: return Ptr(self.globobj[key])
        t, v, const = m.global_init(name)
        try: size = m.sizeof(t)
        except IRError: size = None
        dn = m.demangled.get(name, name)
        o = Obj(self.newid(), 'cells', size, dn)
        self.base[o.id] = o; self.globobj[key] = o.id
        if v is None:
            o.regions = [(0, size or (1 << 40), 'lazy', ('G' + name, 0))]
        elif v[0] == 'str' and t[0] == 'arr' and t[2] == ('i', 8):
            b = v[1]
            o.kind = 'bytes'; 
            if b.endswith(b'\0'): o.content = b[:-1]; o.nul = True; o.nonul = b'\0' not in b[:-1]
            else: o.content = b; o.nul = False
            o.const = const
        else:
            o.regions = [(0, size, 'zero', None)]
            self.ginit(o, 0, t, v, m)
            o.const = const
            if not const and size and self.dynamic_init(dn):
                # mutable program state: any history may have happened before the harness
                o.cells = {}; o.strs = {}; o.regions = [(0, size, 'lazy', ('G' + name, 0))]
        return Ptr(o.id)
    shared_globals = set()
    havoc_globals = None
    def dynamic_init(self, dn): return self.havoc_globals is not None and re.search(self.havoc_globals, dn)
    def ginit(self, o, off, t, v, m):
        t = m.resolve(t)
        if v[0] in ('zero', 'undef'): return
        if v[0] == 'agg':
            if t[0] == 'arr':
                s = m.sizeof(t[2])
                for i, (tt, x) in enumerate(v[1]): self.ginit(o, off + i * s, tt, x, m)
            else:
                for i, (tt, x) in enumerate(v[1]):
                    oo, _ = m.offset(t, i)
                    self.ginit(o, off + oo, tt, x, m)
            return
        if v[0] == 'str':
            for i, c in enumerate(v[1]): o.cells[off + i] = (1, c)
            return
        w = m.sizeof(t)
        o.cells[off] = (w, self.const(None, t, v, m))
    def const(self, st, t, v, m):
        k = v[0]
        if k == 'c': return v[1] if t != ('i', 1) else bool(v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            t = m.resolve(t)
            if t == ir.PTR: return NULL
            if t[0] == 'i': return 0 if t[1] != 1 else False
            if t[0] == 'st': return [self.const(st, x, ('zero',), m) for x in t[1]]
            if t[0] == 'arr': return [self.const(st, t[2], ('zero',), m) for _ in range(t[1])]
            raise ToolLimit('zero of %r' % (t,))
        if k == 'glob': return self.glob(st, v[1], m)
        if k == 'agg': return [self.const(st, tt, x, m) for tt, x in v[1]]
        if k == 'gep':
            base = self.const(st, ir.PTR, v[2][0][1], m)
            idx = [(tt, self.const(st, tt, x, m)) for tt, x in v[2][1:]]
            return self.gep(st, base, v[1], idx, m)
        if k == 'cast':
            x = self.const(st, v[2], v[3], m)
            if v[1] == 'ptrtoint': return PtrInt(x) if not (isinstance(x, Ptr) and x.obj == 0) else 0
            if v[1] == 'inttoptr':
                if isinstance(x, int): 
                    if x == 0: return NULL
                    return Ptr(0, x, 0)
                return x.p
        if k == 'f':
            import struct
            x = v[1]; d64 = t == ('f', 64)
            if not d64: return ('float', x)
            if x.startswith('0x'): return int(x, 16) if x[2] not in 'KLMHR' else ('float', x)
            try: return struct.unpack('<Q', struct.pack('<d', float(x)))[0]
            except ValueError: return ('float', x)
        raise ToolLimit('constant %r' % (v,))

    def gep(self, st, p, bt, idx, m):
        if isinstance(p, (FuncPtr, Undef)): raise ToolLimit('gep on %r' % (p,))
        if isinstance(p, PtrInt): p = p.p
        if isinstance(p, int) and p == 0: p = NULL
        maybe = None
        if isinstance(p, MaybePtr):
            # field address of possibly-null pointer: only offset 0 keeps it nullable
            maybe = p
        q = p.ptr if maybe is not None else p
        t = bt
        first = True
        moved = False
        for (tt, i) in idx:
            w = tt[1]
            i = self.to_sint(i, w, st) if not isinstance(i, int) else (i - (1 << w) if i >> (w - 1) else i)
            if first:
                s = m.sizeof(t); first = False
                if not (isconc(i) and i == 0):
                    q = self.gep_step(st, q, s, i, t, m); moved = True
                continue
            rt = m.resolve(t)
            if rt[0] == 'st':
                off, t = m.offset(rt, i)
                if off: 
                    q = self.gep_field(st, q, off); moved = True
            elif rt[0] in ('arr', 'vec'):
                t = rt[2]; s = m.sizeof(t)
                if not (isconc(i) and i == 0):
                    q = self.gep_step(st, q, s, i, t, m, arr=rt[1]); moved = True
            else: raise ToolLimit('gep into %r' % (rt,))
        if maybe is not None:
            if not moved: return maybe
            self.oblige(st, NOT(maybe.isnull), 'null dereference: member access', 'safety')
        return q
    def gep_field(self, st, q, off):
        if q.obj == 0:
            return Ptr(0, q.off + off, q.idx)
        o = self.obj(st, q.obj)
        if o.kind == 'unknown': self.become_cells(o.id); st.mem.pop(o.id, None)
        return Ptr(q.obj, q.off + off, q.idx) if o.stride != 1 or o.kind == 'cells' else self.padd(st, q, off)
    def gep_step(self, st, q, s, i, t, m, arr=None):
        if q.obj == 0:
            if isconc(i): return Ptr(0, q.off + s * i, 0)
            raise ToolLimit('gep on null')
        o = self.obj(st, q.obj)
        if o.kind == 'unknown' and s == 1:
            self.become_bytes(o.id); st.mem.pop(o.id, None); o = self.obj(st, q.obj)
        if o.kind == 'elems' and s == o.stride:
            ni = q.idx + i
            return Ptr(q.obj, q.off, self.simp_int(ni) if z3.is_expr(ni) else ni)
        if o.kind == 'cells':
            if isconc(i) and isconc(q.idx):
                off = q.off + s * i
                nst = self.nested_at(o, off)
                if nst is not None and s == 1:
                    return Ptr(nst[1], 0, off - nst[0])
                return Ptr(q.obj, off, q.idx)
            if s == 1 and o.size is not None and isconc(q.idx):
                # symbolic index into a char array: make it an array buffer
                off = q.off
                nst = self.nested_at(o, off)
                if nst is None:
                    n = arr if arr is not None else (o.size - off)
                    nst = self.make_nested(st, o, off, n)
                return Ptr(nst[1], 0, self.simp_int(iv(i) + (off - nst[0])))
            if isconc(q.idx) and not isconc(i) and o.size is not None and o.size // s <= 64:
                key = ('idx', i.get_id())
                if key in st.ghost: return Ptr(q.obj, q.off + s * st.ghost[key][1], q.idx)
                self.oblige(st, z3.And(iv(i) * s + q.off >= 0, iv(i) * s + q.off <= o.size), 'index within %s' % o.name, 'safety')
                vals = [k for k in range(-(q.off // s), (o.size - q.off) // s + 1) if self.feasible(st, iv(i) == k)]
                if not vals: raise Infeasible()
                raise SplitIndex(i, vals)
            raise ToolLimit('symbolic index (element size %d) into %s' % (s, o.name))
        if o.stride == 1:
            d = i * s if isconc(i) else (i if s == 1 else i * s)
            return self.padd(st, q, d)
        if isconc(i): return self.padd(st, q, i * s)
        raise ToolLimit('gep step %d in stride %d' % (s, o.stride))
    def make_nested(self, st, o, off, n):
        arr = self.fresh('buf', z3.ArraySort(z3.IntSort(), BV8))
        for k in range(off, off + n):
            for kk in range(k, k - 16, -1):
                if kk in o.cells and kk + o.cells[kk][0] > k:
                    arr = z3.Store(arr, k - off, self.to_bv(self.load_byte(st, o, k), 8)); break
            else:
                r = self.region_at(o, k, 1)
                if r is not None and r[2] in ('zero', 'const'):
                    arr = z3.Store(arr, k - off, self.to_bv(self.load_byte(st, o, k), 8))
        no = self.new_obj(st, 'abuf', n, o.name + '.buf'); no.arr = arr
        wo = self.wobj(st, o.id)
        wo.nested[off] = (n, no.id)
        return off, no.id

    # ---------------------------------------------------------------- execution
    def val(self, st, t, v):
        k = v[0]
        if k == 'loc':
            try: return st.frames[-1].regs[v[1]]
            except KeyError: raise ToolLimit('unset register %s in %s' % (v[1], self.where(st)))
        if k == 'c': return v[1] if t != ('i', 1) else bool(v[1])
        return self.const(st, t, v, st.frames[-1].mod)

    def find_func(self, name, mod):
        if name in mod.aliases: name = mod.aliases[name]
        f = mod.funcs.get(name)
        if f is not None and f.text is not None: return f
        for m in self.mods:
            if name in m.aliases: 
                g = m.funcs.get(m.aliases[name])
                if g is not None: return g
            f = m.funcs.get(name)
            if f is not None and 'internal' not in f.linkage: return f
        return None
    def func_by_demangled(self, d):
        for m in self.mods:
            for f in m.funcs.values():
                if m.demangled.get(f.name) == d: return f
        return None

    def push(self, st, f, args, retins):
        if len(st.frames) > self.max_depth: raise ToolLimit('call depth')
        f.parse()
        fr = Frame.__new__(Frame)
        fr.f = f; fr.mod = f.mod; fr.regs = {}; fr.block = f.order[0]; fr.prev = None; fr.ip = 0; fr.retins = retins; fr.allocas = []; fr.depth = len(st.frames); fr.loopn = {}; fr.onret = None
        for (t, nm), a in zip(f.params, args): fr.regs[nm] = a
        st.frames.append(fr)
        self.inlined.add(self.dem(f))

    def run(self, st, maxpaths=None):
        """explore all paths from st; returns the list of finished states"""
        work = [st]; done = []
        while work:
            s = work.pop()
            try:
                while True:
                    r = self.step(s)
                    if r is None: continue
                    if r == 'end': done.append(s); self.paths += 1; break
                    if r == 'stop': self.paths += 1; break
                    # list of successor states
                    if not r: break
                    work.extend(r[1:])
                    s = r[0]
            except SplitIndex as x:
                sts = [s] + [s.fork() for _ in x.values[1:]]
                for t, k in zip(sts, x.values):
                    t.pc.append(iv(x.i) == k); t.ghost = dict(t.ghost); t.ghost[('idx', x.i.get_id())] = (x.i, k)
                work.extend(sts)
            except Infeasible:
                self.paths += 1
            except StopPath:
                self.paths += 1
            if self.paths > self.max_paths: raise ToolLimit('too many paths')
        return done

    def goto(self, st, target):
        """transfer to block in the current frame. returns None or result like step"""
        fr = st.frames[-1]
        while st.cuts:
            c = st.cuts[-1]
            if c.depth != fr.depth: break
            if target == c.header:
                fr.prev, fr.block = fr.block, target
                self.do_phis(st, target)
                c.back.append(st); return 'stop'
            if target in c.body: break
            if c.dry:
                fr.prev, fr.block = fr.block, target
                c.exit.append(st); return 'stop'
            st.cuts.pop()
        loops = fr.f.loops()
        if target in loops:
            if fr.block in loops[target] and fr.block is not None and target in fr.loopn:
                fr.loopn[target] += 1
                if fr.loopn[target] > self.unroll: raise ToolLimit('loop %s in %s exceeds unroll limit' % (target, self.dem(fr.f)))
            else:
                fr.loopn[target] = 0
                h = self.loop_handler(fr)
                if h is not None:
                    fr.prev, fr.block = fr.block, target
                    self.do_phis(st, target)
                    if h(self, st, target) is not False:
                        return self.cut_loop(st, target, loops[target], h)
                    fr.ip = self.first_nonphi(fr)
                    return None
        fr.prev, fr.block = fr.block, target
        self.do_phis(st, target)
        fr.ip = self.first_nonphi(fr)
        return None
    def first_nonphi(self, fr):
        b = fr.f.blocks[fr.block]; i = 0
        while i < len(b) and b[i].op == 'phi': i += 1
        return i
    def do_phis(self, st, target):
        fr = st.frames[-1]
        new = {}
        for ins in fr.f.blocks[target]:
            if ins.op != 'phi': break
            for v, b in ins.a:
                if b == fr.prev or (b == '%entry' and fr.prev == fr.f.order[0]):
                    new[ins.res] = self.val(st, ins.ty, v); break
            else: raise ToolLimit('phi')
        fr.regs.update(new)
    def loop_handler(self, fr):
        d = self.dem(fr.f)
        for rx, h in self.loopinv.items():
            if re.search(rx, d): return h
        return None

    # ---- loop cutting ------------------------------------------------------------
    def header_regs(self, fr, header):
        return [(i.res, i.ty) for i in fr.f.blocks[header] if i.op == 'phi']
    def havoc_val(self, st, name, ty, v, hint=None):
        if ty == ir.PTR:
            if isinstance(v, Ptr):
                if v.obj == 0: raise ToolLimit('loop-carried null pointer %s' % name)
                o = self.obj(st, v.obj)
                if o.kind in ('bytes', 'abuf', 'elems', 'rawbuf'):
                    i = self.fresh_int(name.strip('%') + '.idx')
                    return Ptr(v.obj, v.off if o.stride != 1 else 0, i)
                return v    # same pointer (checked at back edge)
            return v
        if ty[0] == 'i':
            if ty[1] == 1: return self.fresh(name, z3.BoolSort())
            if ty[1] >= 16:
                i = self.fresh_int(name.strip('%'), 0, (1 << ty[1]) - 1, st)
                return i
            return self.fresh(name, z3.BitVecSort(ty[1]))
        raise ToolLimit('havoc %r' % (ty,))
    def cut_loop(self, st, header, body, handler):
        """returns list of successor states (loop exits)"""
        fr = st.frames[-1]
        depth = fr.depth
        phis = self.header_regs(fr, header)
        entry = st
        modcells = {}      # (objid, off) -> (w, ty guess)
        modstr = set()     # (objid, off)
        modobj = {}        # objid -> 'content'|'arr'|'elems'
        modghost = set()
        def havoced():
            s = entry.fork()
            f = s.frames[-1]
            for nm, ty in phis:
                f.regs[nm] = self.havoc_val(s, nm, ty, f.regs[nm])
            for (oid, off), (w, v0) in modcells.items():
                o = self.wobj(s, oid)
                if isinstance(v0, (Ptr, MaybePtr)):
                    o.cells[off] = (w, self.havoc_val(s, 'm%d_%d' % (oid, off), ir.PTR, v0))
                elif isinstance(v0, (bool, BI)):
                    o.cells[off] = (w, BI(self.fresh('m%d_%d' % (oid, off), z3.BoolSort())))
                elif isinstance(v0, Undef):
                    o.cells[off] = (w, v0)
                else:
                    o.cells[off] = (w, self.havoc_val(s, 'm%d_%d' % (oid, off), ('i', w * 8), v0))
            for oid, k in modobj.items():
                o = self.wobj(s, oid)
                if k == 'content': o.content = self.fresh('hc', BYTES); o.nonul = False
                elif k == 'arr': o.arr = self.fresh('ha', z3.ArraySort(z3.IntSort(), BV8))
                elif k == 'elems':
                    o.n = self.fresh_int('hn', 0, None, s)
                    for fo, (kd, a) in list(o.fields.items()): o.fields[fo] = (kd, self.fresh('hf', a.sort()))
            for (oid, off) in modstr:
                o = self.wobj(s, oid)
                bo = self.bytes_obj(s, self.fresh('hs', BYTES), 'string data')
                o.strs[off] = bo.id
            for g in modghost:
                v = s.ghost[g]
                s.ghost[g] = self.fresh('hg', BYTES if isinstance(v, bytes) else (z3.IntSort() if isconc(v) else v.sort()))
            return s
        entry_ids = set(self.base) | set(entry.mem)
        def diff(e, s):
            ch = False
            for oid, o in e.mem.items():
                if oid not in entry_ids: continue
                b = s.mem.get(oid) or self.base.get(oid)
                if o is b: continue
                if b is None: continue
                if o.kind != b.kind: raise ToolLimit('object %s changes kind in loop' % o.name)
                if o.content is not b.content and not (isinstance(o.content, bytes) and o.content == b.content):
                    if oid in strbufs: pass
                    elif oid not in modobj: modobj[oid] = 'content'; ch = True
                if o.arr is not b.arr and oid not in modobj: modobj[oid] = 'arr'; ch = True
                if o.kind == 'elems' and (o.n is not b.n or o.fields != b.fields) and oid not in modobj: modobj[oid] = 'elems'; ch = True
                for k in set(o.strs) | set(b.strs):
                    if o.strs.get(k) != b.strs.get(k):
                        eo = entry.mem.get(oid) or self.base.get(oid)
                        if k in eo.strs:
                            if (oid, k) not in modstr: modstr.add((oid, k)); ch = True
                        elif k not in o.strs: pass
                        elif (oid, k) not in modstr:
                            raise ToolLimit('string constructed in loop outlives iteration')
                for k in set(o.cells) | set(b.cells):
                    x = o.cells.get(k); y = b.cells.get(k)
                    if x is None or (oid, k) in modcells: continue
                    if y is None:
                        # was it lazily created (a pure read) or stored?
                        d = None
                        try:
                            d = self.default(s, b, k, x[0], ir.PTR if isinstance(x[1], (MaybePtr, Ptr)) else ('i', x[0] * 8))
                        except ToolLimit: pass
                        if d is not None and self.same_val(d, x[1]): continue
                        if isinstance(d, Undef):
                            continue   # first written inside the loop: dead at loop head
                        modcells[(oid, k)] = (x[0], x[1]); ch = True; continue
                    if not self.same_val(x[1], y[1]):
                        if x[0] != y[0]: raise ToolLimit('cell width changes in loop')
                        modcells[(oid, k)] = (x[0], y[1]); ch = True
            for g, v in e.ghost.items():
                if g in modghost: continue
                if isinstance(g, tuple): continue
                if g not in s.ghost: raise ToolLimit('ghost %s created in a loop' % (g,))
                w = s.ghost[g]
                if isinstance(g, tuple): continue
                if v is not w and not (isconc(v) and isconc(w) and v == w) and not (isinstance(v, bytes) and v == w) and not (z3.is_expr(v) and z3.is_expr(w) and v.eq(w)):
                    modghost.add(g); ch = True
            return ch
        strbufs = set()
        for o in list(entry.mem.values()): strbufs.update(o.strs.values())
        def body_run(s, dry):
            c = Cut(depth, fr.f.name, header, body, dry)
            s.cuts.append(c)
            f = s.frames[-1]
            f.block = header; f.ip = self.first_nonphi(f)
            done = self.run(s)
            return c, done
        # 1. what does the loop modify?
        self.dry += 1
        try:
            for _ in range(12):
                s = havoced(); s0 = s.fork()
                ctx = LoopCtx(self, entry, s, header, phis, modcells, modobj, modstr, modghost)
                # bounds that hold by construction are needed for exploration: use candidate set optimistic
                for nm, e in ctx.assumed(handler): s.pc.append(ebool(e))
                c, done = body_run(s, True)
                ch = False
                for e in c.back: ch |= diff(e, s0)
                if not ch: break
            else: raise ToolLimit('loop frame does not stabilise')
            # 2. Houdini
            s = havoced()
            ctx = LoopCtx(self, entry, s, header, phis, modcells, modobj, modstr, modghost)
            cands = handler(self, entry, header, ctx) if handler.__code__.co_argcount >= 4 else []
            cands = list(cands) + ctx.default_candidates()
            live = []
            ectx = ctx.at(entry)
            for nm, fn in cands:
                try: e = fn(ectx); self.lemmas(fn, ectx)
                except (ToolLimit, KeyError, AttributeError): continue
                if e is None: continue
                if isinstance(e, bool):
                    if e: live.append((nm, fn))
                elif self.prove_quick(entry, e, 3000): live.append((nm, fn))
            for it in range(25):
                s = havoced()
                hctx = ctx.at(s)
                try:
                    for nm, fn in live: 
                        e = fn(hctx)
                        self.assume(s, ebool(e) if e is not None else True)
                except ToolLimit as ex: raise
                c, done = body_run(s, True)
                keep = []; dropped = []
                for nm, fn in live:
                    ok = True
                    for e in c.back:
                        self.same_objs(ctx, e, s)
                        cond = fn(ctx.at(e))
                        self.lemmas(fn, ctx.at(e))
                        if isinstance(cond, bool):
                            if not cond: ok = False; break
                        elif not self.prove_quick(e, cond, 4000):
                            r = self.prove(e, cond, 6000)
                            if r[0] != 'proved': ok = False; break
                    (keep if ok else dropped).append((nm, fn))
                live = keep
                if not dropped: break
            else: raise ToolLimit('Houdini does not stabilise')
        finally:
            self.dry -= 1
        self.cutloops.add((self.dem(fr.f), header, tuple(nm for nm, _ in live)))
        # 3. obligations: initiation
        for nm, fn in live:
            e = fn(ctx.at(entry))
            self.oblige(entry, e if isinstance(e, bool) else e, 'loop invariant holds initially: ' + nm, 'inv-init')
        s = havoced()
        hctx = ctx.at(s)
        for nm, fn in live: self.assume(s, ebool(fn(hctx)))
        c = Cut(depth, fr.f.name, header, body, False)
        s.cuts.append(c)
        f = s.frames[-1]; f.block = header; f.ip = self.first_nonphi(f)
        # run the loop body: paths that leave the loop continue on the main work list.
        # back-edge states are checked here by running the body separately
        exits = self.run_until_exit(s, c)
        for e in c.back:
            for nm, fn in live:
                cond = fn(ctx.at(e))
                self.lemmas(fn, ctx.at(e))
                self.oblige(e, cond, 'loop invariant preserved: ' + nm, 'inv-step')
        return exits
    def lemmas(self, fn, cx):
        """instances of the definitions of ghost functions that the step of an invariant needs"""
        l = getattr(fn, 'lemmas', None)
        if l is not None: cx.st.pc += [ebool(x) for x in l(cx)]
    def run_until_exit(self, s, c):
        """run states inside the cut; a state that pops the cut (leaves the loop, returns or throws out) is returned"""
        work = [s]; out = []
        while work:
            x = work.pop()
            try:
                while True:
                    if c not in x.cuts: out.append(x); break
                    r = self.step(x)
                    if r is None: continue
                    if r == 'end': out.append(x); break
                    if r == 'stop': self.paths += 1; break
                    if not r: break
                    work.extend(r[1:]); x = r[0]
            except SplitIndex as y:
                sts = [x] + [x.fork() for _ in y.values[1:]]
                for t, k in zip(sts, y.values):
                    t.pc.append(iv(y.i) == k); t.ghost = dict(t.ghost); t.ghost[('idx', y.i.get_id())] = (y.i, k)
                work.extend(sts)
            except (Infeasible, StopPath):
                self.paths += 1
            if self.paths > self.max_paths: raise ToolLimit('too many paths')
        return out
    def same_objs(self, ctx, e, s):
        """pointers carried by the loop stay in the same object"""
        for nm, ty in ctx.phis:
            if ty == ir.PTR:
                a = e.frames[ctx.depth].regs[nm]; b = s.frames[ctx.depth].regs[nm]
                if isinstance(b, Ptr) and isinstance(a, Ptr):
                    if a.obj != b.obj: raise ToolLimit('loop-carried pointer changes object')
                    if not self.same_val(a, b):
                        o = self.obj(e, a.obj)
                        if o.kind == 'cells': raise ToolLimit('loop-carried pointer into plain object moves')
                elif not self.same_val(a, b): raise ToolLimit('loop-carried pointer')
    def same_val(self, a, b):
        if a is b: return True
        if isinstance(a, BI) and isinstance(b, BI): return self.same_val(a.b, b.b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj == b.obj and self.same_val(a.off, b.off) and self.same_val(a.idx, b.idx)
        if isinstance(a, MaybePtr) and isinstance(b, MaybePtr): return self.same_val(a.isnull, b.isnull) and self.same_val(a.ptr, b.ptr)
        if isinstance(a, (int, bool, bytes)) and isinstance(b, (int, bool, bytes)): return a == b
        if isinstance(a, FuncPtr) and isinstance(b, FuncPtr): return a.name == b.name
        if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt): return self.same_val(a.p, b.p)
        if isinstance(a, tuple) and isinstance(b, tuple): return a == b
        return False

    # ---- unwinding ---------------------------------------------------------------
    def throw(self, st, ti, obj):
        """unwind the current frame's call instruction; called with frames[-1] being the frame whose current
        instruction raised.  Returns step result."""
        st.exc = (ti, obj)
        return self.unwind(st)
    def unwind(self, st):
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.block][fr.ip]
            if ins.op == 'invoke':
                return self.goto(st, ins.a['unwind'])
            # drop frame
            while st.cuts and st.cuts[-1].depth == fr.depth:
                c = st.cuts.pop()
                if c.dry: c.ended.append(st); return 'stop'
            self.pop_frame(st)
            if not st.frames: break
        return self.finish(st, thrown=True)
    def pop_frame(self, st):
        fr = st.frames.pop()
        for a in fr.allocas:
            o = st.mem.get(a)
            if o is not None:
                del st.mem[a]
                # dangling pointers to a dead local: keep a tombstone
                t = Obj(a, 'dead', 0, o.name); t.alive = False; t.owner = -1; st.mem[a] = t
    def finish(self, st, thrown=False):
        if thrown and self.on_uncaught is not None:
            self.on_uncaught(st)
        return 'end'
    on_uncaught = None

    def ti_match(self, st, thrown, clause, mod):
        """does exception type `thrown` (typeinfo symbol) match catch clause typeinfo symbol (or None = catch-all)"""
        if clause is None: return True
        t = thrown
        seen = set()
        while t and t not in seen:
            seen.add(t)
            if t == clause: return True
            t = self.ti_base(t)
        return False
    STDBASE = {'@_ZTISt12out_of_range': '@_ZTISt11logic_error', '@_ZTISt16invalid_argument': '@_ZTISt11logic_error', '@_ZTISt12length_error': '@_ZTISt11logic_error',
               '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt9bad_alloc': '@_ZTISt9exception'}
    def ti_base(self, t):
        if t in self.STDBASE: return self.STDBASE[t]
        for m in self.mods:
            if t in m.gtext:
                g = m.global_init(t)
                if g[1] and g[1][0] == 'agg' and len(g[1][1]) >= 3:
                    v = g[1][1][2][1]
                    if v[0] == 'glob': return v[1]
        return None

    # ---- one instruction ----------------------------------------------------------
    def step(self, st):
        if not st.frames: return 'end'
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.block][fr.ip]
        st.steps += 1
        if st.steps > 3000000: raise ToolLimit('too many steps')
        if (st.steps & 1023) == 0: self.check_budget()
        op = ins.op
        regs = fr.regs
        mod = fr.mod
        if op == 'br':
            c = ins.a[0]
            if c is None: return self.goto(st, ins.a[1])
            v = self.to_bool(self.val(st, ('i', 1), c))
            if v is True: return self.goto(st, ins.a[1])
            if v is False: return self.goto(st, ins.a[2])
            if self.noop_calls is not None:
                t = self.same_way(fr, ins.a[1], ins.a[2])
                if t is not None: return self.goto(st, t)
            return self.branch(st, [(v, ins.a[1]), (z3.Not(v), ins.a[2])])
        if op == 'call' or op == 'invoke':
            return self.call(st, fr, ins)
        if op == 'load':
            regs[ins.res] = self.load(st, self.val(st, ir.PTR, ins.a[0]), ins.ty, mod)
        elif op == 'store':
            self.store(st, self.val(st, ir.PTR, ins.a[1]), self.val(st, ins.ty, ins.a[0]), ins.ty, mod)
        elif op == 'gep':
            bt, ops = ins.a
            base = self.val(st, ir.PTR, ops[0][1])
            regs[ins.res] = self.gep(st, base, bt, [(t, self.val(st, t, v)) for t, v in ops[1:]], mod)
        elif op == 'bin':
            o, a, b = ins.a
            regs[ins.res] = self.binop(st, o, self.val(st, ins.ty, a), self.val(st, ins.ty, b), ins.ty[1])
        elif op == 'icmp':
            regs[ins.res] = self.icmp(st, ins.a[0], ins.a[1], self.val(st, ins.a[1], ins.a[2]), self.val(st, ins.a[1], ins.a[3]))
        elif op == 'fcmp':
            regs[ins.res] = self.fcmp(ins.a[0], ins.a[1], self.val(st, ins.a[1], ins.a[2]), self.val(st, ins.a[1], ins.a[3]))
        elif op == 'cast':
            regs[ins.res] = self.cast(st, ins.a[0], ins.a[1], ins.ty, self.val(st, ins.a[1], ins.a[2]))
        elif op == 'alloca':
            t, cnt = ins.a
            n = 1
            if cnt is not None:
                n = self.val(st, cnt[0], cnt[1])
                if not isconc(n): raise ToolLimit('variable alloca')
            size = mod.sizeof(t) * n
            o = self.new_obj(st, 'cells', size, 'local ' + ins.res)
            o.regions = [(0, size, 'uninit', None)]
            fr.allocas.append(o.id)
            regs[ins.res] = Ptr(o.id)
        elif op == 'ret':
            v = None if ins.a[0] is None else self.val(st, ins.ty, ins.a[0])
            return self.ret(st, v)
        elif op == 'select':
            c = self.to_bool(self.val(st, ('i', 1), ins.a[0]))
            a = self.val(st, ins.ty, ins.a[1]); b = self.val(st, ins.ty, ins.a[2])
            if c is True: regs[ins.res] = a
            elif c is False: regs[ins.res] = b
            elif ins.ty[0] == 'i' and not isinstance(a, (PtrInt, Undef)) and not isinstance(b, (PtrInt, Undef)):
                w = ins.ty[1]
                if w == 1: regs[ins.res] = z3.If(c, ebool(self.to_bool(a)), ebool(self.to_bool(b)))
                elif self.is_intrep(a) or self.is_intrep(b): regs[ins.res] = z3.If(c, iv(self.to_int(a, w)), iv(self.to_int(b, w)))
                else: regs[ins.res] = z3.If(c, self.to_bv(a, w), self.to_bv(b, w))
            else:
                s2 = st.fork(); out = []
                for s, cc, v in ((st, c, a), (s2, z3.Not(c), b)):
                    if self.feasible(s, cc):
                        s.pc.append(cc); s.frames[-1].regs[ins.res] = v; s.frames[-1].ip += 1; out.append(s)
                return out
        elif op == 'switch':
            t = ins.ty; v = self.val(st, t, ins.a[0])
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int):
                for c, l in ins.a[2]:
                    if c == v: return self.goto(st, l)
                return self.goto(st, ins.a[1])
            groups = {}; allc = []
            for c, l in ins.a[2]:
                e = self.icmp(st, 'eq', t, v, c)
                allc.append(e); groups.setdefault(l, []).append(e)
            br = [(OR(*es), l) for l, es in groups.items()]
            br.append((NOT(OR(*allc)), ins.a[1]))
            return self.branch(st, br)
        elif op == 'extractvalue':
            t, a, idx = ins.a
            v = self.val(st, t, a)
            for i in idx: v = v[i] if isinstance(v, list) else UNDEF
            regs[ins.res] = v
        elif op == 'insertvalue':
            a, t2, b, idx = ins.a
            v = self.val(st, ins.ty, a); x = self.val(st, t2, b)
            def ins_at(v, ty, idx):
                ty = mod.resolve(ty)
                n = len(ty[1]) if ty[0] == 'st' else ty[1]
                v = list(v) if isinstance(v, list) else [UNDEF] * n
                et = ty[1][idx[0]] if ty[0] == 'st' else ty[2]
                v[idx[0]] = x if len(idx) == 1 else ins_at(v[idx[0]], et, idx[1:])
                return v
            regs[ins.res] = ins_at(v, ins.ty, idx)
        elif op == 'landingpad':
            clean, clauses = ins.a
            ti, obj = st.exc
            sel = 0
            matched = clean
            for k, c in clauses:
                if k != 'catch':
                    matched = True; continue
                ct = None if c[0] == 'null' else c[1]
                if self.ti_match(st, ti, ct, mod):
                    sel = self.ti_id(ct); matched = True; break
            regs[ins.res] = [obj, sel]
            if not matched:
                # no clause matches and no cleanup: keep unwinding
                return self.resume(st)
        elif op == 'resume':
            return self.resume(st)
        elif op == 'unreachable':
            raise StopPath()
        elif op == 'freeze':
            regs[ins.res] = self.val(st, ins.ty, ins.a[0])
        elif op == 'atomicrmw':
            o, a, v = ins.a
            p = self.val(st, ir.PTR, a); old = self.load(st, p, ins.ty, mod); x = self.val(st, ins.ty, v)
            new = x if o == 'xchg' else self.binop(st, {'add':'add','sub':'sub','and':'and','or':'or'}[o], old, x, ins.ty[1])
            self.store(st, p, new, ins.ty, mod)
            regs[ins.res] = old
        else:
            raise ToolLimit('instruction %s' % ins)
        fr.ip += 1
        return None
    _ti = {}
    def ti_id(self, t):
        if t not in self._ti: self._ti[t] = len(self._ti) + 1
        return self._ti[t]
    def resume(self, st):
        fr = st.frames[-1]
        while st.cuts and st.cuts[-1].depth == fr.depth:
            c = st.cuts.pop()
            if c.dry: return 'stop'
        self.pop_frame(st)
        if not st.frames: return self.finish(st, thrown=True)
        return self.unwind(st)
    def branch(self, st, alts):
        feas = []
        for c, l in alts:
            if c is False: continue
            c2 = self.simp(c) if not isinstance(c, bool) else c
            if c2 is False: continue
            if c2 is True: feas = [(True, l)]; break
            feas.append((c2, l))
        if len(feas) > 1:
            res = [(c, l) for c, l in feas if self.feasible(st, c)]
        else: res = feas
        if not res: raise Infeasible()
        out = []
        sts = [st] + [st.fork() for _ in res[1:]]
        for s, (c, l) in zip(sts, res):
            if c is not True and len(feas) > 1: s.pc.append(c)
            try:
                r = self.goto(s, l)
            except (Infeasible, StopPath):
                continue
            if r is None: out.append(s)
            elif r == 'stop': self.paths += 1
            elif r == 'end': out.append(s)
            else: out.extend(r)
        return out
    def ret(self, st, v):
        fr = st.frames[-1]
        while st.cuts and st.cuts[-1].depth == fr.depth:
            c = st.cuts.pop()
            if c.dry: c.ended.append(st); return 'stop'
        onret = fr.onret
        self.pop_frame(st)
        if onret is not None:
            r = onret(st, v)
            if r is not None: v = r[0]
        if not st.frames: return self.finish(st)
        caller = st.frames[-1]
        ins = caller.f.blocks[caller.block][caller.ip]
        if ins.res is not None: caller.regs[ins.res] = v
        if ins.op == 'invoke': return self.goto(st, ins.a['normal'])
        caller.ip += 1
        return None
    def complete_call(self, st, ins, v):
        fr = st.frames[-1]
        if ins.res is not None: fr.regs[ins.res] = v
        if ins.op == 'invoke': return self.goto(st, ins.a['normal'])
        fr.ip += 1
        return None

    def fcmp(self, pr, t, a, b):
        """comparison of doubles, which are their bit patterns"""
        if t != ('f', 64) or isinstance(a, (Undef, tuple)) or isinstance(b, (Undef, tuple)): raise ToolLimit('comparison of floating-point numbers')
        def fp(x):
            if isconc(x): return z3.fpBVToFP(z3.BitVecVal(x, 64), z3.Float64())
            if z3.is_bv(x): return z3.fpBVToFP(x, z3.Float64())
            raise ToolLimit('comparison of floating-point numbers')
        x, y = fp(a), fp(b); nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        ops = {'eq': z3.fpEQ, 'ne': lambda u, v: z3.Not(z3.fpEQ(u, v)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pr in ('ord', 'uno'): r = nan if pr == 'uno' else z3.Not(nan)
        elif pr[1:] in ops: r = z3.Or(nan, ops[pr[1:]](x, y)) if pr[0] == 'u' else z3.And(z3.Not(nan), ops[pr[1:]](x, y))
        else: raise ToolLimit('comparison of floating-point numbers')
        r = z3.simplify(r)
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def icmp(self, st, pr, t, a, b):
        if t == ir.PTR or isinstance(a, (Ptr, MaybePtr, PtrInt, FuncPtr)) or isinstance(b, (Ptr, MaybePtr, PtrInt, FuncPtr)):
            return self.pcmp(st, pr, a, b)
        w = t[1]
        if isinstance(a, Undef) or isinstance(b, Undef): return self.fresh('undefcmp', z3.BoolSort())
        if w == 1:
            x, y = self.to_bool(a), self.to_bool(b)
            if isinstance(x, bool) and isinstance(y, bool): return (x == y) if pr == 'eq' else (x != y)
            e = ebool(x) == ebool(y)
            if isinstance(y, bool): e = x if y else z3.Not(x)
            elif isinstance(x, bool): e = y if x else z3.Not(y)
            if pr == 'eq': return e
            if pr == 'ne': return z3.Not(e)
            raise ToolLimit('i1 cmp')
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w-1) else a
            sb = b - (1 << w) if b >> (w-1) else b
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pr]
        if isinstance(a, BI) and isinstance(b, int):
            if pr in ('eq', 'ne'):
                r = a.b if b == 1 else (z3.Not(a.b) if b == 0 else False)
                return r if pr == 'eq' else NOT(r)
        if self.is_intrep(a) or self.is_intrep(b):
            if pr[0] == 's':
                x, y = self.to_sint(a, w, st), self.to_sint(b, w, st)
            else:
                x, y = self.to_int(a, w), self.to_int(b, w)
            r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[pr if pr in ('eq', 'ne') else pr[1:]]()
            return self.simp(r)
        x, y = self.to_bv(a, w), self.to_bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pr]()
        return self.simp(r)
    def pcmp(self, st, pr, a, b):
        if isinstance(a, PtrInt): a = a.p
        if isinstance(b, PtrInt): b = b.p
        if isinstance(a, int) and a == 0: a = NULL
        if isinstance(b, int) and b == 0: b = NULL
        if isinstance(a, Undef) or isinstance(b, Undef): return self.fresh('undefcmp', z3.BoolSort())
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == 0 and b.obj == 0:
            x, y = a.off, b.off
        elif pr in ('eq', 'ne'):
            e = self.peq(st, a, b)
            return e if pr == 'eq' else NOT(e)
        else:
            a = self.need(st, a, 'compare'); b = self.need(st, b, 'compare')
            if a.obj != b.obj: raise ToolLimit('relational comparison of unrelated pointers')
            x, y = self.iptr(st, a), self.iptr(st, b)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: x < y, 'ule': lambda: x <= y, 'ugt': lambda: x > y, 'uge': lambda: x >= y}[pr]()
        return self.simp(r)
    def peq(self, st, a, b):
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            if isinstance(a, FuncPtr) and isinstance(b, FuncPtr): return a.name == b.name
            return False
        if isinstance(a, MaybePtr) and isinstance(b, Ptr) and b.obj == 0: return a.isnull
        if isinstance(b, MaybePtr) and isinstance(a, Ptr) and a.obj == 0: return b.isnull
        if isinstance(a, MaybePtr) and isinstance(b, MaybePtr):
            return OR(AND(a.isnull, b.isnull), AND(NOT(a.isnull), NOT(b.isnull), self.peq(st, a.ptr, b.ptr)))
        if isinstance(a, MaybePtr): return AND(NOT(a.isnull), self.peq(st, a.ptr, b))
        if isinstance(b, MaybePtr): return AND(NOT(b.isnull), self.peq(st, a, b.ptr))
        if not isinstance(a, Ptr) or not isinstance(b, Ptr): raise ToolLimit('pointer compare %r %r' % (a, b))
        if a.obj != b.obj: return False
        if a.obj == 0: return (a.off - b.off) % 2**64 == 0 if isconc(a.off) and isconc(b.off) else a.off == b.off
        x, y = self.iptr(st, a), self.iptr(st, b)
        return self.simp(x == y) if not (isconc(x) and isconc(y)) else x == y

    def cast(self, st, op, t, t2, v):
        if op in ('bitcast', 'addrspacecast'): return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.obj == 0: return v.off
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
            if isinstance(v, int): return NULL if v == 0 else Ptr(0, v, 0)
            raise ToolLimit('inttoptr')
        if isinstance(v, Undef): return v
        if op in ('uitofp','sitofp','fptoui','fptosi','fpext','fptrunc'):
            raise ToolLimit('floating point')
        w, w2 = t[1], t2[1]
        if op == 'zext':
            if isinstance(v, bool): return int(v)
            if w == 1: 
                b = self.to_bool(v)
                return int(b) if isinstance(b, bool) else BI(b)
            if isinstance(v, (int, BI)) or self.is_intrep(v): return v
            if isinstance(v, PtrInt): raise ToolLimit('zext ptr')
            return z3.ZeroExt(w2 - w, v)
        if op == 'sext':
            if w == 1:
                b = self.to_bool(v)
                M = (1 << w2) - 1
                if isinstance(b, bool): return M if b else 0
                return z3.If(b, z3.BitVecVal(M, w2), z3.BitVecVal(0, w2))
            if isinstance(v, int): return (v - (1 << w) if v >> (w-1) else v) & ((1 << w2) - 1)
            if isinstance(v, BI): return v
            if self.is_intrep(v):
                s = self.to_sint(v, w, st)
                return self.norm(st, s, w2) if not s.eq(v) else v
            return z3.SignExt(w2 - w, v)
        if op == 'trunc':
            if isinstance(v, PtrInt): raise ToolLimit('trunc ptr')
            if w2 == 1: return self.to_bool(v)
            if isinstance(v, int): return v & ((1 << w2) - 1)
            if isinstance(v, BI): return v
            if self.is_intrep(v): return self.norm(st, v, w2)
            return self.simp(z3.Extract(w2 - 1, 0, v))
        raise ToolLimit('cast %s' % op)

    IGNORE = re.compile(r'^llvm\.(dbg|lifetime|experimental\.noalias|assume|stackrestore|invariant)')
    def call(self, st, fr, ins):
        d = ins.a
        callee = d['callee']
        if callee[0] == 'asm':
            raise ToolLimit('inline asm')
        if callee[0] == 'glob':
            name = callee[1]; mod = fr.mod
        else:
            fv = self.val(st, ir.PTR, callee)
            if isinstance(fv, MaybePtr):
                self.oblige(st, NOT(fv.isnull), 'call through null function pointer', 'safety')
                fv = fv.ptr
            if isinstance(fv, Ptr):
                if fv.obj == 0:
                    self.oblige(st, False, 'call through null function pointer', 'safety'); raise Infeasible()
                args = [self.val(st, t, v) for t, v, at in d['args']]
                return self.do_model(st, ins, self.callback_model, 'callback ' + self.obj(st, fv.obj).name, [fv] + args, fr)
            if not isinstance(fv, FuncPtr): raise ToolLimit('indirect call %r' % (fv,))
            name, mod = fv.name, fv.mod
        if name in mod.aliases: name = mod.aliases[name]
        dn = mod.demangled.get(name, name)
        if dn.startswith('llvm.'):
            if self.IGNORE.match(dn): 
                return self.complete_call(st, ins, UNDEF)
        args = [self.val(st, t, v) if t != ('meta',) else None for t, v, at in d['args']]
        m = self.find_model(dn)
        if m is not None:
            return self.do_model(st, ins, m[0], dn, args, fr, m[1])
        f = self.find_func(name, mod)
        if f is None: raise ToolLimit('no body and no contract for ' + dn)
        # byval arguments: none expected at -O0 x86-64 for C++ non-trivial types
        for at in f.pattrs:
            if 'byval' in at: 
                args = self.copy_byval(st, f, args)
                break
        if self.merge_rx is not None and f.ret != ('void',) and self.merge_rx.search(dn):
            r = self.merged_call(st, f, args, ins, dn)
            if r is not None: return r[0]
        self.push(st, f, args, ins)
        return None
    merge_rx = None
    def merged_call(self, st, f, args, ins, dn):
        """run a side-effect-free function on its own and join its paths: one state, an if-then-else result"""
        sub = st.fork(); n0 = len(st.pc); nob = len(self.obligs)
        sub.frames = []; sub.cuts = []
        self.push(sub, f, args, None)
        rets = {}
        def onret(s, v): rets[id(s)] = (s, v)
        sub.frames[-1].onret = onret
        save = self.on_uncaught; thrown = []
        self.on_uncaught = lambda s: thrown.append(s)
        try: done = self.run(sub)
        finally: self.on_uncaught = save
        ok = not thrown and done and all(id(s) in rets for s in done)
        if ok:
            for s in done:
                if not self.mem_pure(st, s): ok = False; break
        if not ok:
            del self.obligs[nob:]
            return None
        alts = [(s.pc[n0:], rets[id(s)][1]) for s in done]
        for s in done: 
            for k, v in s.ghost.items(): st.ghost.setdefault(k, v)
            for oid, o in s.mem.items():
                b = st.mem.get(oid)
                if b is None and oid not in self.base and oid not in st.mem: 
                    if o.alive: st.mem[oid] = o; o.owner = -1
        v = self.join_vals([(AND(*c) if c else True, v) for c, v in alts])
        if v is self.NOJOIN:
            del self.obligs[nob:]
            return None
        if len(alts) == 1: st.pc += alts[0][0]
        else:
            d = self.simp(OR(*[AND(*c) for c, _ in alts]))
            if d is not True and self.sat(st, NOT(d), 500) != 'unsat': st.pc.append(ebool(d))
        return (self.complete_call(st, ins, v),)
    NOJOIN = object()
    def join_vals(self, alts):
        vals = [v for _, v in alts]
        if len(vals) == 1: return vals[0]
        if all(self.same_val(vals[0], v) for v in vals): return vals[0]
        if any(isinstance(v, (Ptr, MaybePtr)) for v in vals):
            isn = False; p = None
            for c, v in alts:
                if isinstance(v, MaybePtr): isn = OR(isn, AND(c, v.isnull)); v = v.ptr
                elif isinstance(v, Ptr) and v.obj == 0: isn = OR(isn, c); continue
                if not isinstance(v, Ptr): return self.NOJOIN
                if p is None: p = v
                elif not self.same_val(p, v): return self.NOJOIN
            isn = self.simp(isn)
            if p is None or isn is True: return NULL
            return p if isn is False else MaybePtr(isn, p)
        if any(isinstance(v, (FuncPtr, PtrInt, Undef, list)) for v in vals): return self.NOJOIN
        if all(isinstance(v, (BI, bool)) or z3.is_bool(v) for v in vals if not isinstance(v, int) or isinstance(v, bool)) and any(isinstance(v, (BI, bool)) or z3.is_expr(v) and z3.is_bool(v) for v in vals):
            if all(isinstance(v, BI) or isinstance(v, int) and v in (0, 1) for v in vals):
                b = OR(*[AND(c, v.b if isinstance(v, BI) else bool(v)) for c, v in alts])
                b = self.simp(b)
                return int(b) if isinstance(b, bool) else BI(b)
            if all(isinstance(v, bool) or z3.is_expr(v) and z3.is_bool(v) for v in vals):
                return self.simp(OR(*[AND(c, v) for c, v in alts]))
            return self.NOJOIN
        exps = [v for v in vals if z3.is_expr(v)]
        if not all(z3.is_expr(v) or isinstance(v, int) for v in vals): return self.NOJOIN
        if exps and any(z3.is_int(v) for v in exps):
            if not all(z3.is_int(v) for v in exps): return self.NOJOIN
            conv = lambda v: iv(v)
        elif exps:
            w = exps[0].size(); conv = lambda v: v if z3.is_expr(v) else z3.BitVecVal(v, w)
        else: conv = lambda v: z3.IntVal(v)
        r = conv(vals[-1])
        for c, v in reversed(alts[:-1]): r = ITE(c, conv(v), r)
        return self.simp(r)
    def mem_pure(self, st, s):
        for oid, o in s.mem.items():
            b = st.mem.get(oid) or self.base.get(oid)
            if b is None or b is o: continue
            if o.kind == 'dead' or not o.alive:
                if b.alive: return False
                continue
            if o.kind != b.kind: return False
            if o.content is not b.content and not (isinstance(o.content, bytes) and o.content == b.content) and not (z3.is_expr(o.content) and z3.is_expr(b.content) and o.content.eq(b.content)): return False
            if o.arr is not b.arr or o.n is not b.n and o.n != b.n: return False
            if o.fields is not b.fields and o.fields != b.fields: return False
            for k, c in o.cells.items():
                d = b.cells.get(k)
                if d is c: continue
                if d is None:
                    try: dv = self.default(st, b, k, c[0], ir.PTR if isinstance(c[1], (MaybePtr, Ptr, FuncPtr)) else ('i', 8 * c[0]))
                    except ToolLimit: return False
                    if not self.same_val(dv, c[1]): return False
                    continue
                if d[0] != c[0] or not self.same_val(d[1], c[1]): return False
            for k in b.cells:
                if k not in o.cells: return False
            for k, c in o.strs.items():
                d = b.strs.get(k)
                if d == c: continue
                if d is None and c in self.base: continue     # lazily materialised
                return False
            for k in b.strs:
                if k not in o.strs: return False
            if o.regions != b.regions: return False
        return True
    def copy_byval(self, st, f, args):
        out = []
        for a, at in zip(args, f.pattrs):
            if 'byval' in at:
                size = f.mod.sizeof(at['byval'])
                o = self.new_obj(st, 'cells', size, 'byval'); o.regions = [(0, size, 'uninit', None)]
                self.memcpy(st, Ptr(o.id), a, size)
                out.append(Ptr(o.id))
            else: out.append(a)
        return out
    def do_model(self, st, ins, fn, dn, args, fr, kind='trusted'):
        if kind == 'contract': self.contracted.add(dn)
        elif kind == 'trusted': self.modelled.add(dn)
        try:
            r = fn(self, st, args, Ctx(dn, ins, fr))
        except Throw as t:
            obj = t.obj
            if obj is None:
                o = self.new_obj(st, 'cells', 64, 'exception'); o.regions = [(0, 64, 'uninit', None)]
                obj = Ptr(o.id)
            return self.throw(st, t.ti, obj)
        if isinstance(r, InlineCall):
            f = r.f
            self.push(st, f, r.args, ins)
            st.frames[-1].onret = r.onret
            return None
        if isinstance(r, Fork):
            out = []
            for s, v in r.alts:
                try:
                    if isinstance(v, Throw):
                        o = self.new_obj(s, 'cells', 64, 'exception'); o.regions = [(0, 64, 'uninit', None)]
                        x = self.throw(s, v.ti, v.obj or Ptr(o.id))
                    elif isinstance(v, InlineCall):
                        self.push(s, v.f, v.args, ins); s.frames[-1].onret = v.onret; x = None
                    else:
                        x = self.complete_call(s, ins, v)
                except (Infeasible, StopPath):
                    continue
                if x is None: out.append(s)
                elif x == 'stop': self.paths += 1
                elif x == 'end': out.append(s)
                else: out.extend(x)
            if not out: raise StopPath()
            return out
        return self.complete_call(st, ins, r)
    noop_calls = None        # functions without effect on the state (diagnostics): a branch that only decides whether they run is not a branch
    def same_way(self, fr, a, b):
        """block in which both successors continue with the same state, or None"""
        k = (fr.f.name, a, b)
        if k not in self.noop_cache:
            r = None
            for x, y in ((a, b), (b, a)):
                if self.noop_to(fr, x, y, 6): r = y; break
            else:
                ta = fr.f.blocks[a][-1]
                if ta.op == 'br' and ta.a[0] is None and self.noop_to(fr, a, ta.a[1], 6) and self.noop_to(fr, b, ta.a[1], 6): r = ta.a[1]
            self.noop_cache[k] = r
        return self.noop_cache[k]
    def noop_to(self, fr, x, y, depth):
        if depth == 0 or fr.f.blocks[y][0].op == 'phi': return False
        for ins in fr.f.blocks[x]:
            if ins.op in ('load', 'gep', 'icmp', 'cast', 'bin', 'extractvalue', 'select'): continue
            if ins.op == 'call':
                c = ins.a['callee']
                if c[0] != 'glob' or not self.noop_calls.search(fr.mod.demangled.get(c[1], c[1])): return False
                continue
            if ins.op == 'br':
                ts = [ins.a[1]] if ins.a[0] is None else [ins.a[1], ins.a[2]]
                return all(t == y or (t != x and self.noop_to(fr, t, y, depth - 1)) for t in ts)
            return False
        return False
    def callback_model(self, eng, st, args, ctx):
        raise ToolLimit('indirect call to unknown callback')

class InlineCall:
    def __init__(self, f, args, onret=None): self.f = f; self.args = args; self.onret = onret
class Fork:
    """several outcomes of a modelled call: list of (state, value | Throw)"""
    def __init__(self, alts): self.alts = alts
class Ctx:
    __slots__ = ('name', 'ins', 'fr')
    def __init__(self, name, ins, fr): self.name = name; self.ins = ins; self.fr = fr

class LoopCtx:
    """what a loop-invariant template can refer to"""
    def __init__(self, eng, entry, s, header, phis, modcells, modobj, modstr, modghost):
        self.eng = eng; self.entry = entry; self.st = s; self.header = header; self.phis = phis
        self.modcells = modcells; self.modobj = modobj; self.modstr = modstr; self.modghost = modghost
        self.depth = entry.frames[-1].depth
    def at(self, st):
        c = LoopCtx.__new__(LoopCtx)
        c.__dict__.update(self.__dict__); c.st = st
        return c
    def reg(self, nm): return self.st.frames[self.depth].regs[nm]
    def entry_reg(self, nm): return self.entry.frames[self.depth].regs[nm]
    def ghost(self, g): return self.st.ghost[g]
    def entry_ghost(self, g): return self.entry.ghost[g]
    def ptr_vars(self, kinds=('bytes', 'abuf', 'elems')):
        """accessors for loop-carried pointers into indexable objects: list of (name, fn(ctx)->Ptr, objid)"""
        out = []
        for nm, ty in self.phis:
            if ty == ir.PTR:
                v = self.entry_reg(nm)
                if isinstance(v, Ptr) and v.obj and self.eng.obj(self.entry, v.obj).kind in kinds:
                    out.append((nm, (lambda c, nm=nm: c.reg(nm)), v.obj))
        for (oid, off), (w, v0) in self.modcells.items():
            o = self.entry.mem.get(oid) or self.eng.base.get(oid)
            c = o.cells.get(off)
            if c and isinstance(c[1], Ptr) and c[1].obj and self.eng.obj(self.entry, c[1].obj).kind in kinds:
                out.append(('m%d_%d' % (oid, off), (lambda cc, oid=oid, off=off: cc.eng.obj(cc.st, oid).cells[off][1]), c[1].obj))
        return out
    def int_vars(self):
        out = []
        for nm, ty in self.phis:
            if ty[0] == 'i' and ty[1] >= 16: out.append((nm, (lambda c, nm=nm, w=ty[1]: c.eng.to_sint(c.reg(nm), w, None)), ty[1]))
        for (oid, off), (w, v0) in self.modcells.items():
            if w >= 2 and not isinstance(v0, (Ptr, MaybePtr, FuncPtr, BI, Undef)):
                out.append(('m%d_%d' % (oid, off), (lambda cc, oid=oid, off=off, w=w: cc.eng.to_sint(cc.eng.obj(cc.st, oid).cells[off][1], w * 8, None)), w * 8))
        return out
    def default_candidates(self):
        c = []
        for nm, fn, oid in self.ptr_vars():
            def lo(cx, fn=fn): 
                i = cx.eng.iptr(cx.st, fn(cx)) if cx.eng.obj(cx.st, fn(cx).obj).stride == 1 else fn(cx).idx
                return iv(i) >= 0 if not isconc(i) else i >= 0
            def hi(cx, fn=fn):
                p = fn(cx); o = cx.eng.obj(cx.st, p.obj); i = cx.eng.iptr(cx.st, p) if o.stride == 1 else p.idx
                n = slen(o.content) if o.kind == 'bytes' else (o.n if o.kind == 'elems' else o.size)
                return ebool(iv(i) <= iv(n)) if not (isconc(i) and isconc(n)) else i <= n
            def ge0(cx, fn=fn):
                p = fn(cx); q = fn(cx.at(cx.entry)); 
                return ebool(iv(p.idx) >= iv(q.idx))
            def le0(cx, fn=fn):
                p = fn(cx); q = fn(cx.at(cx.entry)); 
                return ebool(iv(p.idx) <= iv(q.idx))
            c += [(nm + ' >= begin', lo), (nm + ' <= end', hi), (nm + ' >= initial', ge0), (nm + ' <= initial', le0)]
        for nm, fn, w in self.int_vars():
            def nonneg(cx, fn=fn): 
                v = fn(cx); return v >= 0
            def m1(cx, fn=fn):
                v = fn(cx); return v >= -1
            def ge0(cx, fn=fn):
                v = fn(cx); return ebool(iv(v) >= iv(fn(cx.at(cx.entry))))
            def le0(cx, fn=fn):
                v = fn(cx); return ebool(iv(v) <= iv(fn(cx.at(cx.entry))))
            c += [(nm + ' >= 0', nonneg), (nm + ' >= -1', m1), (nm + ' >= initial', ge0), (nm + ' <= initial', le0)]
        return c
    def assumed(self, handler):
        """bounds assumed while discovering the frame of the loop (dry run only)"""
        out = []
        for nm, fn in self.default_candidates():
            if 'initial' in nm: continue
            try:
                e = fn(self)
                if e is not None and e is not False: out.append((nm, e))
            except Exception: pass
        return out
