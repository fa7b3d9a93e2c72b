"""Parser for the textual LLVM IR (opaque pointers) that clang-18 emits for /repo's sources.

Only what clang++ -O0 + opt -passes=mem2reg produces is supported; anything else raises
IRError, which the engine reports as a tool limit (never as a violation).
"""
import re, subprocess

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>[ \t\n]+|;[^\n]*)
 | (?P<str>c?"(?:[^"])*")
 | (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>!"[^"]*"|![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+)?(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-fKLMHR]+)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}<>(),=*:|])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if not k:
            raise IRError('token at %r' % s[i:i+40])
        i = k.end()
        if k.lastgroup != 'ws':
            out.append((k.lastgroup, k.group()))
    return out

# ---- types: represented as tuples -------------------------------------------------
# ('i',n) ('ptr',) ('void',) ('f',bits) ('arr',n,t) ('st',(t..),packed) ('named',name) ('fn',ret,args,va) ('vec',n,t) ('label',) ('meta',)
PTR = ('ptr',)
VOID = ('void',)

class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None
    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def eat(self, v):
        if self.peek() == v:
            self.i += 1; return True
        return False
    def expect(self, v):
        if self.peek() != v:
            raise IRError('expected %r got %r at %r' % (v, self.peek(), self.t[max(0,self.i-8):self.i+8]))
        self.i += 1

    def type(self):
        t = self.basetype()
        while True:
            if self.peek() == '(':
                # function type
                self.next(); args = []; va = False
                while not self.eat(')'):
                    if self.eat('...'): va = True
                    else:
                        args.append(self.type())
                        self.skip_param_attrs()
                    self.eat(',')
                t = ('fn', t, tuple(args), va)
            else:
                return t
    def basetype(self):
        v = self.next()
        if v == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.next(); self.next(); self.next()
            return PTR
        if v == 'void': return VOID
        if v[0] == 'i' and v[1:].isdigit(): return ('i', int(v[1:]))
        if v in ('float',): return ('f', 32)
        if v in ('double',): return ('f', 64)
        if v in ('x86_fp80',): return ('f', 80)
        if v == 'label': return ('label',)
        if v == 'metadata': return ('meta',)
        if v == 'token': return ('token',)
        if v == '[':
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect(']')
            return ('arr', n, t)
        if v == '{':
            return ('st', tuple(self.typelist('}')), False)
        if v == '<':
            if self.eat('{'):
                ts = self.typelist('}'); self.expect('>')
                return ('st', tuple(ts), True)
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect('>')
            return ('vec', n, t)
        if v[0] == '%':
            return ('named', v)
        raise IRError('type? %r' % v)
    def typelist(self, end):
        ts = []
        while not self.eat(end):
            ts.append(self.type()); self.eat(',')
        return ts

    ATTRS0 = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone','writeonly','returned','inreg','immarg','nest','swiftself','nofree','noreturn','allocptr','allocalign','dead_on_unwind','writable','tailcc','swifterror','inrange'}
    def skip_param_attrs(self):
        """skips attributes; returns dict with sret/byval types if any"""
        res = {}
        while True:
            v = self.peek()
            if v in self.ATTRS0:
                self.next()
            elif v == 'align':
                self.next()
                if self.eat('('): self.next(); self.expect(')')
                else: self.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null'):
                self.next(); self.expect('('); res['deref'] = self.next(); self.expect(')')
            elif v in ('sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                self.next(); self.expect('('); res[v] = self.type(); self.expect(')')
            elif v in ('range', 'nofpclass', 'memory', 'initializes', 'captures'):
                self.next(); self.skip_paren()
            elif self.kind() == 'attr' or (self.kind() == 'str'):
                self.next()
            else:
                return res
    def skip_paren(self):
        self.expect('('); d = 1
        while d:
            v = self.next()
            if v == '(': d += 1
            elif v == ')': d -= 1

    # ---- values: ('c',int) ('loc',name) ('glob',name) ('null',) ('undef',) ('zero',) ('str',bytes) ('agg',[ (t,v) ]) ('gep',basety,[ (t,v)..]) ('cast',op,t,v,t2) ('f',float)
    def value(self, ty):
        k = self.kind(); v = self.next()
        if k == 'loc': return ('loc', v)
        if k == 'glob': return ('glob', v)
        if k == 'num':
            if ty[0] == 'f': return ('f', v)
            return ('c', int(v) & ((1 << ty[1]) - 1))
        if v == 'true': return ('c', 1)
        if v == 'false': return ('c', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('undef',)
        if k == 'str' and v.startswith('c"'):
            return ('str', unescape(v[2:-1]))
        if v == '[' or v == '{':
            end = ']' if v == '[' else '}'
            el = []
            while not self.eat(end):
                t = self.type(); el.append((t, self.value(t))); self.eat(',')
            return ('agg', el)
        if v == '<':
            if self.eat('{'):
                el = []
                while not self.eat('}'):
                    t = self.type(); el.append((t, self.value(t))); self.eat(',')
                self.expect('>')
                return ('agg', el)
            el = []
            while not self.eat('>'):
                t = self.type(); el.append((t, self.value(t))); self.eat(',')
            return ('vecagg', el)
        if v == 'getelementptr':
            self.eat('inbounds'); 
            self.expect('(')
            if self.eat('inbounds'): pass
            bt = self.type(); self.expect(',')
            ops = []
            while not self.eat(')'):
                if self.eat('inrange'):
                    if self.peek() == '(': self.skip_paren()
                t = self.type(); ops.append((t, self.value(t))); self.eat(',')
            return ('gep', bt, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cast', v, t, x, t2)
        if v in ('sub','add'):
            self.eat('nuw'); self.eat('nsw')
            self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', v, t, a, b)
        if v == 'asm':
            while self.kind() in ('id',): self.next()
            self.next(); self.expect(','); self.next()
            return ('asm',)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return ('glob', self.next())
        if v == '!': 
            return ('meta',)
        if k == 'meta':
            return ('meta',)
        raise IRError('value? %r near %r' % (v, self.t[max(0,self.i-6):self.i+6]))

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('utf8'); i += 1
    return bytes(out)

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')
    def __init__(self, op, res, ty, a, line):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.line = line
    def __repr__(self): return '<%s>' % self.line.strip()[:160]

class Func:
    def __init__(self, name, mod):
        self.name = name; self.mod = mod; self.params = []; self.pattrs = []; self.ret = None; self.blocks = None; self.order = []
        self.text = None; self.va = False; self.linkage = ''
        self._loops = None
    def parse(self):
        if self.blocks is None:
            self.mod._parse_body(self)
        return self
    def loops(self):
        """natural loops: header -> set of blocks"""
        if self._loops is None:
            self.parse()
            self._loops = find_loops(self)
        return self._loops

def succs(b):
    t = b[-1]
    if t.op == 'br': return [x for x in t.a[1:] if x is not None]
    if t.op == 'switch': return [t.a[1]] + [x for _, x in t.a[2]]
    if t.op == 'invoke': return [t.a['normal'], t.a['unwind']]
    return []

def find_loops(f):
    succ = {n: succs(b) for n, b in f.blocks.items()}
    pred = {n: [] for n in f.blocks}
    for n, ss in succ.items():
        for s in ss: pred[s].append(n)
    entry = f.order[0]
    # reachability order
    seen = []; st = [entry]; vis = {entry}
    while st:
        n = st.pop(); seen.append(n)
        for s in succ[n]:
            if s not in vis: vis.add(s); st.append(s)
    allb = set(seen)
    dom = {n: set(allb) for n in seen}; dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for n in seen:
            if n == entry: continue
            ps = [dom[p] for p in pred[n] if p in allb]
            d = set.intersection(*ps) | {n} if ps else {n}
            if d != dom[n]: dom[n] = d; ch = True
    loops = {}
    for n in seen:
        for s in succ[n]:
            if s in dom[n]:
                body = loops.setdefault(s, {s})
                stk = [n]
                while stk:
                    x = stk.pop()
                    if x in body: continue
                    body.add(x)
                    stk.extend(p for p in pred[x] if p in allb)
    return loops

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
FBIN = {'fadd','fsub','fmul','fdiv','frem'}
CASTS = {'trunc','zext','sext','ptrtoint','inttoptr','bitcast','fptoui','fptosi','uitofp','sitofp','fpext','fptrunc','addrspacecast'}

class Module:
    def __init__(self, path=None):
        self.types = {}; self.funcs = {}; self.globals = {}; self.gtext = {}; self.decls = {}; self.aliases = {}
        self._lay = {}
        self.demangled = {}
        if path: self.load(path)

    def load(self, path):
        text = open(path).read()
        lines = text.split('\n')
        i = 0
        n = len(lines)
        syms = []
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    self.types[name] = None
                else:
                    self.types[name] = P(tokenize(rest), self).type()
            elif ln.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
                name = m.group(1)
                if re.match(r'(?:[a-z_]+ )*alias ', m.group(2)):
                    self.aliases[name] = re.findall(r'@"[^"]*"|@[-a-zA-Z$._0-9]+', m.group(2))[-1]
                else:
                    self.gtext[name] = m.group(2)
                syms.append(name)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f = self._header(ln)
                f.text = lines[i+1:j]
                self.funcs[f.name] = f
                syms.append(f.name)
                i = j
            elif ln.startswith('declare'):
                f = self._header(ln)
                self.decls[f.name] = f
                syms.append(f.name)
            i += 1
        self._demangle(syms)
        return self

    def _demangle(self, syms):
        syms = [s for s in syms if s not in self.demangled]
        if not syms: return
        inp = '\n'.join(s[1:].strip('"') for s in syms)
        out = subprocess.run(['c++filt'], input=inp, stdout=subprocess.PIPE, text=True).stdout.split('\n')
        for s, d in zip(syms, out):
            self.demangled[s] = norm_name(d)

    def _header(self, ln):
        p = P(tokenize(ln.rstrip('{ ')), self)
        p.next()
        # skip linkage etc. until a type
        skip = {'dso_local','linkonce_odr','weak_odr','internal','private','hidden','protected','unnamed_addr','local_unnamed_addr','available_externally','external','extern_weak','weak','comdat','fastcc','ccc','noundef','zeroext','signext','nonnull','noalias','common','linkonce'}
        while True:
            v = p.peek()
            if v in skip: p.next(); continue
            if v in ('align',): p.next(); p.next(); continue
            if v in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'): p.next(); p.skip_paren(); continue
            break
        ret = p.type_noparen() if hasattr(p, 'type_noparen') else p.basetype()
        name = p.next()
        f = Func(name, self); f.ret = ret
        p.expect('(')
        k = 0
        while not p.eat(')'):
            if p.eat('...'): f.va = True; continue
            t = p.type(); at = p.skip_param_attrs()
            if p.kind() == 'loc': nm = p.next()
            else: nm = '%%%d' % k
            k += 1
            f.params.append((t, nm)); f.pattrs.append(at)
            p.eat(',')
        f.linkage = ln.split('(')[0]
        return f

    def _parse_body(self, f):
        f.blocks = {}; cur = None
        i = 0; L = f.text
        # unnamed entry label
        nxt = None
        while i < len(L):
            ln = L[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';': continue
            if not ln.startswith(' '):
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                if not m: raise IRError('label? ' + ln)
                lab = '%' + m.group(1)
                cur = []; f.blocks[lab] = cur; f.order.append(lab)
                continue
            if cur is None:
                cur = []; f.blocks['%0e'] = cur; f.order.append('%0e')
            # join multi-line instructions (switch, landingpad, invoke)
            if s.startswith('switch ') and s.endswith('['):
                while L[i].strip() != ']' and not L[i].strip().startswith(']'):
                    ln += ' ' + L[i].strip(); i += 1
                ln += ' ' + L[i].strip(); i += 1
            elif ' = landingpad ' in s:
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i]):
                    ln += ' ' + L[i].strip(); i += 1
            elif re.search(r'(^|= )invoke ', s):
                if ' unwind label ' not in ln:
                    while ' unwind label ' not in ln:
                        ln += ' ' + L[i].strip(); i += 1
            ins = self._ins(ln)
            if ins is not None: cur.append(ins)

    def _ins(self, ln):
        # drop metadata suffixes
        p = P(tokenize(ln), self)
        res = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            res = p.next(); p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'): op = p.next()
        if op in BIN:
            while p.peek() in ('nuw','nsw','exact','disjoint'): p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Ins('bin', res, t, (op, a, b), ln)
        if op in FBIN:
            while p.kind() == 'id' and p.peek() not in ('float','double','x86_fp80'): p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Ins('fbin', res, t, (op, a, b), ln)
        if op in CASTS:
            while p.peek() in ('nneg','nuw','nsw'): p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            return Ins('cast', res, t2, (op, t, a), ln)
        if op == 'icmp':
            pr = p.next(); 
            if pr == 'samesign': pr = p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Ins('icmp', res, ('i', 1), (pr, t, a, b), ln)
        if op == 'fcmp':
            while p.peek() in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next()
            pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Ins('fcmp', res, ('i', 1), (pr, t, a, b), ln)
        if op == 'fneg':
            return Ins('unsupported', res, None, ('fneg',), ln)
        if op == 'alloca':
            p.eat('inalloca'); t = p.type(); cnt = None
            if p.eat(','):
                if p.peek() != 'align':
                    ct = p.type(); cnt = (ct, p.value(ct))
            return Ins('alloca', res, PTR, (t, cnt), ln)
        if op == 'load':
            at = p.eat('atomic'); p.eat('volatile'); t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
            return Ins('load', res, t, (a,), ln)
        if op == 'store':
            at = p.eat('atomic'); p.eat('volatile'); t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
            return Ins('store', None, t, (v, a), ln)
        if op == 'getelementptr':
            while p.peek() in ('inbounds','nuw','nusw'): p.next()
            bt = p.type(); p.expect(','); ops = []
            while p.i < len(p.t) and p.kind() != 'meta':
                t = p.type(); ops.append((t, p.value(t)))
                if not p.eat(','): break
                if p.kind() == 'meta': break
            return Ins('gep', res, PTR, (bt, ops), ln)
        if op in ('call', 'invoke'):
            # cc, ret attrs
            while True:
                v = p.peek()
                if v in ('fastcc','ccc','coldcc') or v in P.ATTRS0: p.next(); continue
                if v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                    p.skip_param_attrs(); continue
                if v in ('nnan','ninf','nsz','arcp','contract','afn','reassoc','fast'): p.next(); continue
                break
            rt = p.basetype()
            fty = None
            if p.peek() == '(':
                p.i -= 0
                # function type in full: rt (args...)
                p.next(); args = []; va = False
                while not p.eat(')'):
                    if p.eat('...'): va = True
                    else: args.append(p.type()); p.skip_param_attrs()
                    p.eat(',')
                fty = ('fn', rt, tuple(args), va)
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.eat(')'):
                t = p.type(); at = p.skip_param_attrs()
                if t == ('meta',):
                    # metadata operand: skip to , or ) at depth 0
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        v = p.next()
                        if v in '([{': d += 1
                        elif v in ')]}': d -= 1
                    args.append((t, ('meta',), at)); p.eat(','); continue
                args.append((t, p.value(t), at)); p.eat(',')
            d = {'callee': callee, 'args': args, 'normal': None, 'unwind': None}
            if op == 'invoke':
                while p.peek() != 'to': p.next()
                p.next(); p.expect('label'); d['normal'] = p.next(); p.expect('unwind'); p.expect('label'); d['unwind'] = p.next()
            return Ins(op, res, rt, d, ln)
        if op == 'br':
            if p.eat('label'):
                return Ins('br', None, None, (None, p.next(), None), ln)
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
            return Ins('br', None, None, (c, a, b), ln)
        if op == 'switch':
            t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
            cs = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cs.append((cv[1], p.next()))
            return Ins('switch', None, t, (c, d, cs), ln)
        if op == 'ret':
            t = p.type()
            return Ins('ret', None, t, (None if t == VOID else p.value(t),), ln)
        if op == 'phi':
            t = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']'); inc.append((v, b))
                if not p.eat(',') or p.kind() == 'meta': break
            return Ins('phi', res, t, inc, ln)
        if op == 'select':
            ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
            return Ins('select', res, t, (c, a, b), ln)
        if op == 'extractvalue':
            t = p.type(); a = p.value(t); idx = []
            while p.eat(','):
                if p.kind() != 'num': break
                idx.append(int(p.next()))
            return Ins('extractvalue', res, None, (t, a, idx), ln)
        if op == 'insertvalue':
            t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); idx = []
            while p.eat(','):
                if p.kind() != 'num': break
                idx.append(int(p.next()))
            return Ins('insertvalue', res, t, (a, t2, b, idx), ln)
        if op == 'landingpad':
            t = p.type(); cl = []
            clean = False
            while p.i < len(p.t):
                v = p.next()
                if v == 'cleanup': clean = True
                elif v == 'catch':
                    ct = p.type(); cl.append(('catch', p.value(ct)))
                elif v == 'filter':
                    ct = p.type(); cl.append(('filter', p.value(ct)))
                else: break
            return Ins('landingpad', res, t, (clean, cl), ln)
        if op == 'resume':
            t = p.type(); return Ins('resume', None, t, (p.value(t),), ln)
        if op == 'unreachable':
            return Ins('unreachable', None, None, (), ln)
        if op == 'freeze':
            t = p.type(); return Ins('freeze', res, t, (p.value(t),), ln)
        if op == 'atomicrmw':
            p.eat('volatile'); o = p.next(); pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
            return Ins('atomicrmw', res, t, (o, a, v), ln)
        return Ins('unsupported', res, None, (op,), ln)

    # ---- layout ----------------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            r = self.types.get(t[1])
            if r is None: raise IRError('opaque type %s' % t[1])
            t = r
        return t
    def size_align(self, t):
        k = t
        if k in self._lay: return self._lay[k]
        t = self.resolve(t)
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n: a *= 2
            r = (a, min(a, 16))
        elif t[0] == 'ptr': r = (8, 8)
        elif t[0] == 'f': r = {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        elif t[0] == 'arr':
            s, a = self.size_align(t[2]); r = (s * t[1], a)
        elif t[0] == 'vec':
            s, a = self.size_align(t[2]); r = (s * t[1], s * t[1])
        elif t[0] == 'st':
            off = 0; al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            raise IRError('size of %r' % (t,))
        self._lay[k] = r
        return r
    def sizeof(self, t): return self.size_align(t)[0]
    def offset(self, t, i):
        t = self.resolve(t); off = 0
        for k, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]: a = 1
            off = (off + a - 1) // a * a
            if k == i: return off, e
            off += s
        raise IRError('offset')

    def global_init(self, name):
        """returns (type, value or None, is_const) for a global"""
        if name in self.globals: return self.globals[name]
        s = self.gtext[name]
        p = P(tokenize(s), self)
        const = False
        while True:
            v = p.next()
            if v == 'constant': const = True; break
            if v == 'global': break
            if v == 'thread_local' and p.peek() == '(': p.skip_paren()
        t = p.type()
        ext = bool(re.match(r'(?:dso_local )?(?:external|extern_weak)\b', s))
        val = None
        if not ext:
            val = p.value(t)
        self.globals[name] = (t, val, const)
        return self.globals[name]

STRLONG = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
def norm_name(d):
    d = d.replace(STRLONG, 'std::string')
    d = d.replace('[abi:cxx11]', '')
    d = d.replace('<char, std::char_traits<char>, std::allocator<char> >', '')
    return d

if __name__ == '__main__':
    import sys, time
    for f in sys.argv[1:]:
        t0 = time.time(); m = Module(f); t1 = time.time()
        for g in m.gtext: m.global_init(g)
        bad = 0
        for fn in m.funcs.values():
            fn.parse(); fn.loops()
            for b in fn.blocks.values():
                for ins in b:
                    if ins.op == 'unsupported': print(ins); bad += 1
        print(f, len(m.funcs), 'load %.2f all %.2f' % (t1 - t0, time.time() - t1), bad)
