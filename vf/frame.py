"""Frame contracts: `assigns` of every function over static storage, function by function on the LLVM IR of /repo's sources.

Contract of every function f of the sources given: f does not write to a variable with static storage duration (one that is shared by
threads: not thread_local, not a constant of the image), nor to what such a variable owns or points to, except in the initialization
that C++ runs once (dynamic initialization of namespace scope, and of a local static between __cxa_guard_acquire and _release).
An obligation is one use of such a variable in one function: a store, or a call to which it is passed.  A call is checked against the
frame of the callee (which parameters it writes through, and which it returns or keeps), the least fixed point over all functions of
the sources; a function outside of them has the frame that its signature states (const) or the one in KNOWN.
Values are tracked through copies, address computations, merges and loads (what a variable points to belongs to it), so that the
frame is an over-approximation; pointers to a variable that were stored in memory are reported as kept, and the contract of that
is that they are used as their type states (const)."""
import re, subprocess
NAME = r'(?:%"[^"]*"|%[-a-zA-Z$._0-9]+)'
GLOB = r'(?:@"[^"]*"|@[-a-zA-Z$._0-9]+)'
OPER = re.compile(r'(%s|%s)' % (NAME, GLOB))
DEF = re.compile(r'^define .*?(%s)\((.*)\)[^()]*\{' % GLOB)
def split_args(s):
    out = []; d = 0; cur = ''; q = False
    for ch in s:
        if ch == '"': q = not q
        if not q:
            if ch in '([{<': d += 1
            elif ch in ')]}>': d -= 1
            elif ch == ',' and d == 0: out.append(cur); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur)
    return out
def balanced(s, i):
    """s[i] is '(': index after the matching ')'"""
    d = 0; q = False
    for j in range(i, len(s)):
        if s[j] == '"': q = not q
        if q: continue
        if s[j] == '(': d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0: return j + 1
    return len(s)

class Fn:
    pass

CALL = re.compile(r'^(?:(%s) = )?(?:tail |musttail |notail )?(call|invoke) ' % NAME)
def callee_args(s):
    m = CALL.match(s)
    rest = s[m.end():]
    # the callee is the last @name or %name before the argument list
    for k in re.finditer(r'(%s|%s)\(' % (GLOB, NAME), rest):
        i = k.end() - 1; return m.group(1), k.group(1), split_args(rest[i + 1:balanced(rest, i) - 1]), rest[balanced(rest, i):]
    return m.group(1), None, [], rest

def load(paths):
    """functions of the IR files (one of each linkage name; internal functions and initializers are kept per file) and their globals"""
    fns = {}; globs = {}; types = {}; gtype = {}; vt = {}; bases = {}; alias = {}
    for p in paths:
        cur = None; block = 'entry'
        for ln in open(p):
            if ln.startswith('define '):
                m = re.search(r'(%s)\(' % GLOB, ln)
                if not m: continue
                i = m.end() - 1; name = m.group(1)[1:].strip('"')
                cur = Fn(); cur.file = p; cur.lines = []; cur.params = [(re.findall(NAME, a) or [''])[-1] for a in split_args(ln[i + 1:balanced(ln, i) - 1])]
                cur.name = name; cur.init = bool(re.match(r'__cxx_global_var_init|__cxx_global_array_dtor|_GLOBAL__|__tls_init|_ZTW|_ZTH', name))
                cur.sig = (re.findall(r'\b(void|ptr|i\d+|double|float)\b|([{}])', ln[:m.start()])[-1:], tuple(a.split()[0] if a.strip() else '' for a in split_args(ln[i + 1:balanced(ln, i) - 1])))
                cur.retptr = bool(re.search(r'(ptr|[{\[].*)\s*$', ln[:m.start()].strip())); block = 'entry'
                key = name + '|' + p if ' internal ' in ln[:80] or cur.init else name
                cur.key = key
                if key in fns: cur = None
                else: fns[key] = cur
                skip = cur is None
                continue
            if ln.startswith('}'): cur = None; continue
            if ln.startswith('%'):
                m = re.match(r'^(%s) = type (.*)' % NAME, ln)
                if m: types.setdefault(m.group(1), set()).add(m.group(2))
                continue
            if ln.startswith('@'):
                m = re.match(r'^(%s) = (.*)' % GLOB, ln); g = m.group(1); t = m.group(2)
                al = re.search(r'\balias .*, ptr (%s)' % GLOB, t)
                if al: alias[g[1:].strip('"')] = al.group(1)[1:].strip('"'); continue
                if g.startswith('@_ZTV') and '{ [' in t:
                    cl = g[5:].strip('"')
                    for arr in re.findall(r'\[\d+ x ptr\] \[(.*?)\](?=[,} ])', t):
                        es = split_args(arr); k = max([i for i, x in enumerate(es) if '@_ZTI' in x] or [1])
                        for i, x in enumerate(es[k + 1:]):
                            q = re.search(r'ptr (%s)' % GLOB, x)
                            if q: vt.setdefault(i, set()).add((cl, q.group(1)[1:].strip('"')))
                if g.startswith('@_ZTI'): bases.setdefault(g[5:].strip('"'), set()).update(x for x in re.findall(r'@"?_ZTI([^\s,")\]}]+)', t))
                ty = re.search(r'\b(?:global|constant) (.*)', t)
                if ty: gtype[g + ('|' + p if re.search(r'\b(internal|private)\b', t.split('{')[0].split('[')[0]) else '')] = ty.group(1)
                head = t.split('{')[0].split('[')[0]
                k = 'const' if re.search(r'\bconstant\b', head) else 'tls' if 'thread_local' in head else 'var'
                if g.startswith(('@_ZTV', '@_ZTS', '@_ZTI', '@_ZTT', '@llvm.', '@_ZGV', '@__dso_handle', '@_ZStL8__ioinit')): k = 'const'
                g = g + '|' + p if re.search(r'\b(internal|private)\b', head) else g
                if globs.get(g) != 'const': globs[g] = k
                continue
            if cur is None: continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m: block = m.group(1).strip('"'); continue
            s = ln.strip()
            if not s: continue
            if cur.lines and (s.startswith(('to label', 'catch', 'cleanup', 'filter', ']')) or re.match(r'i\d+ -?\d+, label', s)): cur.lines[-1] = (cur.lines[-1][0], cur.lines[-1][1] + ' ' + s)
            else: cur.lines.append((block, s))
    memo = {}
    def ptrs(t):
        """may a value of this type (text) contain a pointer?"""
        n = re.match(NAME, t)
        if n:
            k = n.group(0)
            if k not in memo: memo[k] = False; memo[k] = not types.get(k) or any('ptr' in x or any(ptrs(y) for y in re.findall(NAME, x)) for x in types[k])
            return memo[k]
        if re.match(r'i\d+\b|float|double', t): return False
        if t[0] in '[{<':
            d = t[:min([i for i in (t.find('zeroinitializer'), t.find(' c"'), t.find('] ['), t.find('} {'), len(t)) if i > 0])]
            return 'ptr' in d or any(ptrs(x) for x in re.findall(NAME, d))
        return True
    flat = {g for g, t in gtype.items() if not ptrs(t)}
    for k in range(6):
        for c in list(bases): bases[c] |= set().union(*[bases.get(x, set()) for x in bases[c]]) if bases[c] else set()
    for a, b in alias.items():
        if a not in fns and b in fns: fns[a] = fns[b]
    return fns, globs, flat, vt, bases

def events(f, globs):
    """the uses of pointers in f, as (kind, block, result, a, b, text)"""
    ev = []
    def G(o): 
        k = o + '|' + f.file
        return k if o[0] == '@' and k in globs else o
    def ops(t): return [G(o) for o in OPER.findall(t)]
    for b, s in f.lines:
        if CALL.match(s):
            r, callee, args, rest = callee_args(s)
            head = s[:s.find(callee + '(')] if callee else s
            ev.append(('call', b, r, callee, [ops(a) if re.match(r'\s*(ptr|\{|%)', a) else [] for a in args], s, bool(re.search(r'(ptr|\})\s*(\(.*\)\s*)?$', head.strip())) or '{' in head))
            continue
        t = re.sub(r', ![-\w.]+ .*', '', s)
        if t.startswith('store '):
            parts = split_args(re.sub(r'^store (atomic |volatile )*', '', t))
            ev.append(('store', b, None, ops(parts[1].split(' align')[0]), ops(parts[0]) if re.match(r'\s*(ptr|\{|\[|%)', parts[0]) else [], s)); continue
        if t.startswith('ret '): ev.append(('ret', b, None, ops(t) if re.match(r'ret (ptr|\{)', t) else [], None, s)); continue
        m = re.match(r'^(%s) = (\S+) (.*)' % NAME, t)
        if not m: continue
        op, rest = m.group(2), m.group(3)
        if op == 'alloca': ev.append(('alloca', b, m.group(1), [], None, s))
        elif op == 'load': ev.append(('load', b, m.group(1), ops(split_args(rest)[1]), bool(re.match(r'(atomic |volatile )*(ptr|\{[^}]*ptr|%|\[)', rest)), s))
        elif op in ('atomicrmw', 'cmpxchg'): ev.append(('store', b, None, ops(split_args(rest)[0]), [], s))
        elif op in ('getelementptr', 'select', 'bitcast', 'extractvalue', 'insertvalue', 'freeze', 'addrspacecast', 'ptrtoint', 'inttoptr'): ev.append(('copy', b, m.group(1), ops(rest), None, s))
        elif op == 'phi': ev.append(('copy', b, m.group(1), [o for x in re.findall(r'\[([^\]]*), [^,\]]*\]', rest) for o in ops(x)], None, s))
    return ev

ARCHIVE = '@the archive of the unit'
def archive_field(paths):
    """the index of the field archive of struct srcml_unit, from the names that clang gives to addresses of fields"""
    for p in paths:
        for ln in open(p):
            m = re.match(r'  %archive\d* = getelementptr inbounds %struct\.srcml_unit, ptr [^,]*, i32 0, i32 (\d+)$', ln.rstrip())
            if m: return int(m.group(1))

def initialized(f):
    """blocks of f in which a guarded local static is being initialized -> names of these"""
    succ = {}; acq = {}; rel = {}; cur = None
    for b, s in f.lines:
        for l in re.findall(r'label %("[^"]*"|[-a-zA-Z$._0-9]+)', s): succ.setdefault(b, []).append(l.strip('"'))
        m = re.search(r'@__cxa_guard_acquire\(ptr[^@]*@("?_ZGV[^\s,")]*)', s)
        if m: acq.setdefault('_Z' + m.group(1).strip('"')[4:], []).append(b)
        m = re.search(r'@__cxa_guard_release\(ptr[^@]*@("?_ZGV[^\s,")]*)', s)
        if m: rel.setdefault('_Z' + m.group(1).strip('"')[4:], []).append(b)
    out = {}
    for g, bs in acq.items():
        todo = [x for b in bs for x in succ.get(b, [])[:1]]; seen = set()
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b); out.setdefault(b, set()).add(g)
            if b not in rel.get(g, []): todo += succ.get(b, [])
    return out

_dem = {}
def demangle(names):
    need = [n for n in names if n not in _dem]
    if need:
        r = subprocess.run(['c++filt'], input='\n'.join(need), capture_output=True, text=True).stdout.split('\n')
        for n, d in zip(need, r): _dem[n] = d
    return _dem

RO = re.compile(r'^(strlen|strcmp|strncmp|strcasecmp|memcmp|memchr|strchr|bcmp|atoi|strtol\w*|__cxa_\w+|__dynamic_cast|_ZSt18_Rb_tree_(in|de)crement\w*|_ZSt\w*__throw\w*|_Unwind_\w+|_ZdlPv\w*|_ZdaPv\w*|llvm\.(?!threadlocal).*|iconv_open|xmlStr\w+|__clang_call_terminate|xmlBufferCreate\w*)$')
WRITES = {'memcpy': {0}, 'memmove': {0}, 'memset': {0}, 'llvm.memcpy': {0}, 'llvm.memmove': {0}, 'llvm.memset': {0}}
def params(name, nargs):
    """by the demangled signature: for each argument None (this, sret or unknown) or its type; and whether it is a const method"""
    tail = _dem.get(name, name).rstrip(); const = tail.endswith(' const'); tail = re.sub(r'( const| volatile|&)*$', '', tail); dep = 0; k = len(tail) - 1
    while k >= 0:
        if tail[k] == ')': dep += 1
        elif tail[k] == '(':
            dep -= 1
            if dep == 0: break
        k -= 1
    if k < 0: return [None] * nargs, const, 0
    ps = [x.strip() for x in split_args(tail[k + 1:-1])]; ps = [] if ps == [''] else ps; shift = nargs - len(ps)
    return [ps[i - shift] if i >= shift else None for i in range(nargs)], const, shift

def library(name, nargs):
    """contract on a function of the C++ library or Boost, whose body is in the IR: (arguments it does not write as they are const, whether it
    is a copy that shares nothing with its source); None for other functions"""
    if not re.match(r'_ZN?K?(St|S[absiod]|5boost|9__gnu_cxx)', name): return None
    ps, const, shift = params(name, nargs)
    ro = {i for i, p in enumerate(ps) if (p is not None and re.search(r' const ?(&|\*)$', p)) or (p is None and const and i == shift - 1)}
    copy = bool(re.search(r'(C[12]|aS)ERKS', name))
    return ro, copy

STREAMS = ('_ZSt3cin', '_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', 'stdout', 'stderr')          # diagnostics: their state is not an input of a parse
def external(name, nargs):
    """frame of a function outside of the sources, by its signature: (params written, params the result or param 0 may keep)"""
    base = re.sub(r'\.p0.*', '', name)
    if base in WRITES: return {(0, 0)}, {(1, 1, 0)} if 'set' not in base else set()
    if RO.match(name) and not name.startswith('llvm.threadlocal'): return set(), set()
    if name.startswith('llvm.threadlocal.address'): return set(), {(0, 0, 'r')}
    if re.match(r'xmlTextWriter|xmlOutputBuffer|xmlXPathRegister|v?fprintf|fputs|fwrite', name): return {(3 if name == 'fwrite' else 1 if name == 'fputs' else 0, d) for d in (0, 1)}, set()
    d = _dem.get(name, name); w = set(); allf = {(i, j) for i in range(nargs) for j in list(range(nargs)) + ['r'] if i != j}
    if re.match(r'_ZNK?St7__cxx1112basic_string|_ZStpl|_ZNK?Ss', name):
        ps, const, shift = params(name, nargs)
        return ({(i, x) for i in range(nargs) for x in (0, 1) if ps[i] is None and not (const and i == shift - 1)}, {(i, x, 'r') for i in range(min(nargs, 1)) for x in (0, 1)})
    if name.startswith('_Z') and '(' in d:
        # parameters: the last parenthesized list
        tail = d.rstrip(); const = tail.endswith(' const'); tail = re.sub(r'( const| volatile|&)*$', '', tail)
        dep = 0; k = len(tail) - 1
        while k >= 0:
            if tail[k] == ')': dep += 1
            elif tail[k] == '(':
                dep -= 1
                if dep == 0: break
            k -= 1
        ps = [x.strip() for x in split_args(tail[k + 1:-1].replace('<', '[').replace('>', ']'))]
        shift = nargs - len(ps)          # this, and sret
        for i in range(nargs):
            p = ps[i - shift] if i >= shift else None
            if p is None: 
                if not (const and i == shift - 1): w.add(i)
            elif re.search(r' const ?(&|\*)$', p) or not re.search(r'[&*]$', p): pass
            else: w.add(i)
        return {(i, d) for i in w for d in (0, 1)}, {(i, d, j) for i, j in allf if j == 'r' or j in w for d in (0, 1)}
    return {(i, d) for i in range(nargs) for d in (0, 1)}, {(i, d, j) for i, j in allf for d in (0, 1)}

def check(paths, entry):
    """contracts of all functions of the IR files.  Returns (list of obligations, information)"""
    fns, globs, flat, vt, bases = load(paths)
    names = set(); field = archive_field(paths); globs[ARCHIVE] = 'var'
    every = list({id(f): f for f in fns.values()}.values())
    for f in every:
        f.ev = events(f, globs); f.initb = initialized(f); f.tags = {p: {('p', i, 0)} for i, p in enumerate(f.params) if p}; f.held = {}; f.W = set(); f.F = set()
        names.add(f.name)
        for e in f.ev:
            if e[0] == 'call' and e[3] and e[3][0] == '@': names.add(e[3][1:].strip('"'))
    demangle(sorted(names))
    def target(f, callee):
        if not callee or callee[0] != '@': return None
        n = callee[1:].strip('"'); return fns.get(n + '|' + f.file) or fns.get(n)
    callers = {}
    taken = set()
    for f in every:
        for b, s in f.lines:
            c = callee_args(s)[1] if CALL.match(s) else None
            t = s.replace(c + '(', '(', 1) if c else s
            for x in re.findall(GLOB, t):
                y = fns.get(x[1:].strip('"') + '|' + f.file) or fns.get(x[1:].strip('"'))
                if y is not None: taken.add(y.key)
    for p in paths:
        for ln in open(p):
            if ln.startswith('@') and ' alias ' not in ln and not ln.startswith('@_ZTV'):
                for x in re.findall(GLOB, ln)[1:]:
                    y = fns.get(x[1:].strip('"') + '|' + p) or fns.get(x[1:].strip('"'))
                    if y is not None: taken.add(y.key)
    bysig = {}
    for k in taken: bysig.setdefault((str(fns[k].sig[0]), fns[k].sig[1]), []).append(k)
    def pointees(e):
        """functions that a call through a pointer may reach: those whose address is taken, of the same type; and whether there may be others"""
        s = e[5]; m = re.search(re.escape(e[3]) + r'\(', s); i = m.end() - 1
        return bysig.get((str(re.findall(r'\b(void|ptr|i\d+|double|float)\b|([{}])', s[:m.start()])[-1:]), tuple(a.split()[0] for a in split_args(s[i + 1:balanced(s, i) - 1]))), ())
    def slots(f, k):
        """functions that a virtual call of slot k may reach; on `this`: of the class of f and the ones derived from it"""
        if k is None: return ()
        k, own = k; m = re.match(r'_ZNK?((?:N?)(?:\d+\w+?)+)$', f.name); cls = None
        if own:
            n = re.sub(r'^_ZNK?', '', f.name); parts = []
            while True:
                d = re.match(r'(\d+)', n)
                if not d: break
                w = int(d.group(1)); parts.append(d.group(1) + n[d.end():d.end() + w]); n = n[d.end() + w:]
            if f.name.startswith('_ZN'):
                q = parts[:-1]; cls = q[0] if len(q) == 1 else 'N' + ''.join(q) + 'E' if q else None
                if re.match(r'C[12]E|D[012]E', n): cls = parts[0] if len(parts) == 1 else 'N' + ''.join(parts) + 'E'
        r = [x for c, x in vt.get(k, ()) if cls is None or c == cls or cls in bases.get(c, ())]
        return sorted(set(r)) or sorted({x for c, x in vt.get(k, ())})
    for f in every:
        f.slot = {}; vp = {}; loads = {}; f.arch = set()
        for b, s in f.lines:
            m = re.match(r'^(%s) = load ptr, ptr (%s)' % (NAME, NAME), s)
            if m: loads[m.group(1)] = m.group(2)
            m = re.match(r'^(%s) = getelementptr inbounds %%struct\.srcml_unit, ptr [^,]*, i32 0, i32 (\d+)$' % NAME, s)
            if m and field is not None and int(m.group(2)) == field: f.arch.add(m.group(1))
            m = re.match(r'^(%s) = getelementptr inbounds ptr, ptr (%s), i64 (\d+)$' % (NAME, NAME), s.split(', !')[0])
            if m and 'vtable' in m.group(2): vp[m.group(1)] = (int(m.group(3)), loads.get(m.group(2)) == '%this')
        for v, a in loads.items():
            if a in vp: f.slot[v] = vp[a]
        for e in f.ev:
            if e[0] == 'call':
                t = target(f, e[3])
                for c in [t] if t is not None else [fns[c] for c in slots(f, f.slot.get(e[3])) if c in fns] + ([fns[c] for c in pointees(e)] if e[3] and e[3][0] == '%' and re.match(r'_ZNK?St8function', f.name) else []): callers.setdefault(c.key, set()).add(f.key)
    ext = {}
    lib = {}
    def frame(f, e):
        t = target(f, e[3])
        if t is not None:
            if t.key not in lib: lib[t.key] = library(t.name, len(t.params))
            if lib[t.key] is None: return t.W, t.F
            ro, copy = lib[t.key]
            return {(i, d) for i, d in t.W if i not in ro}, {x for x in t.F if not (copy and x[2] == 0 and x[0] in ro)}
        n = e[3][1:].strip('"') if e[3] and e[3][0] == '@' else None
        if n is None and e[3] in f.slot and f.slot[e[3]][0] in vt:
            W, F = set(), set()
            for c in slots(f, f.slot[e[3]]):
                t = fns.get(c); q = (c, len(e[4]))
                if t is None and q not in ext: demangle([c]); ext[q] = external(c, len(e[4]))
                w, fl = (t.W, t.F) if t is not None else ext[q]
                if t is not None and len(t.params) != len(e[4]): continue
                W |= w; F |= fl
            return W, F
        if n is None and e[3] and e[3] not in f.slot and re.match(r'_ZNK?St8function', f.name):
            # a std::function holds only functions of the library's own lambdas here (std::function objects do not come from outside)
            cs = pointees(e)
            if cs:
                W, F = set(), set()
                for c in cs: W |= fns[c].W; F |= fns[c].F
                return W, F
        if n is None: k = len(e[4]); return {(i, d) for i in range(k) for d in (0, 1)}, {(i, d, j) for i in range(k) for d in (0, 1) for j in list(range(k)) + ['r'] if i != j}
        q = (n, len(e[4]))
        if q not in ext: ext[q] = external(n, len(e[4]))
        return ext[q]
    NONE = frozenset()
    def of(f, o):
        if o[0] == '@': return {('g', o)} if globs.get(o) in ('var', 'tls') else NONE
        return f.tags.get(o, NONE)
    def deref(f, ts):
        r = set()
        for t in ts:
            if t[0] == 'a': r |= f.held.get(t[1], NONE)
            elif t[0] == 'p': r.add(('p', t[1], 1))
            elif t[0] == 'g' and t[1] in flat: pass
            else: r.add(t)
        return r
    def inside(f, ts):
        """what is reachable by loads from pointers with these tags"""
        return full(f, deref(f, ts))
    def full(f, ts, n=0):
        """what is reachable from pointers with these tags"""
        r = set(ts); todo = list(ts)
        while todo:
            t = todo.pop()
            if t[0] == 'a':
                for u in f.held.get(t[1], NONE):
                    if u not in r: r.add(u); todo.append(u)
        return r
    def run(f):
        ch = True
        while ch:
            ch = False
            def add(v, ts):
                nonlocal ch
                if not ts: return
                o = f.tags.get(v)
                if o is None: f.tags[v] = set(ts); ch = True
                elif not ts <= o: o |= ts; ch = True
            def keep(ptrs, vals):
                nonlocal ch
                for t in ptrs:
                    if t[0] == 'a':
                        o = f.held.setdefault(t[1], set()); v = {x for x in vals if x != t}
                        if not v <= o: o |= v; ch = True
                    elif t[0] == 'p':
                        for v in full(f, vals):
                            if v[0] == 'p' and v[1] != t[1] and (v[1], v[2], t[1]) not in f.F: f.F.add((v[1], v[2], t[1])); ch = True
                            elif v[0] == 'g' and (v, 0, t[1]) not in f.F: f.F.add((v, 0, t[1])); ch = True
            def write(ptrs):
                nonlocal ch
                for t in ptrs:
                    if t[0] == 'p' and (t[1], t[2]) not in f.W: f.W.add((t[1], t[2])); ch = True
            for e in f.ev:
                k = e[0]
                if k == 'alloca': add(e[2], {('a', e[2])})
                elif k == 'copy':
                    for o in e[3]: add(e[2], of(f, o))
                elif k == 'load':
                    if e[4]:
                        for o in e[3]: add(e[2], {('g', ARCHIVE)} if o in f.arch else deref(f, of(f, o)))
                elif k == 'store':
                    ps = set().union(*[of(f, o) for o in e[3]]) if e[3] else set(); vs = set().union(*[of(f, o) for o in e[4]]) if e[4] else set()
                    write(ps); keep(ps, vs)
                elif k == 'ret':
                    for o in e[3]:
                        for t in full(f, of(f, o)):
                            if t[0] == 'p' and (t[1], t[2], 'r') not in f.F: f.F.add((t[1], t[2], 'r')); ch = True
                            elif t[0] == 'g' and (t, 0, 'r') not in f.F: f.F.add((t, 0, 'r')); ch = True
                else:
                    W, F = frame(f, e); at = [set().union(*[of(f, o) for o in a]) if a else set() for a in e[4]]
                    for i, dp in W:
                        if i < len(at): write(inside(f, at[i]) if dp else at[i])
                    for i, dp, j in F:
                        src = {i} if isinstance(i, tuple) else (inside(f, at[i]) if dp else at[i]) if i < len(at) else set()
                        if j == 'r':
                            if e[2] and e[6]: add(e[2], src)
                        elif j < len(at): keep(at[j], src)
    todo = list(fns); inq = set(todo)
    while todo:
        k = todo.pop(); inq.discard(k); f = fns[k]; w, fl = len(f.W), len(f.F)
        run(f)
        if (len(f.W), len(f.F)) != (w, fl):
            for c in callers.get(k, ()):
                if c not in inq: inq.add(c); todo.append(c)
    # ---- the functions that a parse may run: closure over all references, virtual tables included
    tables = {}
    for p in paths:
        for ln in open(p):
            if ln.startswith('@') and not ln.startswith('@llvm.'):
                m = re.match(r'^(%s) = (.*)' % GLOB, ln); tables.setdefault(m.group(1), set()).update(re.findall(GLOB, m.group(2)))
    todo = [f.key for f in every if re.search(entry, f.name)]; entries = len(todo); reach = set(); seen = set()
    todo += [x for f in every if f.init for b, s in f.lines for x in [c for c in re.findall(GLOB, s[s.find('('):] if CALL.match(s) else s) if c[1:].strip('"') in fns]]
    todo = [(t, None) if not t.startswith('@') else (t, None) for t in todo]
    while todo:
        k, fl = todo.pop()
        if (k, fl) in seen: continue
        seen.add((k, fl))
        if k.startswith('@'):
            n = k[1:].strip('"'); f = (fl and fns.get(n + '|' + fl)) or fns.get(n)
            if f is None:
                for x in tables.get(k, ()): todo.append((x, fl))
                continue
        else: f = fns[k]
        if f.key in reach: continue
        reach.add(f.key)
        for b, s in f.lines:
            for x in re.findall(GLOB, s): todo.append((x, f.file))
    obl = []; used = {}; trusted = set(); kept = set(); shared = set(); env = set()
    def uses(f):
        """(statics written, statics only used, how) for every use of a static in f"""
        out = []; fresh = all(re.search(r'mutex|once|lock', e[3] or '', re.I) is None for e in f.ev if e[0] == 'call')
        for e in f.ev:
            if e[0] == 'store':
                hit = {t[1] for o in e[3] for t in of(f, o) if t[0] == 'g'}; use = set(hit); what = 'store'
                if re.search(r'^store atomic|atomicrmw|cmpxchg', e[5].split(' = ')[-1]): what = 'atomic store'
                kp = {t[1] for o in e[4] for t in of(f, o) if t[0] == 'g'}
                tgt = set().union(*[of(f, o) for o in e[3]]) if e[3] else set()
                if not tgt or any(t[0] != 'a' for t in tgt): kept.update((k, f.key) for k in kp)
            elif e[0] == 'load':
                hit = set(); use = {t[1] for o in e[3] for t in of(f, o) if t[0] == 'g'}; what = 'load'
            elif e[0] == 'call':
                W, F = frame(f, e); hit = set(); use = set()
                for i, a in enumerate(e[4]):
                    ts = set().union(*[of(f, o) for o in a]) if a else set()
                    g = {t[1] for t in ts if t[0] == 'g'}; use |= g
                    if (i, 0) in W: hit |= g
                    if (i, 1) in W: hit |= {t[1] for t in inside(f, ts) if t[0] == 'g'}
                what = 'call of ' + (_dem.get(e[3][1:].strip('"'), e[3]) if e[3] and e[3][0] == '@' else 'a function through a pointer')
                if use and target(f, e[3]) is None and not what.startswith('call of llvm.'): trusted.add(what[8:])
            else: continue
            if not fresh: what = 'locked ' + what
            ini = f.initb.get(e[1], set())
            for g in use | hit:
                n = g[1:].split('|')[0].strip('"')
                if n in STREAMS: continue
                out.append((g, g in hit and n not in ini, what, e[5]))
        return out
    # the calls that a parse makes (no references): on these the archive of the unit is not written
    todo = [f.key for f in every if re.search(entry, f.name)]; direct = set()
    while todo:
        k = todo.pop()
        if k in direct: continue
        direct.add(k); f = fns[k]
        for e in f.ev:
            if e[0] != 'call': continue
            t = target(f, e[3])
            for c in [t] if t is not None else [fns[c] for c in slots(f, f.slot.get(e[3])) if c in fns] + ([fns[c] for c in pointees(e)] if e[3] and e[3][0] == '%' else []): todo.append(c.key)
    parse_only = lambda f: f.key in direct
    for f in every: f.uses = [] if f.init else uses(f)
    for k in reach:
        for g, w, what, s in fns[k].uses: shared.add(g)
    trusted &= {what[8:].replace('locked ', '') for k in reach for g, w, what, s in fns[k].uses} | trusted
    for f in every:
        if f.init: continue
        d = _dem.get(f.name, f.name)
        us = f.uses if f.key in reach else [u for u in f.uses if u[0] in shared]
        if f.key not in reach and not us: continue
        us = [u for u in us if u[0] != ARCHIVE or parse_only(f)]
        for g, w, what, s in us: used[g] = used.get(g, 0) + 1
        obl.append((d, f.key in reach, us))
        if f.key in reach:
            for e in f.ev:
                if e[0] == 'call' and e[3] and e[3][0] == '@' and ENV.match(e[3][1:].strip('"')): env.add((d, e[3]))
    return obl, dict(functions=len(obl), reachable=len(reach), entries=entries, statics=used, trusted=trusted, kept=kept, env=env, kinds=globs, field=field)

ENV = re.compile(r'^(time|clock|clock_gettime|gettimeofday|rand|random|srand|rand_r|drand48|lrand48|getpid|gettid|pthread_self|getenv|secure_getenv|tmpnam|mktemp|strtok|setlocale|getcwd|localtime|gmtime|_ZNSt6chrono.*now|_ZNSt13random_device.*|_ZNSt11this_thread.*|_ZNSt6thread.*)$')

def verify(name, paths, entry, scratch=(), own=True, who='a parse', threads=False, guarded=()):
    """the frame contracts as a proof result (see vf/run.py)"""
    import time
    t = time.time(); obligs = []
    r = dict(name=name, obligs=obligs, limit=None, paths=0, ended=0, secs=0, info={})
    try: ob, info = check(paths, entry)
    except Exception as e:
        r['limit'] = 'frame: %s: %s' % (type(e).__name__, e); return r
    if not info['entries'] or info['reachable'] < 100: r['limit'] = 'vacuous: %d entries, %d functions' % (info['entries'], info['reachable']); r['info']['vacuous'] = True; return r
    if own and info['field'] is None: r['limit'] = 'the field archive of srcml_unit was not found'
    by = 'frame (least fixed point over call contracts)'; guards = set()
    for d, rc, us in ob:
        bad = {}
        for g, w, what, s in us:
            if g == ARCHIVE and not own: continue
            n = demangle([g[1:].split('|')[0].strip('"')])[g[1:].split('|')[0].strip('"')]
            if w and info['kinds'].get(g) == 'tls' and any(re.search(a, n) and re.search(b, d) for a, b in scratch): w = False
            if w and what.startswith('locked') and any(re.search(a, n) and re.search(b, d) for a, b in guarded): guards.add(n); continue
            if w: bad.setdefault((n, info['kinds'].get(g), what), s)
            else: obligs.append(dict(status='proved', label='%s: %s of %s does not write it' % (d[:120], what[:80], n[:80]), kind='frame', where='', by=by, model=[]))
        for (n, k, what), s in bad.items():
            soft = k == 'tls' or what.startswith(('locked', 'atomic'))
            obligs.append(dict(status='refuted', label='%s: assigns no memory that another parse may use, but %s by %s' % (d[:160], n[:120], what[:200]), kind='frame-soft' if soft else 'frame-shared', where=s[:200], by=by, model=[]))
        if not bad: obligs.append(dict(status='proved', label='%s: assigns no memory with static storage' % d[:160], kind='frame', where='', by=by, model=[]))
    if threads: info['env'] = {(d, c) for d, c in info['env'] if '_ZNSt6thread' not in c}
    for d, c in sorted(info['env']): obligs.append(dict(status='refuted', label='%s: result does not depend on the process, but calls %s' % (d[:160], c), kind='frame-soft', where='', by=by, model=[]))
    if not info['env']: obligs.append(dict(status='proved', label='no function that %s may run calls one whose result is the time, a random number, the process, the thread or the environment' % who, kind='frame', where='', by=by, model=[]))
    for k, f in sorted(info['kept']): obligs.append(dict(status='unknown', label='%s: keeps no pointer to memory with static storage, but %s' % (demangle([f.split('|')[0]])[f.split('|')[0]][:160], k.split('|')[0]), kind='frame-soft', where='', by=by, model=[]))
    r['paths'] = r['ended'] = info['reachable']; r['secs'] = time.time() - t
    r['info'] = dict(trusted=['const arguments of: ' + x[:100] for x in sorted(info['trusted'])] + ['guarded by a lock: ' + x for x in sorted(guards)], inlined=sorted({d[:160] for d, rc, us in ob if rc}), contracted=[], cuts=[], solver_time=r['secs'], queries=len(obligs))
    return r
