"""Run harnesses: compile to IR, verify, summarise."""
import time, os, sys, json, re, traceback
import multiprocessing as mp
from . import ir, build
from .engine import Engine, State, ToolLimit, IRError, Ptr
from . import models

class Result:
    def __init__(self, name): self.name = name; self.obligs = []; self.limit = None; self.paths = 0; self.secs = 0; self.ended = 0; self.info = {}

def load_mods(paths):
    return [ir.Module(p) for p in paths]

def verify(mods, hname, setup=None, timeout_ms=8000, budget_s=120):
    """symbolically execute harness vfh_<hname>; returns Result"""
    r = Result(hname)
    t0 = time.time()
    eng = Engine(mods, timeout_ms=timeout_ms, budget_s=budget_s)
    eng.merge_rx = re.compile(r'^(srcml_(archive|unit)_(get|is|has|error)_|optional_to_c_str)')
    eng.havoc_globals = r'^global_(archive|unit)$'
    models.M(eng); models.intrinsics(eng)
    if setup: setup(eng)
    fn = '@vfh_' + hname
    f = None
    for m in mods:
        if fn in m.funcs: f = m.funcs[fn]
    if f is None: r.limit = 'harness %s not found' % hname; return r
    st = State()
    for pat in getattr(eng, 'inits', ()):
        for m in mods:
            for n, g in m.funcs.items():
                if re.search(pat, n):
                    eng.push(st, g, [], None); d = eng.run(st)
                    if len(d) != 1: r.limit = 'static initialiser %s' % n; return r
                    st = d[0]; st.frames = []
    uncaught = []
    def on_uncaught(s):
        eng.oblige(s, False, 'exception %s escapes' % (s.exc[0],), 'assert')
    eng.on_uncaught = on_uncaught
    try:
        for lab, l in getattr(eng, 'lemma_checks', ()): eng.oblige(st, l, 'lemma: ' + lab, 'lemma')
        st.pc = []
        eng.push(st, f, [], None)
        done = eng.run(st)
        r.ended = len(done)
        # vacuity guard: at least one completed path has a satisfiable path condition ("assert false" at the end must fail)
        r.info['vacuous'] = not any(eng.sat(s, True, 4000) != 'unsat' for s in done[:20])
        reach = {}
        for lab, pc in eng.reach:
            s = State(); s.pc = pc
            if not reach.get(lab): reach[lab] = eng.sat(s, True, 4000) != 'unsat'
        r.info['reach'] = reach
    except ToolLimit as e:
        r.limit = 'tool limit: %s' % e
    except IRError as e:
        r.limit = 'IR: %s' % e
    except RecursionError as e:
        r.limit = 'recursion'
    except Exception as e:
        r.limit = 'internal error: %s: %s' % (type(e).__name__, e)
        r.info['tb'] = traceback.format_exc()
    for o in eng.obligs:
        r.obligs.append({'label': o.label, 'kind': o.kind, 'status': o.status, 'by': o.by, 'secs': round(o.secs, 4), 'where': o.where, 'model': o.model})
    r.paths = eng.paths; r.secs = time.time() - t0
    r.info.update(solver_time=eng.solver_time, queries=eng.nq, inlined=sorted(eng.inlined), trusted=sorted(eng.modelled), contracted=sorted(eng.contracted), cuts=[list(map(str, c)) for c in eng.cutloops])
    return r

if __name__ == '__main__':
    # dev: run.py spec.cpp harness... [--src a.cpp,b.cpp]
    import argparse, importlib
    ap = argparse.ArgumentParser(); ap.add_argument('spec'); ap.add_argument('h', nargs='*'); ap.add_argument('--src', default=''); ap.add_argument('--setup', default=''); ap.add_argument('-v', action='store_true'); ap.add_argument('--budget', type=int, default=120)
    a = ap.parse_args()
    gen = build.generated()
    srcs = [os.path.abspath(a.spec)] + [build.REPO + '/src/' + s for s in a.src.split(',') if s]
    mods = load_mods(build.all_ir(srcs, gen))
    setup = getattr(importlib.import_module(a.setup.split(':')[0]), a.setup.split(':')[1]) if a.setup else None
    hs = a.h or [n[5:] for n in mods[0].funcs if n.startswith('@vfh_')]
    for h in hs:
        r = verify(mods, h, setup, budget_s=a.budget)
        from collections import Counter
        c = Counter((o['kind'], o['status']) for o in r.obligs)
        print(h, 'paths', r.paths, 'ended', r.ended, 'LIMIT ' + r.limit if r.limit else '', dict(c), '%.2fs' % r.secs, 'solver %.2fs q=%d' % (r.info['solver_time'], r.info['queries']), 'VACUOUS' if r.info.get('vacuous') else '', r.info.get('reach'))
        if a.v and 'tb' in r.info: print(r.info['tb'])
        if a.v: print('  inlined', len(r.info['inlined'])); print('  cuts', r.info['cuts']); print('  trusted', r.info['trusted'])
        for o in r.obligs:
            if o['status'] != 'proved': print('   ', o['status'], o['kind'], o['label'], '@', o['where'], o['model'])
