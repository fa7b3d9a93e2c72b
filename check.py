#!/usr/bin/env python3-vt
"""check.py <property> : decide one property on /repo's current tree (tier from VERIF_TIER, seed from VERIF_SEED).

1. the contract harnesses of the property are verified over the LLVM IR of /repo's current sources (vf/);
2. the same contracts are compiled natively and executed against the real objects (bounded; also the replay of every
   counterexample that the solvers give).
exit 0: the property held on everything explored; exit 1: VIOLATION line printed."""
import sys, os, re, json, time, subprocess, traceback, concurrent.futures as cf, multiprocessing as mp, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vf import build, checks

_mods = {}
def prove_one(paths, hname, setup, budget, timeout_ms):
    from vf import run
    import importlib
    key = tuple(paths)
    if key not in _mods:
        _mods.clear(); _mods[key] = run.load_mods(paths)
    st = None
    if setup:
        m, f = setup.split(':'); st = getattr(importlib.import_module(m), f)
    r = run.verify(_mods[key], hname, st, timeout_ms=timeout_ms, budget_s=budget)
    return dict(name=hname, obligs=r.obligs, limit=r.limit, paths=r.paths, ended=r.ended, secs=r.secs, info={k: v for k, v in r.info.items()})

def prove_frame(name, paths, entry, scratch, opts):
    from vf import frame
    return frame.verify(name, paths, entry, scratch, **opts)

def write_replay(path, hname, model, why):
    with open(path, 'w') as f:
        f.write('%s # %s\n' % (hname, why.replace('\n', ' ')))
        for name, kind, v in model or []:
            if kind in ('str', 'cstr?'):
                if v is None: f.write('%s null -\n' % name)
                else: f.write('%s str %s\n' % (name, ''.join('%02x' % b for b in v) or '-'))
            elif kind == 'int' and v is not None: f.write('%s int %d\n' % (name, v))

def dictionary(pid, path):
    """strings and numbers that the sources of the property mention: values that bounded runs should try"""
    files = []
    try:
        for l in open(HERE + '/properties.jsonl'):
            d = json.loads(l)
            if d['id'] == pid: files = d['anchors']['files']
    except OSError: pass
    strs, nums = {}, {}
    for f in files:
        try: t = open(os.path.join(build.REPO, f), errors='replace').read()
        except OSError: continue
        def tok(m):
            x = m.group(0)
            if x[0] in '"\'' and 3 <= len(x) <= 62:
                try: strs[x[1:-1].encode('latin-1', 'replace').decode('unicode_escape').encode('latin-1', 'replace')] = 1
                except (UnicodeError, ValueError): pass
            return ' '
        t = re.sub(r'/\*.*?\*/|//[^\n]*|^[ \t]*#\s*include[^\n]*|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)+\'', tok, t, flags=re.S | re.M)
        for m in re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|[0-9]+)(?![\w.])', t): nums[int(m, 0 if m[:2] in ('0x', '0X') else 10) & (2**64 - 1)] = 1
        for a, b in re.findall(r'\b([0-9]+)\s*<<\s*([0-9]+)\b', t): nums[(int(a) << min(int(b), 63)) & (2**64 - 1)] = 1
    with open(path, 'w') as o:
        for x in strs:
            if x and b'\0' not in x: o.write('s ' + x.hex() + '\n')
        for x in nums:
            if x > 3: o.write('i %d\n' % x)

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = checks.CHECKS[pid]
    t0 = time.time()
    thorough = tier == 'thorough'
    notes = []; violations = []; proofs = []; natives = []
    rep = build.ensure(os.path.join(HERE, 'replay'))
    nworkers = os.cpu_count() or 4
    deadline = t0 + (780 if not thorough else 3600 * 3)
    try:
        os.environ['VF_DICT'] = os.path.join(build.ensure(build.CACHE), 'dict-' + pid)
        dictionary(pid, os.environ['VF_DICT'])
    except Exception as e: notes.append('dictionary: %s' % e)
    gen = None
    try: gen = build.generated()
    except build.BuildError as e: notes.append('configuration of /repo failed: ' + str(e)[-600:])
    bins = {}; lock = threading.Lock()

    def native_build(i, n):
        try:
            name = n.get('name') or os.path.splitext(n['specs'][0])[0]
            out = os.path.join(build.ensure(build.CACHE), 'nat-%s-%s' % (pid, name))
            build.native([HERE + '/spec/' + s for s in n['specs']] + [HERE + '/spec/vf_native.cpp'], out, gen, drop=n.get('drop', ()), extra=['-DVF_NATIVE'] + n.get('extra', []), lib=n.get('lib', True), objs=n.get('objs', ()))
            hs = subprocess.run([out, 'list'], stdout=subprocess.PIPE, text=True).stdout.split()
            return n, out, hs
        except build.BuildError as e:
            notes.append('native build of %s failed: %s' % (n['specs'][0], str(e)[-500:]))
            return n, None, []

    nat_cfg = cfg.get('native')
    if nat_cfg is None: nat_cfg = [dict(specs=[g['spec']], secs=g.get('secs', 2)) for g in cfg.get('groups', [])]
    if gen:
        pp = cf.ProcessPoolExecutor(nworkers, mp_context=mp.get_context('spawn'))
        with cf.ThreadPoolExecutor(4) as tp:
            def lib():
                try: build.library()
                except build.BuildError as e: notes.append('library build failed: ' + str(e)[-800:])
            flib = tp.submit(lib)
            def group(g):
                if g.get('frame'):
                    import glob
                    srcs = [gen + '/' + x for x in g['gen']] + [x for d in g['dirs'] for x in sorted(glob.glob(build.REPO + '/src/' + d + '/*.cpp'))]
                    try: paths = build.all_ir(srcs, gen)
                    except build.BuildError as e:
                        notes.append('IR of the library: %s' % str(e)[-500:]); return []
                    return [(g['frame'], g, pp.submit(prove_frame, g['frame'], paths, g['entry'], g.get('scratch', ()), g.get('opts', {})))]
                srcs = [HERE + '/spec/' + g['spec']] + [build.REPO + '/src/' + s if not s.startswith('gen:') else gen + '/' + s[4:] for s in g['src']]
                try: paths = build.all_ir(srcs, gen, g.get('extra', []))
                except build.BuildError as e:
                    notes.append('IR of %s: %s' % (g['spec'], str(e)[-500:])); return []
                hs = g.get('harnesses')
                if hs is None:
                    txt = open(paths[0]).read()
                    hs = re.findall(r'^define [^@\n]*@vfh_(\w+)\(', txt, re.M)
                hs = [h for h in hs if h not in g.get('skip', ())]
                b = g.get('budget', 60) * (4 if thorough else 1); to = g.get('timeout_ms', 8000) * (3 if thorough else 1)
                return [(h, g, pp.submit(prove_one, paths, h, g.get('setup'), b, to)) for h in hs]
            gf = [tp.submit(group, g) for g in cfg.get('groups', [])]
            pend = []
            for f in gf: pend += f.result()
            flib.result()
            nb = [tp.submit(native_build, i, n) for i, n in enumerate(nat_cfg)]
            # the proofs have the machine for themselves first; those that take longer go on during the bounded runs
            cf.wait([f for _, _, f in pend], timeout=max(1, min(deadline, t0 + (150 if not thorough else 3600)) - time.time()))
            built = [f.result() for f in nb]
        # ---------------------------------------------------------------- bounded execution of the contracts
        jobs = []
        for n, out, hs in built:
            for h in hs:
                if h not in n.get('only', hs): continue
                w = n.get('weights', {}).get(h, 1)
                secs = n.get('secs', 2) * w * (12 if thorough else 1)
                bins[h] = out
                shards = n.get('shards', {}).get(h, 1) * (4 if thorough and w > 0 else 1)
                for k in range(shards): jobs.append((h, out, secs, n.get('cases', 10**9), k))
        def nat(job):
            h, out, secs, cases, k = job
            rp = os.path.join(rep, '%s_%s_%d.txt' % (pid, h, k))
            if os.path.exists(rp): os.unlink(rp)
            if time.time() + secs > deadline: return dict(name=h, skipped=True)
            t = time.time()
            try: p = subprocess.run([out, 'run', h, str(seed * 1000 + k), str(secs), str(cases), rp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=secs + 150, errors='replace')
            except subprocess.TimeoutExpired: return dict(name=h, noresult='timeout')
            m = re.search(r'cases=(\d+) discards=(\d+) asserts=(\d+) reached=(\d+)', p.stdout)
            d = dict(name=h, cases=int(m.group(1)) if m else 0, discards=int(m.group(2)) if m else 0, asserts=int(m.group(3)) if m else 0, reached=int(m.group(4)) if m else 0, secs=time.time() - t)
            f = re.search(r'^FAIL (\w+): (.*)$', p.stdout, re.M)
            if f:
                d['fail'] = f.group(2)
                # confirm: the recorded choices, or the same run again
                q = subprocess.run([out, 'replay', rp, '1', rp + '.2'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
                if q.returncode != 1:
                    q = subprocess.run([out, 'run', h, str(seed * 1000 + k), str(secs + 20), str(cases), rp + '.2'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
                d['confirmed'] = q.returncode == 1
                d['replay'] = rp
                if os.path.exists(rp + '.2'): os.unlink(rp + '.2')
            elif 'NORESULT' in p.stdout:
                d['noresult'] = p.stdout[-200:]
                if ': timeout' in p.stdout and os.path.exists(rp):
                    # a case that does not end: the same choices again must not end either
                    q = subprocess.run([out, 'replay', rp, '1', rp + '.2'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
                    if ': timeout' in q.stdout: d.update(fail='does not end (no progress for 40 s)', confirmed=True, replay=rp)
                    if os.path.exists(rp + '.2'): os.unlink(rp + '.2')
            return d
        with cf.ThreadPoolExecutor(nworkers) as tp: natives = list(tp.map(nat, jobs))
        known = checks.known(HERE, pid)
        kf = set()
        stop = any(d.get('fail') and d.get('confirmed') and not any(x['harness'] == d['name'] and x['label'] in d['fail'] for x in known) for d in natives)
        for h, g, f in pend:
            try: r = f.result(timeout=1 if stop else max(1, deadline - time.time() - 60))
            except Exception as e: r = dict(name=h, obligs=[], limit='a violation is found already' if stop else '%s: %s' % (type(e).__name__, e), paths=0, ended=0, secs=0, info={})
            r['spec'] = g['spec']; proofs.append(r)
        if all(f.done() for _, _, f in pend): pp.shutdown()
        else:
            procs = list((getattr(pp, '_processes', None) or {}).values()); pp.shutdown(wait=False, cancel_futures=True)
            for q in procs:
                try: q.kill()
                except Exception: pass
        for d in natives:
            if d.get('fail'):
                k = [x for x in known if x['harness'] == d['name'] and x['label'] in d['fail']]
                if k: kf.add((d['name'], k[0]['text'])); continue
                if d['confirmed']: violations.append((d['replay'], False, 'contract %s fails on the real code: %s' % (d['name'], d['fail'])))
                else: notes.append('unconfirmed native failure %s: %s' % (d['name'], d['fail']))
        failed = {d['name'] for d in natives if d.get('fail')}
        # ---------------------------------------------------------------- counterexamples of the proofs
        for r in proofs:
            bad = [o for o in r['obligs'] if o['status'] == 'refuted']
            if not bad or r['name'] in failed: continue
            done = False
            for i, o in enumerate(bad[:6]):
                rp = os.path.join(rep, '%s_%s_cex%d.txt' % (pid, r['name'], i))
                write_replay(rp, r['name'], o['model'], '%s (%s) at %s' % (o['label'], o['kind'], o['where']))
                if bins.get(r['name']):
                    try: q = subprocess.run([bins[r['name']], 'replay', rp, '400', rp + '.run'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120, errors='replace')
                    except subprocess.TimeoutExpired: q = None
                    if q is not None and q.returncode == 1:
                        os.replace(rp + '.run', rp)
                        f = re.search(r'^FAIL (\w+): (.*)$', q.stdout, re.M)
                        violations.append((rp, False, 'obligation "%s" of %s refuted, and the counterexample fails on the real code: %s' % (o['label'], r['name'], f.group(2) if f else ''))); done = True; break
            if not done:
                # exact: harnesses (or harness:regex of the obligation) whose contracts say exactly what callers rely on, so that a refutation counts without a replay
                ex = cfg.get('exact'); hit = [o for o in bad if ex is None or r['name'] in ex or any(x.split(':', 1)[0] == r['name'] and ':' in x and re.search(x.split(':', 1)[1], o['kind'] + ' ' + o['label']) for x in ex)]
                o = (hit or bad)[0]
                rp = os.path.join(rep, '%s_%s_cex0.txt' % (pid, r['name']))
                with open(rp, 'a') as f: f.write('# verifier: obligation "%s" (%s) at %s refuted by %s\n# model: %s\n' % (o['label'], o['kind'], o['where'], o['by'], o['model']))
                if hit:
                    violations.append((rp, True, 'obligation "%s" of %s fails' % (o['label'], r['name'])))
                else: notes.append('refuted without a failing input (abstract contract): %s: %s' % (r['name'], o['label']))
        for h, text in sorted(kf): print('KNOWN-FINDING: property=%s %s' % (pid, text))
    # -------------------------------------------------------------------- evidence
    obl = [o for r in proofs for o in r['obligs']]
    dis = [o for o in obl if o['status'] == 'proved']
    by = {}
    for o in dis: by[o['by']] = by.get(o['by'], 0) + 1
    trusted = sorted({t for r in proofs for t in r['info'].get('trusted', [])})
    inl = sorted({t for r in proofs for t in r['info'].get('inlined', [])})
    contracted = sorted({t for r in proofs for t in r['info'].get('contracted', [])})
    undec = [dict(harness=r['name'], reason=r['limit'] or 'undischarged obligation') for r in proofs if r['limit'] or any(o['status'] == 'unknown' for o in r['obligs'])]
    vac = [r['name'] for r in proofs if r['info'].get('vacuous')] + ['%s: %s unreachable' % (r['name'], k) for r in proofs for k, v in (r['info'].get('reach') or {}).items() if not v]
    samples = []
    for r in proofs[:4]:
        for o in r['obligs'][:2]: samples.append('%s: %s [%s] %s by %s' % (r['name'], o['label'], o['kind'], o['status'], o['by']))
    complete = [r['name'] for r in proofs if not r['limit'] and all(o['status'] == 'proved' for o in r['obligs']) and r['obligs']]
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get('level', 'proof'), wall_s=round(time.time() - t0, 2), violations=len(violations),
        coverage=dict(obligations=len(obl), discharged=len(dis), checker_cmd='python3-vt check.py %s' % pid,
            trusted_base=['vf/ir.py + vf/engine.py: LLVM IR parser and VC generator (this framework)', 'clang 18 -O0 + mem2reg as the semantics of the C++ source', 'z3 5.3.2, cvc5 1.1.2',
                          'contracts on libc/libstdc++ (vf/models.py): ' + ', '.join(trusted)[:3000]],
            backends=by, solver_seconds=round(sum(r['info'].get('solver_time', 0) for r in proofs), 2), queries=sum(r['info'].get('queries', 0) for r in proofs),
            harnesses_fully_proved=complete, undecided=undec, vacuous=vac,
            functions_verified=inl, functions_used_through_contracts=contracted, loops_cut_by_invariants=sorted({str(c) for r in proofs for c in r['info'].get('cuts', [])}), paths=sum(r['paths'] for r in proofs),
            samples=samples,
            bounded=dict(label='bounded execution of the same contracts on the real code (never counted as proved)', evaluations=sum(d.get('cases', 0) for d in natives), discarded=sum(d.get('discards', 0) for d in natives), assertions=sum(d.get('asserts', 0) for d in natives),
                         harnesses={d['name']: d.get('cases', 0) for d in natives}),
            notes=notes),
        assumptions=cfg.get('assumptions', []) + checks.COMMON_ASSUMPTIONS)
    if cfg.get('level') not in (None, 'proof'):
        ev['coverage'].update(explanation=cfg.get('explanation', ''), evaluations=ev['coverage']['bounded']['evaluations'], distinct_nontrivial=sum(d.get('reached', 0) for d in natives) or ev['coverage']['bounded']['evaluations'], rule=cfg.get('rule', 'random contract inputs'))
    build.ensure(HERE + '/evidence')
    with open(HERE + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s %s: obligations %d discharged %d, undecided harnesses %d, vacuous %d; bounded cases %d; %.1fs' % (pid, tier, len(obl), len(dis), len(undec), len(vac), ev['coverage']['bounded']['evaluations'], time.time() - t0))
    for n in notes: print('note:', n[:1500])
    for u in undec: print('undecided:', u['harness'], u['reason'])
    if os.environ.get('VF_VERBOSE'):
        for r in proofs: print('  proof', r['name'], '%.1fs' % r['secs'], len(r['obligs']), r['limit'] or '', [o['label'] for o in r['obligs'] if o['status'] != 'proved'][:4])
        for d in natives: print('  native', d)
    for rp, nof, why in violations:
        print(why)
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if nof else ''))
    sys.stdout.flush()
    return 1 if violations else 0

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); print('check error: no verdict'); rc = 0
    sys.stdout.flush()
    os._exit(rc)
