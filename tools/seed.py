#!/usr/bin/env python3
"""Planted bugs: tools/seed.py make [ids]  (writes seeded/<id>/ from tools/seeds_def.py)
                 tools/seed.py test [ids]  (each in a private mount namespace over a copy of /repo: builds, stable tests pass,
                                            demo passes without and fails with the change, and what the property's check says)"""
import sys, os, subprocess, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
DEMO_H = r'''#include <srcml.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static bool eq(const char* a, const char* b) { return (!a && !b) || (a && b && !strcmp(a, b)); }
'''
DEMO_SH = r'''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++11 -pthread -w -I/repo/src/libsrcml -I/usr/include/libxml2 "$D/demo.cpp" -L/repo/_build/bin -lsrcml -Wl,-rpath,/repo/_build/bin -lxml2 -o "$T/demo" || exit 0
cd "$T" && timeout 100 ./demo
'''
def seed(id, prop, edits, demo, needs, breaks): SEEDS[id] = (prop, edits, demo, needs, breaks)
def sh(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def make(id):
    prop, edits, demo, needs, breaks = SEEDS[id]
    d = H + '/seeded/' + id; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed')
    try:
        files = sorted({f for f, _, _ in edits})
        sh('git', 'init', '-q', t)
        for f in files:
            os.makedirs(os.path.dirname(t + '/' + f), exist_ok=True); shutil.copy('/repo/' + f, t + '/' + f)
        sh('git', '-C', t, 'add', '-A'); sh('git', '-C', t, '-c', 'user.name=x', '-c', 'user.email=x@x', 'commit', '-qm', 'x')
        for f, old, new in edits:
            s = open(t + '/' + f, newline='').read()
            if s.count(old) != 1: print(id, 'EDIT matches', s.count(old), 'times in', f, repr(old)); return False
            open(t + '/' + f, 'w', newline='').write(s.replace(old, new))
        p = subprocess.run(['git', '-C', t, 'diff'], stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(p)
    finally: shutil.rmtree(t)
    open(d + '/demo.cpp', 'w').write(DEMO_H + demo); open(d + '/demo.sh', 'w').write(DEMO_SH.replace('-I/usr/include/libxml2', '-I/usr/include/libxml2 -I/repo/src/client -I"$D" -include algorithm -pthread -DVF_NATIVE') if prop == 'P20' else DEMO_SH)
    if prop == 'P20': shutil.copy(H + '/spec/stubs/ctpl_stl.h', d + '/ctpl_stl.h')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    return True
def test(id, checks=None, tests=True):
    meta = json.load(open(H + '/seeded/%s/meta.json' % id)); prop = meta['property']
    t = '/tmp/seedrepo-' + id; c = '/tmp/seedcache-' + id
    sh('rm', '-rf', t, c); sh('cp', '-a', '/repo', t); os.makedirs(c)
    out = [id, prop]
    try:
        r = sh(H + '/seeded/%s/demo.sh' % id, cwd='/repo'); out.append('clean demo %s' % ('ok' if r.returncode == 0 else 'FAILS ' + r.stdout[-300:]))
        r = sh('git', '-C', t, 'apply', H + '/seeded/%s/patch.diff' % id)
        if r.returncode: return out + ['patch does not apply ' + r.stdout]
        os.makedirs('/tmp/vf_cache', exist_ok=True); sh('sh', '-c', 'cp -a /tmp/vf_cache/* %s/' % c)
        ns = ['unshare', '-m', 'sh', '-c']
        v = c + '/verif'; sh('sh', '-c', 'mkdir %s && cp -a %s/vf %s/spec %s/check.py %s/' % (v, H, H, H, v)); sh('sh', '-c', 'cp %s/known_findings.txt %s/properties.jsonl %s/' % (H, H, v))
        pre = 'mount --bind %s /repo && mount --bind %s /tmp/vf_cache && cd /repo && ' % (t, c)
        if tests:
            r = sh(*ns, pre + 'bash /opt/vp/test.sh /tmp/seedcache-%s/t.json' % id)
            try:
                res = json.load(open(c + '/t.json')); b = json.load(open('/opt/vp/BASELINE.json'))
                stable = b.get('stable') or b.get('passed') or b.get('tests')
                miss = set(stable) - set(res['passed'])
                out.append('tests ok' if not miss else 'TESTS FAIL %d %s' % (len(miss), list(miss)[:3]))
            except Exception as e: out.append('BUILD/TEST ' + str(e) + r.stdout[-500:])
        r = sh(*ns, pre + H + '/seeded/%s/demo.sh' % id); out.append('demo rc %d %s' % (r.returncode, r.stdout.strip()[-150:]))
        for p in checks or [prop]:
            r = sh(*ns, pre + 'cd /tmp/vf_cache/verif && ./check.py %s quick' % p)
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'fails on the real' in l or l.startswith('obligation')]
            out.append('%s rc %d %s' % (p, r.returncode, ' // '.join(v)[:300] if v else 'NOT CAUGHT ' + r.stdout[-200:]))
    finally: sh('rm', '-rf', t, c)
    return out
if __name__ == '__main__':
    exec(open(H + '/tools/seeds_def.py').read())
    a = [x for x in sys.argv[2:] if not x.startswith('-')]
    ids = [i for i in (sorted(SEEDS) if sys.argv[1] == 'make' else sorted(os.listdir(H + '/seeded'))) if not a or any(i.startswith(x) for x in a)]
    if sys.argv[1] == 'make':
        for i in ids: make(i) and print('made', i)
    else:
        with ThreadPoolExecutor(2) as ex:
            for o in ex.map(lambda i: test(i, None, '--fast' not in sys.argv), ids): print('\n   '.join(o), flush=True)
