"""Compile /repo's current sources: to LLVM IR for the proofs, natively for replay and bounded runs."""
import os, subprocess, hashlib, tempfile, concurrent.futures, shutil, sys, time
REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
CACHE = os.environ.get('VF_CACHE', '/tmp/vf_cache')

class BuildError(Exception):
    pass

def includes(gen):
    return ['-I' + REPO + '/src/libsrcml', '-I' + REPO + '/src/parser', '-I' + REPO + '/src/client', '-I' + gen, '-I/usr/include/libxml2',
            '-I' + VERIF + '/spec', '-I' + VERIF + '/spec/stubs', '-I' + REPO, '-DWITH_LIBXSLT', '-include', 'algorithm', '-DVF_REPO="%s"' % REPO]

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd)[:400], p.stdout[-3000:]))
    return p.stdout

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def libdir():
    """private build directory (never /repo/_build): holds the regenerated ANTLR sources and libsrcml.a"""
    return ensure(CACHE) + '/lib-' + sha(REPO)[:8]

FLAGS = '-O1 -g1 -fsanitize=address -fno-omit-frame-pointer'
_conf = []
def configure():
    d = libdir()
    if d in _conf: return d
    ensure(d + '/external')
    for h in ('CLI11.hpp', 'ctpl_stl.h'):
        if not os.path.exists(d + '/external/' + h):
            open(d + '/external/' + h, 'w').write('#error not available\n')
    env = dict(os.environ, CC='gcc', CXX='g++', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8')
    run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS=-include algorithm -Wno-error -w',
         '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=' + FLAGS, '-DCMAKE_C_FLAGS_RELWITHDEBINFO=' + FLAGS,
         '-DBUILD_TESTING=OFF', '-DBUILD_CLIENT_TESTS=OFF', '-DBUILD_LIBSRCML_TESTS=OFF', '-DBUILD_PARSER_TESTS=OFF', '-DBUILD_EXAMPLES=OFF'], env=env)
    _conf.append(d)
    return d

def generated():
    """directory with the lexers and parser that ANTLR generates from /repo's current grammar files"""
    d = configure()
    run(['ninja', '-C', d, 'parser/srcMLParser.cpp', 'parser/KeywordLexer.cpp', 'parser/CommentTextLexer.cpp'])
    return d + '/parser'

def library():
    """libsrcml.a built from /repo's current sources (ASan)"""
    d = configure()
    run(['ninja', '-C', d, 'libsrcml', 'parser'])
    import glob
    return sorted(glob.glob(d + '/src/libsrcml/CMakeFiles/libsrcml.dir/*.o') + glob.glob(d + '/src/parser/CMakeFiles/parser.dir/**/*.o', recursive=True))

LIBS = ['/usr/lib/x86_64-linux-gnu/libxml2.so', '/usr/lib/libantlr-pic.a', '-ldl', '-lpthread', '-lrt', '-lcrypto', '-lxslt', '-lexslt']
def native(srcs, out, gen, drop=(), extra=(), lib=True, objs=()):
    """link driver sources with libsrcml's objects (except those in drop, which the driver #includes)"""
    objs = list(objs) + ([o for o in library() if os.path.basename(o) not in drop] if lib else [])
    ensure(CACHE)
    my = []
    def comp(sr):
        o = tempfile.mktemp(suffix='.o', dir=CACHE)
        run(['g++', '-std=gnu++11', '-w', '-fno-access-control', '-c', sr, '-o', o] + FLAGS.split() + includes(gen) + list(extra))
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex: my = list(ex.map(comp, srcs))
    try: run(['g++'] + FLAGS.split() + my + objs + ['-o', out] + LIBS)
    finally:
        for o in my: os.unlink(o)
    return out

def ensure(d):
    os.makedirs(d, exist_ok=True); return d

def to_ir(src, gen, extra=()):
    """src: absolute path of a .cpp; returns path of the .ll"""
    cmd = [CLANG, '-std=gnu++11', '-O0', '-w', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-access-control'] + includes(gen) + list(extra)
    pre = subprocess.run(cmd + ['-E', '-P', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode: raise BuildError(pre.stderr.decode()[-3000:])
    key = sha(pre.stdout, ' '.join(cmd), src)
    ensure(CACHE)
    out = CACHE + '/ir-' + key + '.ll'
    if not os.path.exists(out):
        t = tempfile.mktemp(suffix='.ll', dir=CACHE)
        run(cmd + ['-S', '-emit-llvm', src, '-o', t])
        run([OPT, '-passes=mem2reg', '-S', t, '-o', t + '.2'])
        os.unlink(t); os.replace(t + '.2', out)
    return out

def all_ir(srcs, gen, extra=()):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: to_ir(s, gen, extra), srcs))
