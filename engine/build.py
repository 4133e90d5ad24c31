"""Builds, from /repo's current working tree, the IR module and the native replay program of a harness."""
import os, re, subprocess, hashlib, shutil, glob, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import models

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
CACHE = os.environ.get('VF_CACHE', os.path.join(VERIF, '.cache'))
class BuildError(Exception): pass

IRFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-access-control', '-DNDEBUG',
           '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_DEBUG', '-fno-strict-aliasing', '-fno-vectorize', '-fno-slp-vectorize',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-builtin-memcpy', '-DTBB_SUPPRESS_DEPRECATED_MESSAGES', '-w', '-S', '-emit-llvm']
NATFLAGS = ['-std=c++17', '-O1', '-g0', '-ffp-contract=off', '-fno-access-control', '-DNDEBUG', '-DEIGEN_NO_DEBUG', '-DVF_NATIVE',
            '-fsanitize=address', '-fno-omit-frame-pointer', '-DTBB_SUPPRESS_DEPRECATED_MESSAGES', '-w', '-ffunction-sections', '-fdata-sections']
# files of the repository that are only taken when a harness names them
KNOWN = set('''settings.cpp time_integration.cpp solver.cpp electrostatSolver.cpp spinAccumulationSolver.cpp read.cpp save.cpp
 linear_algebra.cpp recentering.cpp tetra.cpp energy.cpp triangle.cpp expression_parser.cpp chronometer.cpp tags.cpp mesh.cpp main.cpp'''.split())

def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd)[:400], "\n".join(l for l in (p.stderr or p.stdout).split("\n") if "error" in l)[:1500] + (p.stderr or p.stdout)[-2000:]))
    return p.stdout

def tree_hash(d):
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.h', '.cpp', '.hpp', '.in', '.cc', '.cxx', '.c', '.yml')):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

class Source:
    """scratch copy of /repo/src with a generated config.h"""
    def __init__(self, variant):
        self.variant = dict(ONE_GAUSS_POINT=0, FIRST_ORDER=0, ENABLE_SEQ=1); self.variant.update(variant)
        self.dir = tempfile.mkdtemp(prefix='vf.')
        self.src = os.path.join(self.dir, 'src')
        def ign(d, names):
            return [n for n in names if n in ('CMakeFiles', 'config.h') and d.rstrip('/').endswith('src') or n.endswith(('.o', '.a'))]
        shutil.copytree(os.path.join(REPO, 'src'), self.src, ignore=ign)
        cfg = os.path.join(self.src, 'config.h')
        if os.path.exists(cfg): os.remove(cfg)
        t = open(os.path.join(self.src, 'config.h.in')).read()
        t = t.replace('@FEELLGOOD_VERSION@', 'verif')
        t = re.sub(r'@\w+@', '', t)
        def cd(m):
            return '#define %s %d' % (m.group(1), self.variant.get(m.group(1), 0))
        t = re.sub(r'#cmakedefine01\s+(\w+)', cd, t)
        t = re.sub(r'#cmakedefine\s+(\w+).*', lambda m: '#define %s' % m.group(1) if self.variant.get(m.group(1)) else '', t)
        open(cfg, 'w').write(t)
        self.hash = tree_hash(self.src)
        # the default settings, which the build of the project embeds with ld; comment lines are dropped in the second text
        y = os.path.join(self.src, 'default-settings.yml')
        full = open(y, encoding='utf-8').read() if os.path.exists(y) else ''
        bare = ''.join(l + '\n' for l in full.split('\n') if l.strip() and not l.lstrip().startswith('#'))
        lit = lambda t: '\n'.join('"' + l.replace('\\', '\\\\').replace('"', '\\"') + '\\n"' for l in t.split('\n')[:-1]) or '""'
        with open(os.path.join(self.dir, 'vf_default_settings.h'), 'w') as f:
            f.write('#define VF_YML_LEN "%d"\n#define VF_YML_FULL %s\n#define VF_YML_BARE %s\n' % (len(full.encode()), lit(full).replace('\n', ' \\\n'), lit(bare).replace('\n', ' \\\n')))
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def key(*parts):
    return hashlib.sha256('\0'.join(map(str, parts)).encode()).hexdigest()[:32]
def fhash(p): return hashlib.sha256(open(p, 'rb').read()).hexdigest()
def harness_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')) + glob.glob(os.path.join(VERIF, 'stubs', '**', '*'), recursive=True)):
        if os.path.isfile(f): h.update(open(f, 'rb').read())
    return h.hexdigest()

def includes(S):
    return ['-I' + S.src, '-I' + os.path.join(S.src, 'algebra'), '-I' + os.path.join(VERIF, 'harness'), '-I' + os.path.join(VERIF, 'stubs'), '-I' + os.path.dirname(S.src)]

def sources(S, srcs):
    out = [os.path.join(S.src, s) for s in srcs if os.path.exists(os.path.join(S.src, s))]
    # files added to the tree after this framework was written (a helper moved to a new file)
    for root, ds, fs in os.walk(S.src):
        for f in fs:
            if f.endswith('.cpp') and f not in KNOWN: out.append(os.path.join(root, f))
    return out

def compile_one(S, path, out, flags, defs, keyhash):
    ck = os.path.join(CACHE, key(keyhash, os.path.basename(path), flags, defs) + os.path.splitext(out)[1])
    if os.path.exists(ck):
        shutil.copy(ck, out); return
    sh([LLVM + 'clang++'] + flags + defs + includes(S) + [path, '-o', out])
    try:
        os.makedirs(CACHE, exist_ok=True)
        shutil.copy(out, ck + '.%d' % os.getpid()); os.rename(ck + '.%d' % os.getpid(), ck)
    except OSError: pass

DEFRE = re.compile(r'^define .*?(@"(?:[^"\\]|\\.)*"|@[-\w.$]+)\(')
def transform(src, dst, noinline, keep_noinline=None):
    """drop bodies of stream code; keep calls of contracted functions visible"""
    nre = re.compile(noinline) if noinline else None
    skipping = False
    with open(src) as fi, open(dst, 'w') as fo:
        for line in fi:
            if skipping:
                if line.startswith('}'): skipping = False
                continue
            if line.startswith('define'):
                m = DEFRE.match(line); n = m.group(1)[1:].strip('"')
                if models.DROP.match(n) or n in DROPEXTRA:
                    d = line.rstrip()[:-1].rstrip()
                    d = re.sub(r' personality ptr @[\w.$]+', '', d)
                    d = re.sub(r' comdat(\(\$(?:"[^"]*"|[-\w.$]+)\))?', '', d)
                    d = re.sub(r' align \d+$', '', d)
                    pre, post = d[:m.start(1)], d[m.start(1):]
                    pre = re.sub(r'\b(linkonce_odr|available_externally|internal|weak_odr|dso_local|hidden|local_unnamed_addr|unnamed_addr|linkonce|weak|private)\b ?', '', pre)
                    post = re.sub(r'\) (local_unnamed_addr|unnamed_addr)', ')', post)
                    post = re.sub(r' %[-\w.$]+(?=[,)])', '', post)
                    fo.write('declare' + pre[6:] + post + '\n'); skipping = True; continue
                if nre and nre.search(n):
                    # insert noinline after the parameter list
                    i = line.rindex('{')
                    # interposable linkage: the optimiser may not look into the body, only the contract is known to callers
                    line = re.sub(r'\balwaysinline\b', '', line[:i])
                    line = re.sub(r'^define (internal |linkonce_odr |weak_odr |linkonce |private |weak )?', 'define weak ', line)
                    m = DEFRE.match(line)
                    k = closeparen(line, m.end(1))
                    line = line[:k+1] + ' noinline' + re.sub(r'\b(local_unnamed_addr|unnamed_addr)\b', '', line[k+1:]) + '{\n'
            fo.write(line)
DROPEXTRA = set()
def closeparen(s, i):
    d = 0
    while True:
        c = s[i]
        if c == '"':
            i = s.index('"', i+1)
        elif c == '(': d += 1
        elif c == ')':
            d -= 1
            if d == 0: return i
        i += 1

def build_ir(S, harness, srcs, defs=(), noinline=None, entries=None, opt='default<O1>', rt=True):
    """-> path of the optimised textual module"""
    hp = os.path.join(VERIF, 'harness', harness)
    cn = re.findall(r'CONTRACT\("([^"]+)"', open(hp).read())
    if cn: noinline = '|'.join(cn + ([noinline] if noinline else []))
    hh = harness_hash()
    work = os.path.join(S.dir, 'ir_' + key(harness, srcs, defs, noinline)[:8]); os.makedirs(work, exist_ok=True)
    files = [(hp, key(S.hash, hh, fhash(hp)))]
    for p in sources(S, srcs): files.append((p, key(S.hash, hh)))
    if rt:
        p = os.path.join(VERIF, 'harness', 'vf_rt.cpp')
        files.append((p, key(S.hash, hh, fhash(p))))
    fk = os.path.join(CACHE, key('final', [k for p, k in files], [os.path.basename(p) for p, k in files], defs, noinline, opt, fhash(__file__), fhash(models.__file__)) + '.final.ll')
    outll = os.path.join(work, 'final.ll')
    if os.path.exists(fk): shutil.copy(fk, outll); return outll
    outs = []
    with ThreadPoolExecutor(6) as ex:
        fut = []
        for i, (p, k) in enumerate(files):
            o = os.path.join(work, 'u%d.ll' % i); outs.append(o)
            fut.append(ex.submit(compile_one, S, p, o, IRFLAGS, list(defs), k))
        for f in fut: f.result()
    linked = os.path.join(work, 'linked.bc')
    sh([LLVM + 'llvm-link'] + outs + ['-o', linked])
    ents = entries or re.findall(r'^\s*VC\((\w+)\)', open(hp).read(), re.M)
    api = os.path.join(work, 'api.txt'); 
    with open(api, 'w') as f:
        for e in ents: f.write('vc_%s\n' % e)
        for e in re.findall(r'STUB\((\w+)\)', open(hp).read()): f.write(e + '\n')
        f.write('vf_*\nvfstub_*\n')
    pruned = os.path.join(work, 'pruned.ll')
    sh([LLVM + 'opt', '-S', '-passes=internalize,globaldce', '-internalize-public-api-file=' + api, linked, '-o', pruned])
    tl = os.path.join(work, 't.ll')
    transform(pruned, tl, noinline)
    sh([LLVM + 'opt', '-S', '-rotation-max-header-size=0', '-passes=' + opt + ',globaldce', tl, '-o', outll])
    for o in outs + [linked, pruned, tl]:
        try: os.remove(o)
        except OSError: pass
    try: shutil.copy(outll, fk)
    except OSError: pass
    return outll

def build_native(S, harness, srcs, defs=(), libs=()):
    hp = os.path.join(VERIF, 'harness', harness)
    hh = harness_hash()
    work = os.path.join(S.dir, 'nat_' + key(harness, srcs, defs)[:8]); os.makedirs(work, exist_ok=True)
    np_ = os.path.join(VERIF, 'harness', 'vf_native.cpp')
    files = [(hp, key(S.hash, hh, fhash(hp))), (np_, key(fhash(np_), hh))]
    for p in sources(S, srcs): files.append((p, key(S.hash, hh)))
    outs = []
    with ThreadPoolExecutor(6) as ex:
        fut = []
        for i, (p, k) in enumerate(files):
            o = os.path.join(work, 'n%d.o' % i); outs.append(o)
            fut.append(ex.submit(compile_one, S, p, o, NATFLAGS + ['-c'], list(defs), k))
        for f in fut: f.result()
    exe = os.path.join(work, 'replay')
    sh([LLVM + 'clang++', '-fsanitize=address', '-Wl,--gc-sections', '-Wl,--wrap=exit'] + outs + ['-o', exe, '-lpthread'] + list(libs))
    return exe
