#!/usr/bin/env python3
"""Content-addressed build driver.

Compiles translation units of /repo (never modified) and harnesses of /verif
into /verif/build, keyed by the content of every /repo and /verif file each
object depends on, so a check recompiles exactly what a change to /repo touched.
"""
import hashlib, json, os, re, subprocess, sys, glob, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

INC = ['', 'utils', 'decoder', 'mteval', 'klm', 'training', 'training/utils', 'extractor', 'training/liblbfgs',
       'training/dpmert', 'word-aligner', 'training/dtrain', 'training/mira', 'training/pro', 'training/crf']
BASE = ['-std=c++14', '-g1', '-w', '-include', VERIF + '/harness/compat.h',
        '-DKENLM_MAX_ORDER=6', '-DHAVE_CONFIG_H', '-DHAVE_ZLIB', '-DHAVE_BZLIB', '-DHAVE_XZLIB',
        '-I' + VERIF + '/harness', '-I' + VERIF + '/harness/config', '-I/usr/include/eigen3']
LIBS = ['-lboost_regex', '-lboost_filesystem', '-lboost_serialization', '-lboost_program_options',
        '-lboost_system', '-lboost_thread', '-lz', '-lbz2', '-llzma', '-lpthread', '-lrt']

_hash = {}
_lock = threading.Lock()


def fhash(p):
    with _lock:
        h = _hash.get(p)
    if h is None:
        try:
            with open(p, 'rb') as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = 'missing'
        with _lock:
            _hash[p] = h
    return h


def tracked(p):
    return p.startswith(REPO + '/') or (p.startswith(VERIF + '/') and not p.startswith(BUILD + '/')) \
        or p.startswith(BUILD + '/gen/')


class BuildError(Exception):
    def __init__(self, msg, out=''):
        Exception.__init__(self, msg)
        self.out = out


def incflags(extra_first=()):
    return ['-I' + d for d in extra_first] + ['-I' + os.path.join(REPO, d).rstrip('/') for d in INC]


def gen_lexer():
    """flex rule_lexer.ll -> build/gen/rule_lexer.cc"""
    src = REPO + '/decoder/rule_lexer.ll'
    out = BUILD + '/gen/rule_lexer.cc'
    os.makedirs(os.path.dirname(out), exist_ok=True)
    key = fhash(src)
    kf = out + '.key'
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    r = subprocess.run(['flex', '-o', out + '.tmp', src], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('flex failed', r.stdout)
    os.rename(out + '.tmp', out)
    open(kf, 'w').write(key)
    _hash.pop(out, None)
    return out


def compile_one(src, flags, cxx='g++'):
    """returns path of object"""
    if not os.path.isabs(src):
        src = os.path.join(REPO, src)
    cc = cxx
    fl = list(flags)
    if src.endswith('.c'):
        cc = {'g++': 'gcc', 'clang++': 'clang'}[cxx]
        fl = [f for f in fl if not f.startswith('-std=')]
        # drop forced C++ include
        if '-include' in fl:
            i = fl.index('-include'); del fl[i:i + 2]
    cmd = [cc] + fl + ['-c', src]
    d = os.path.join(BUILD, 'obj', hashlib.sha1('\0'.join(cmd).encode()).hexdigest()[:24])
    obj = os.path.join(d, os.path.basename(src) + '.o')
    meta = os.path.join(d, 'deps.json')
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps.items()):
                return obj
        except ValueError:
            pass
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dep = os.path.join(d, 'd')
        tmp = obj + '.tmp'
        r = subprocess.run(cmd + ['-o', tmp, '-MMD', '-MF', dep], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode:
            raise BuildError('compiling %s failed' % src, ' '.join(cmd) + '\n' + r.stdout[-8000:])
        txt = open(dep).read().replace('\\\n', ' ')
        txt = txt.split(':', 1)[1]
        files = [f.replace('\\ ', ' ') for f in re.split(r'(?<!\\)\s+', txt) if f]
        deps = {}
        for f in files:
            f = os.path.normpath(f if os.path.isabs(f) else os.path.join(os.getcwd(), f))
            if tracked(f):
                deps[f] = fhash(f)
        os.rename(tmp, obj)
        with open(meta + '.tmp', 'w') as f:
            json.dump(deps, f)
        os.rename(meta + '.tmp', meta)
    return obj


# ---- library file sets (globs follow what /repo's own build takes) -----------------------------
def _globs(pats, excl):
    out = []
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            b = os.path.basename(f)
            rel = os.path.relpath(f, REPO)
            if b.endswith('_test.cc') or b in excl or rel in excl:
                continue
            if b.endswith('_main.cc'):
                continue
            out.append(rel)
    return out


def has_main(rel):
    try:
        t = open(os.path.join(REPO, rel), errors='replace').read()
    except OSError:
        return False
    return re.search(r'^\s*int\s+main\s*\(', t, re.M) is not None


LIBSETS = {
    'utils': (['utils/*.cc', 'utils/*.cpp'], []),
    'mteval': (['mteval/*.cc'], []),
    'klm_util': (['klm/util/*.cc', 'klm/util/double-conversion/*.cc', 'klm/util/stream/*.cc'], []),
    'klm_lm': (['klm/lm/*.cc'], []),
    'klm_builder': (['klm/lm/builder/*.cc'], []),
    'klm_search': (['klm/search/*.cc'], ['vertex_generator.cc']),
    'decoder': (['decoder/*.cc'], ['cdec.cc', 'rule_lexer.cc']),
    'extractor': (['extractor/*.cc', 'extractor/features/*.cc'], []),
    'training_utils': (['training/utils/*.cc'], []),
}


def libset(name):
    pats, excl = LIBSETS[name]
    return [f for f in _globs(pats, excl) if not has_main(f)]


def par_compile(items):
    """items: list of (src, flags, cxx) -> objs; raises the first BuildError"""
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_one, *it) for it in items]
        res, err = [], None
        for f in futs:
            try:
                res.append(f.result())
            except BuildError as e:
                err = err or e
        if err:
            raise err
    return res


def build(name, harness, srcs=(), libsets=(), opt='-O2', flags=(), cxx='g++', ldflags=(), lexer=False,
          use_cdec_ff=False, per_src_flags=None, raw_flags=None):
    """Build harness binary. srcs: repo-relative sources (may be globs); libsets: fallback libs
    compiled (whole) only when the minimal list leaves undefined symbols."""
    base = BASE + [opt] + list(flags) + incflags() if raw_flags is None else list(raw_flags)
    lib_items, seen = [], set()
    files = []
    for s in srcs:
        g = [os.path.join(REPO, f) for f in libset(s[1:])] if s.startswith('@') else sorted(glob.glob(os.path.join(REPO, s))) if any(c in s for c in '*?[') else [os.path.join(REPO, s)]
        for f in g:
            if f not in seen:
                seen.add(f); files.append(f)
    if lexer:
        files.append(gen_lexer())
    psf = per_src_flags or {}
    items = [(h.replace('/repo', REPO, 1) if h.startswith('/repo/') else h if os.path.isabs(h) else os.path.join(VERIF, 'harness', h), base + psf.get(h, []), cxx) for h in
             ([harness] if isinstance(harness, str) else harness)]
    nh = len(items)
    for f in files:
        if os.path.exists(f):
            items.append((f, base + psf.get(os.path.relpath(f, REPO), []), cxx))
    objs = par_compile(items)
    out = os.path.join(BUILD, 'bin', name)
    os.makedirs(os.path.dirname(out), exist_ok=True)

    def link(objs):
        key = hashlib.sha1()
        for o in objs:
            key.update(fhash(o).encode()); key.update(o.encode())
        key.update(repr((ldflags, flags, cxx)).encode())
        key = key.hexdigest()
        kf = out + '.key'
        if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
            return None
        for f in (kf,):
            if os.path.exists(f):
                os.unlink(f)
        tmp = out + '.tmp%d' % os.getpid()
        cmd = [cxx] + [f for f in flags if f.startswith('-f')] + ['-o', tmp] + objs + list(ldflags) + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if r.returncode:
            return ' '.join(cmd) + '\n' + r.stdout[-8000:]
        os.rename(tmp, out)
        open(kf, 'w').write(key)
        return None

    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for o in objs:
            _hash.pop(o, None)
        err = link(objs)
        if err and libsets:
            # code moved to another file: take the whole library as an archive
            more = []
            for ls in libsets:
                for f in libset(ls):
                    p = os.path.join(REPO, f)
                    if p not in seen:
                        more.append((p, base, cxx))
            mobjs = []
            with ThreadPoolExecutor(JOBS) as ex:
                def tryc(it):
                    try:
                        return compile_one(*it)
                    except BuildError:
                        return None
                mobjs = [o for o in ex.map(tryc, more) if o]
            ar = out + '.fallback.a'
            if os.path.exists(ar):
                os.unlink(ar)
            if mobjs:
                subprocess.run(['ar', 'crs', ar] + mobjs, check=True)
                tmp = out + '.tmp%d' % os.getpid()
                cmd = [cxx] + [f for f in flags if f.startswith('-f')] + ['-o', tmp] + objs + \
                      ['-Wl,--start-group', ar, '-Wl,--end-group'] + list(ldflags) + LIBS
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if r.returncode == 0:
                    os.rename(tmp, out)
                    err = None
                    if os.path.exists(out + '.key'):
                        os.unlink(out + '.key')
                else:
                    err = err + '\n--- with whole libraries:\n' + r.stdout[-6000:]
        if err:
            raise BuildError('linking %s failed' % name, err)
    return out
