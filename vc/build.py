"""Builds everything a check needs from /repo's current working tree (outside /repo).

Cache: every artefact is keyed by the content of *all* files it was made from (compiler-reported
dependencies), so a changed source can never be answered from the cache."""
import hashlib, json, os, subprocess, sys, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
CACHE = os.environ.get('VC_CACHE', os.path.join(VERIF, '.cache'))
MODELS = ['external/dots/model/connection.dots', 'external/dots/model/event.dots', 'external/dots/model/user.dots', 'external/dots/model/descriptors.dots',
          'lib/src/model/authentication.dots', 'lib/src/model/dotstesttypes.dots', 'lib/src/model/daemon.dots', 'lib/src/model/legacy.dots']
DEFS = ['-DDOTS_NO_GLOBAL_TRANSCEIVER', '-DBOOST_ERROR_CODE_HEADER_ONLY', '-DBOOST_SYSTEM_NO_DEPRECATED', '-DDOTS_ENABLE_LOG_DATA', '-DDOTS_ENABLE_LOG_DEBUG',
        '-DFMT_HEADER_ONLY=1', '-DHAS_STRING_VIEW=1', '-DHAS_UNCAUGHT_EXCEPTIONS', '-DONLY_C_LOCALE=1', '-DUSE_OS_TZDB=1', '-DNDEBUG', '-std=gnu++20', '-w']
CLANG = ['clang++-18', '-DDOTS_PROPERTIES_NO_CONSTEXPR_OFFSETS', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug', '-fno-omit-frame-pointer']
GXX = ['g++', '-O1', '-g0']
OPT = 'function(sroa,early-cse,simplifycfg,loop-simplify),globaldce'

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError(f"{' '.join(map(str, cmd))[:400]}\n{r.stdout[-6000:]}")
    return r.stdout
class BuildError(Exception): pass

def fhash(p, memo={}):
    try: st = os.stat(p)
    except OSError: return 'missing'
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in memo: memo[k] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return memo[k]
def hkey(*a): return hashlib.sha256(json.dumps(a).encode()).hexdigest()[:32]

def _mk(): os.makedirs(CACHE, exist_ok=True)
def atomic(tmp, dst): os.replace(tmp, dst)

def irdump():
    _mk(); src = f'{VERIF}/tools/irdump.cpp'; out = f'{CACHE}/irdump-{hkey(fhash(src))}'
    if not os.path.exists(out):
        fl = sh(['llvm-config-18', '--cxxflags']).split()
        fl = [f for f in fl if not f.startswith('-std') and f != '-fno-exceptions']
        tmp = out + f'.{os.getpid()}'
        sh(['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', src, '-o', tmp] + fl + ['-L/usr/lib/llvm-18/lib', '-lLLVM-18']); atomic(tmp, out)
    return out

def gen_headers():
    """headers generated from the .dots models by the repository's own templates"""
    _mk()
    models = [f'{REPO}/{m}' for m in MODELS] + sorted(glob.glob(f'{VERIF}/spec/model/*.dots'))
    ins = models + sorted(glob.glob(f'{REPO}/dots-cg-cpp/src/*'))
    key = hkey([(os.path.basename(p), fhash(p)) for p in ins])
    out = f'{CACHE}/gen-{key}'
    if not os.path.isdir(out):
        tmp = tempfile.mkdtemp(dir=CACHE)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        for m in models:
            sh(['/opt/vp/dcg-venv/bin/dcg.py', f'--config={REPO}/dots-cg-cpp/src/config_cpp.py', f'--templatePath={REPO}/dots-cg-cpp/src', '-o', tmp, m], env=env)
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def incs(): return [f'-I{REPO}/lib/include', f'-I{gen_headers()}', '-isystem', f'{REPO}/external', '-isystem', '/opt/vp/cmake/include', f'-I{VERIF}/spec', f'-DVC_REPO="{REPO}"', f'-I{REPO}']

def _deps_ok(meta):
    try: m = json.load(open(meta))
    except Exception: return None
    for p, h in m['deps']:
        if fhash(p) != h: return None
    return m

def compile_(cmd, src, suffix, extra=()):
    """compile src, content-addressed by its reported dependencies"""
    _mk()
    base = hkey(cmd, src, list(extra), incs(), DEFS, fhash(src))
    slot = f'{CACHE}/obj-{base}'
    # several dependency states may be cached
    for meta in sorted(glob.glob(slot + '-*.meta')):
        m = _deps_ok(meta)
        if m and os.path.exists(m['out']): return m['out']
    with tempfile.TemporaryDirectory(dir=CACHE) as td:
        o = f'{td}/o{suffix}'; d = f'{td}/d'
        sh(cmd + DEFS + incs() + list(extra) + ['-c', src, '-o', o, '-MD', '-MF', d])
        deps = open(d).read().replace('\\\n', ' ').split(':', 1)[1].split()
        deps = sorted(set(os.path.normpath(x) for x in deps))
        dl = [(p, fhash(p)) for p in deps if not p.startswith(('/usr/include', '/usr/lib'))]
        h = hkey(dl)
        out = f'{slot}-{h}{suffix}'
        atomic(o, out)
        tmp = f'{slot}-{h}.meta.{os.getpid()}'; json.dump({'deps': dl, 'out': out}, open(tmp, 'w')); atomic(tmp, f'{slot}-{h}.meta')
    return out

def bitcode(src, extra=()):
    return compile_(CLANG + ['-emit-llvm'], src, '.bc', extra)

def module(name, srcs, roots, extra=(), opt=OPT):
    """compile srcs to IR, link, run the (semantics preserving) clean-up passes, export"""
    with ThreadPoolExecutor(8) as ex: bcs = list(ex.map(lambda s: bitcode(s, extra), srcs))
    dump = irdump()
    key = hkey([fhash(b) for b in bcs], roots, opt, fhash(dump))
    out = f'{CACHE}/mod-{name}-{key}.json'
    if not os.path.exists(out):
        with tempfile.TemporaryDirectory(dir=CACHE) as td:
            cur = bcs[0]
            if len(bcs) > 1:
                cur = f'{td}/l.bc'; sh(['llvm-link-18', *bcs, '-o', cur])
            o = f'{td}/o.bc'
            sh(['opt-18', '-passes=' + opt, cur, '-o', o])
            j = f'{td}/m.json'
            sh([dump, o, j, roots]); atomic(j, out)
    return out

LIBSRC = None
def lib_sources():
    out = []
    for p in sorted(glob.glob(f'{REPO}/lib/src/**/*.cpp', recursive=True)):
        b = os.path.relpath(p, REPO)
        if b.endswith('io/auth/Digest.cpp'): continue
        out.append(p)
    return out

def native(name, src, lib=True, cxx=None, flags=(), objs=(), link=()):
    """native executable from a driver source + the library's sources (all from /repo's current tree)"""
    cmd = list(cxx or GXX) + list(flags)
    jobs = [src] + (lib_sources() if lib is True else [f'{REPO}/{x}' for x in (lib or [])]) + list(objs)
    with ThreadPoolExecutor(8) as ex: os_ = list(ex.map(lambda s: compile_(cmd, s, '.o'), jobs))
    key = hkey([fhash(o) for o in os_], cmd, list(link))
    out = f'{CACHE}/bin-{name}-{key}'
    if not os.path.exists(out):
        tmp = out + f'.{os.getpid()}'
        sh([cmd[0]] + [f for f in cmd[1:] if f.startswith(('-fsanitize', '-fno-sanitize', '-g', '-O'))] + os_ + ['-o', tmp, '-lpthread', '-lboost_program_options', '-Wl,--unresolved-symbols=ignore-all', '-no-pie'] + list(link)); atomic(tmp, out)
    return out
