"""Builds check binaries from /repo's working tree with a content-addressed object cache.

An object is identified by the hash of its preprocessed source (comments and layout dropped), flags and compiler,
so objects are rebuilt exactly when what gets compiled changes.
"""
import concurrent.futures, hashlib, os, subprocess, sys, threading
VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
RT = os.path.join(VERIF, 'rt')
CXX = 'g++'
GUARD = 'DLAF_VERIF_HOOKS'

BASE = ['-std=c++17', '-w', '-pipe', '-fopenmp',
        '-DDLAF_ASSERT_ENABLE', '-DDLAF_ASSERT_MODERATE_ENABLE', '-DDLAF_ASSERT_HEAVY_ENABLE',
        '-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__', '-DDLAF_WITH_OPENMP', '-D' + GUARD]
INC = ['-I' + os.path.join(RT), '-I' + os.path.join(RT, 'shim'), '-I' + os.path.join(RT, 'pika'), '-I' + os.path.join(RT, 'mpi'),
       '-I' + os.path.join(RT, 'umpire_inc'), '-I' + os.path.join(VERIF, 'checks'),
       '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]
SHIM = ['-include', os.path.join(RT, 'shim', 'vp_shim.hpp')]
TSAN = ['-fsanitize=thread']
RT_FLAGS = ['-std=c++17', '-O2', '-w', '-pipe', '-include', os.path.join(RT, 'src', 'rt_pre.hpp'), '-I' + RT, '-I' + os.path.join(RT, 'mpi')]
RT_SRC = [os.path.join(RT, 'src', s) for s in ('runtime.cpp', 'explorer.cpp', 'hb.cpp', 'minimpi.cpp', 'alloc.cpp', 'blas_wrap.cpp')]
LIBS = ['-llapackpp', '-lblaspp', '-Wl,--push-state,--no-as-needed', '-lopenblas', '-Wl,--pop-state', '-fopenmp', '-lboost_program_options', '-ldl', '-lpthread']

_lock = threading.Lock()

def log(*a):
    if os.environ.get('VP_VERBOSE'):
        with _lock:
            print(*a, file=sys.stderr, flush=True)

def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

_cxx_id = None
def cxx_id():
    global _cxx_id
    if _cxx_id is None:
        _cxx_id = run([CXX, '--version']).stdout.split(b'\n')[0].decode()
    return _cxx_id

class BuildError(Exception):
    pass

def compile_one(src, flags):
    """returns the object file"""
    p = run([CXX, '-E', '-P'] + flags + [src])
    if p.returncode:
        raise BuildError('preprocessing %s failed:\n%s' % (src, p.stderr.decode()[-6000:]))
    h = hashlib.sha256()
    h.update(cxx_id().encode())
    h.update(' '.join(f for f in flags if not f.startswith('-I')).encode())
    h.update(p.stdout)
    obj = os.path.join(BUILD, 'obj', h.hexdigest()[:32] + '.o')
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + '.%d.%d.tmp.o' % (os.getpid(), threading.get_ident())
        import time
        t = time.time()
        p = run([CXX] + flags + ['-c', src, '-o', tmp])
        if p.returncode:
            raise BuildError('compiling %s failed:\n%s' % (src, p.stderr.decode()[-6000:]))
        os.rename(tmp, obj)
        log('compiled %s in %.1fs' % (os.path.basename(src), time.time() - t))
    return obj

def combine_rt(objs):
    """One object out of the runtime's, with its inline functions made local: the runtime keeps its uninstrumented
    copies, everything else its own (race-instrumented) ones, instead of whichever copy the linker saw first."""
    h = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, 'obj', 'rt-%s.o' % h)
    if os.path.exists(out):
        return out
    tmp = out + '.%d.%d.tmp.o' % (os.getpid(), threading.get_ident())
    p = run(['ld', '-r', '--force-group-allocation', '-o', tmp] + objs)
    if p.returncode:
        raise BuildError('ld -r failed:\n' + p.stderr.decode()[-3000:])
    p = run(['nm', tmp])
    weak = [l.split()[-1] for l in p.stdout.decode().split('\n') if len(l.split()) == 3 and l.split()[1] in 'WV']
    uniq = [l.split()[-1] for l in p.stdout.decode().split('\n') if len(l.split()) == 3 and l.split()[1] == 'u']
    for suf, syms in (('.sym', weak), ('.uni', uniq)):
        with open(tmp + suf, 'w') as f:
            f.write('\n'.join(syms) + '\n')
    p = run(['objcopy', '--localize-symbols=' + tmp + '.sym', '--weaken-symbols=' + tmp + '.uni', tmp])
    os.remove(tmp + '.sym')
    os.remove(tmp + '.uni')
    if p.returncode:
        raise BuildError('objcopy failed:\n' + p.stderr.decode()[-3000:])
    os.rename(tmp, out)
    return out

def combine_instance(objs, suffix, archives=()):
    """One object out of a group with process-wide state, as a private copy: every symbol it defines gets the suffix, so
    that the ranks of an in-process run have their own copies, as separate processes would."""
    h = hashlib.sha256(('v3' + suffix + ' '.join(list(objs) + list(archives))).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, 'obj', 'inst-%s.o' % h)
    if os.path.exists(out):
        return out
    tmp = out + '.%d.%d.tmp.o' % (os.getpid(), threading.get_ident())
    p = run(['ld', '-r', '--force-group-allocation', '-o', tmp] + objs + list(archives))
    if p.returncode:
        raise BuildError('ld -r failed:\n' + p.stderr.decode()[-3000:])
    syms = [l.split() for l in run(['nm', tmp]).stdout.decode().split('\n') if len(l.split()) == 3]
    with open(tmp + '.sym', 'w') as f:
        f.write('\n'.join(x[2] for x in syms if x[1] in 'WV') + '\n')
    with open(tmp + '.ren', 'w') as f:
        f.write('\n'.join('%s %s%s' % (x[2], x[2], suffix) for x in syms if x[1] in 'TBDRCu') + '\n')
    p = run(['objcopy', '--localize-symbols=' + tmp + '.sym', '--redefine-syms=' + tmp + '.ren', tmp])
    os.remove(tmp + '.sym')
    os.remove(tmp + '.ren')
    if p.returncode:
        raise BuildError('objcopy failed:\n' + p.stderr.decode()[-3000:])
    os.rename(tmp, out)
    return out

def build(name, units, wraps=(), jobs=None, libs=LIBS, ninstances=0, inst_archives=()):
    """units: list of (source, flags), or (source, flags, True) if there is a copy of it per rank.
    Returns the path of the binary."""
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs or os.cpu_count()) as ex:
        futs = [ex.submit(compile_one, s, f) for s, f, *_ in units]
        objs = [f.result() for f in futs]
    rt = [o for o, u in zip(objs, units) if u[0] in RT_SRC]
    inst = [o for o, u in zip(objs, units) if len(u) > 2]
    objs = [combine_rt(rt)] + [o for o, u in zip(objs, units) if u[0] not in RT_SRC and len(u) == 2]
    objs += [combine_instance(inst, '__r%d' % k, inst_archives) for k in range(ninstances)]
    link = ['-Wl,--wrap=' + w for w in wraps]
    h = hashlib.sha256((' '.join(objs) + ' '.join(link) + ' '.join(libs)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'bin', '%s-%s' % (name, h))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + '.%d.tmp' % os.getpid()
        p = run([CXX, '-o', tmp] + objs + link + list(libs))
        if p.returncode:
            raise BuildError('linking %s failed:\n%s' % (name, p.stderr.decode()[-6000:]))
        os.rename(tmp, exe)
    return exe
