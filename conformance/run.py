#!/usr/bin/env python3
"""Runs the unit tests of the repository that need pika (so that they are not part of its build here) on the stand-ins of
pika, MPI and Umpire, under all base schedules and MPI behaviours: run.py [TEST...]. This binds the stand-ins to what
the authors of the tests rely on. Not a check: nothing depends on it."""
import concurrent.futures, hashlib, os, re, subprocess, sys, time
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, os.path.join(V, 'lib'))
import vpbuild as b, checks
T = os.path.join(b.REPO, 'test') + '/'
ALL = checks.MATRIX + checks.COMM + checks.EIGENSOLVER + checks.GEN_EIGENSOLVER + ['auxiliary/norm/mc.cpp', 'inverse/triangular/mc.cpp', 'inverse/cholesky/mc.cpp', 'multiplication/hermitian/mc.cpp', 'blas/scal.cpp']
ALL = list(dict.fromkeys(ALL))
FLAGS = b.BASE + ['-O1'] + b.INC + b.SHIM

def tests():
    out = {}
    for d, _, fs in os.walk(T + 'unit'):
        for f in fs:
            if f == 'CMakeLists.txt':
                s = re.sub(r'#.*', '', open(os.path.join(d, f)).read())
                for m in re.finditer(r'DLAF_addTest\(\s*(\w+)(.*?)\n\s*\)', s, re.S):
                    src = re.search(r'SOURCES\s+(\S+)', m[2])[1]
                    main = re.search(r'USE_MAIN\s+(\w+)', m[2])
                    ranks = re.search(r'MPIRANKS\s+(\d+)', m[2])
                    if src.endswith('.cpp'):
                        out[m[1]] = (os.path.join(d, src), main[1] if main else 'NONE', int(ranks[1]) if ranks else 1)
    return out

def build(name, src, ranks):
    tf = FLAGS + ['-fno-gnu-unique', '-DNUM_MPI_RANKS=%d' % ranks, '-I' + T + 'include', '-include', 'thread', '-include', 'chrono']
    H = os.path.join(V, 'conformance') + '/'
    units = [(s, b.RT_FLAGS) for s in b.RT_SRC] + [(checks.R + s, FLAGS + ["-fno-gnu-unique"], True) for s in ALL] + [(H + 'main.cpp', FLAGS + ['-DRANKS=%d' % ranks])]
    units += [(src, tf, True), (H + 'glue.cpp', tf, True)]
    return b.build('conf_' + name, units, checks.MEMWRAP, ninstances=ranks, inst_archives=['/usr/lib/x86_64-linux-gnu/libgtest.a'])

if __name__ == '__main__':
    ts = tests()
    names = sys.argv[1:] or sorted(ts)
    for n in names:
        src, main, ranks = ts[n]
        if main not in ('PIKA', 'MPIPIKA', 'MPI'):
            continue
        t = time.time()
        try:
            exe = build(n, src, ranks)
        except b.BuildError as e:
            print('%-32s does not build: %s' % (n, str(e)[-1500:]))
            continue
        t1 = time.time()
        # tests that rely on sleeping work under the schedules that let everything else run first
        env = dict(os.environ, VP_HORIZON='100000000')
        if 'sleep_for' in open(src).read():
            env['CONF_POLICIES'] = '33'
        p = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = [l for l in p.stdout.decode(errors='replace').split('\n') if l.strip()]
        print('%-32s rc=%d, build %.0f s, run %.0f s: %s' % (n, p.returncode, t1 - t, time.time() - t1, ' | '.join(o[-4:])[:600]), flush=True)
