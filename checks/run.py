#!/usr/bin/env python3
"""run.py <property> quick|thorough [explorer options]: builds the check of a property from /repo and runs it."""
import os, re, subprocess, sys
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, os.path.join(V, 'lib'))
import vpbuild, checks

_sym = {}
def symbol(exe, addr):
    """function names of a code address (violations name the code involved)"""
    if addr not in _sym:
        try:
            o = subprocess.run(['addr2line', '-Cfie', exe, addr], capture_output=True, text=True, timeout=60).stdout.split('\n')
            f = [re.sub(r'<.*>', '<>', x)[:160] for x in o[0::2] if x] + [os.path.basename(x) for x in o[1:2] if not x.startswith('??')]
            _sym[addr] = '[%s]' % ' < '.join(f[:4]) if f else addr
        except (OSError, subprocess.SubprocessError):
            _sym[addr] = addr
    return _sym[addr]

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    rest = sys.argv[3:]
    try:
        exe = checks.CHECKS[pid].build(pid)
    except vpbuild.BuildError as e:
        print('ERROR: the check of %s cannot be built\n%s' % (pid, e))
        return 2
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    cmd = [exe, '--evidence', os.path.join(V, 'evidence', pid + '.json'), '--replay-dir', os.path.join(V, 'replays'),
           '--known', os.path.join(V, 'known_findings.txt')]
    if tier == 'thorough':
        cmd += ['--thorough']
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env.update(checks.CHECKS[pid].env)
    sys.stdout.flush()
    proc = subprocess.Popen(cmd + rest, env=env, stdout=subprocess.PIPE, text=True, errors='replace')
    base = re.escape(os.path.basename(exe)) + r'\+(0x[0-9a-f]+)'
    for line in proc.stdout:
        line = re.sub(base, lambda m: symbol(exe, m.group(1)), line)
        sys.stdout.write(line)
        sys.stdout.flush()
    return proc.wait()

if __name__ == '__main__':
    sys.exit(main())
