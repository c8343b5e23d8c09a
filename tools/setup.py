#!/usr/bin/env python3
"""Builds every check (filling the object cache in /verif/build)."""
import concurrent.futures, os, sys, time
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, os.path.join(V, 'lib'))
import vpbuild as b, checks

def main():
    t = time.time()
    units = {}
    for c in checks.CHECKS.values():
        for s, f, *_ in c.units():
            units[(s, tuple(f))] = 1
    # the slow ones first
    order = sorted(units, key=lambda u: (-checks.weight(u[0]), u[0]))
    bad = []
    def one(u):
        try:
            b.compile_one(u[0], list(u[1]))
        except b.BuildError as e:
            bad.append(str(e))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
        list(ex.map(one, order))
    for k, c in checks.CHECKS.items():
        try:
            c.build(k)
        except b.BuildError as e:
            bad.append(k + ': ' + str(e))
    for e in bad:
        print(e)
    print('built %d objects, %d checks in %.0f s' % (len(units), len(checks.CHECKS), time.time() - t))
    return 1 if bad else 0

sys.exit(main())
