#!/usr/bin/env python3
"""Create and validate a planted bug: plant.py SPEC.py [ID...]

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs,
what_it_breaks, demo=python source, setup='...')].  Each is applied in a
scratch copy of /repo, built, and demo must pass on the unpatched copy and
fail on the patched one; then seeded/<id>/ is written.  With --tests the
whole test suite is left to 'vcheck --bug ID'; only test/int is run here.
"""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    scratch = '/tmp/plant.%d' % os.getpid()
    try:
        subprocess.run(['cp', '-a', '/repo', scratch], check=True)
        for b in spec['BUGS']:
            if want and b['id'] not in want:
                continue
            sh(['git', 'checkout', '-q', '--', '.'], scratch)
            d = f'/tmp/plantdemo.{os.getpid()}'
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(d + '/demo.py', 'w') as f:
                f.write(b['demo'])
            with open(d + '/demo.sh', 'w') as f:
                f.write('#!/bin/sh\nexec dev/bup-python "$(dirname "$0")/demo.py"\n')
            has_c = any(e[0].endswith(('.c', '.h')) for e in b['edits'])
            if has_c:
                sh(['make', '-j8', 'lib/bup/_helpers.so'], scratch)
            r0 = sh(['sh', d + '/demo.sh'], scratch)
            ok = r0.returncode == 0
            if not ok:
                print(b['id'], 'demo FAILS on clean tree', r0.stdout.decode()[-1500:]); continue
            bad = False
            for fn, old, new in b['edits']:
                p = os.path.join(scratch, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], fn, 'old text count', s.count(old)); bad = True; break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                continue
            if has_c:
                m = sh(['make', '-j8', 'lib/bup/_helpers.so'], scratch)
                if m.returncode:
                    print(b['id'], 'build failed', m.stdout.decode()[-1500:]); continue
            r1 = sh(['sh', d + '/demo.sh'], scratch)
            if r1.returncode == 0:
                print(b['id'], 'demo does not fail with the patch'); continue
            t = sh(['sh', '-c', 'env --default-signal=INT ./pytest -q -x -p no:cacheprovider test/int --deselect test/int/test_index.py::test_index_basic --deselect test/int/test_metadata.py::test_maximal_metadata' ], scratch,
                   env={**os.environ, 'PATH': scratch + '/dev/shadow-bin:' + os.environ['PATH']})
            tail = t.stdout.decode('utf-8', 'replace').strip().splitlines()[-4:]
            out = os.path.join(V, 'seeded', b['id'])
            if t.returncode:
                print(b['id'], 'TESTS FAIL', tail)
                continue
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            diff = sh(['git', 'diff'], scratch).stdout
            open(out + '/patch.diff', 'wb').write(diff)
            for n in ('demo.py', 'demo.sh'):
                shutil.copy(d + '/' + n, out)
            json.dump({'property': b['property'], 'needs': b['needs'],
                       'what_it_breaks': b['what_it_breaks']},
                      open(out + '/meta.json', 'w'), indent=1)
            print(b['id'], 'ok:', r1.stdout.decode().strip().splitlines()[-1:], tail[-1:])
            if has_c:
                sh(['git', 'checkout', '-q', '--', '.'], scratch)
                sh(['make', '-j8', 'lib/bup/_helpers.so'], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(f'/tmp/plantdemo.{os.getpid()}', ignore_errors=True)
main()
