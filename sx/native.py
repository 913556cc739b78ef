"""Builds bup's C extension from /repo's current tree into a scratch directory."""
import os, subprocess, sys

REPO = os.environ.get('SX_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRCS = ['lib/bup/_helpers.c', 'lib/bup/_hashsplit.c', 'lib/bup/bupsplit.c', 'src/bup/pyutil.c', 'src/bup/intprops.h']

def config_dir():
    d = REPO + '/config'
    return d if os.path.exists(d + '/config.h') else HERE + '/fallback'

def include_flags(outdir):
    # sources include "../../config/config.h" relative to themselves, or via -I
    return ['-I' + REPO + '/src', '-I' + REPO + '/lib/bup', '-I/usr/include/python3.12']

def stage(outdir):
    """Lay the C sources out with a config.h beside them."""
    t = outdir + '/csrc'
    os.makedirs(t + '/config', exist_ok=True)
    import shutil
    for d in ('lib/bup', 'src'):
        for root, dirs, files in os.walk(REPO + '/' + d):
            for f in files:
                if f.endswith(('.c', '.h')):
                    rel = os.path.relpath(os.path.join(root, f), REPO)
                    os.makedirs(os.path.dirname(t + '/' + rel), exist_ok=True)
                    shutil.copyfile(os.path.join(root, f), t + '/' + rel)
    shutil.copyfile(config_dir() + '/config.h', t + '/config/config.h')
    return t

CFLAGS = ['-fPIC', '-fno-strict-aliasing', '-fwrapv', '-DNDEBUG', '-D_FILE_OFFSET_BITS=64',
          '-D_DEFAULT_SOURCE', '-w']

def build(outdir, opt='-O1'):
    t = stage(outdir)
    so = outdir + '/_helpers.so'
    objs, procs = [], []
    for f in ('lib/bup/_helpers.c', 'lib/bup/_hashsplit.c', 'lib/bup/bupsplit.c', 'src/bup/pyutil.c'):
        o = outdir + '/' + os.path.basename(f)[:-2] + '.o'
        objs.append(o)
        flags = CFLAGS + (['-DBUP_RL_EXPECTED_XOPEN_SOURCE=600'] if f.endswith('_helpers.c') else [])
        procs.append(subprocess.Popen(['gcc', opt] + flags + ['-I' + t + '/src', '-I/usr/include/python3.12',
                                       '-c', t + '/' + f, '-o', o], stderr=subprocess.PIPE))
    for p in procs:
        err = p.communicate()[1]
        if p.returncode:
            sys.stderr.buffer.write(err)
            raise SystemExit('cannot compile the C extension')
    subprocess.run(['gcc', '-shared', '-o', so] + objs + ['-lacl', '-lreadline'], check=True)
    return so
