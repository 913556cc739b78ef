"""Bounded model checking of bup's C sources with CBMC."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from . import native

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Job:
    def __init__(self, name, source, entry='harness', unwind=12, unwindset=(), defines=(), flags=(),
                 reach=(), replay=None, functions=(), bounds='', timeout=800, solver=(), safety=True):
        self.__dict__.update(locals())
        del self.__dict__['self']


def _val(v):
    """A CBMC JSON value to Python."""
    if v is None: return None
    n = v.get('name')
    if n == 'array': return [_val(e['value']) for e in v['elements']]
    if n == 'struct': return {m['name']: _val(m['value']) for m in v['members']}
    if 'binary' in v and n in ('integer', 'bitvector', 'boolean', 'c_bool', 'unsignedbv', 'signedbv'):
        b = v['binary']
        if v.get('type', '').startswith('unsigned'):
            return int(b, 2)
        d = v.get('data')
        try: return int(re.sub(r'[uUlL]+$', '', str(d)))
        except ValueError: return int(b, 2)
    return v.get('data')


def run_job(job, workdir, csrc, seed):
    d = '%s/cbmc-%s' % (workdir, re.sub(r'\W+', '_', job.name))
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    src, gb = d + '/h.c', d + '/h.gb'
    with open(src, 'w') as f: f.write(job.source)
    inc = ['-I' + csrc, '-I' + csrc + '/src', '-I' + csrc + '/lib/bup', '-I' + VERIF + '/cb', '-I/usr/include/python3.12']
    cc = ['goto-cc', '-DNDEBUG', '-D_FILE_OFFSET_BITS=64', '-D_DEFAULT_SOURCE', '-D_GNU_SOURCE',
          '-DBUP_RL_EXPECTED_XOPEN_SOURCE=600', '-w'] + inc + ['-D' + x for x in job.defines] + \
         [src, '-o', gb, '--function', job.entry]
    r = subprocess.run(cc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
    if r.returncode:
        return dict(job=job.name, status='error', label='goto-cc: ' + r.stdout.decode()[-1500:], wall=time.time() - t0, props=0)
    subprocess.run(['goto-instrument', '--drop-unused-functions', gb, gb + '2'],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(gb + '2'): gb = gb + '2'
    cmd = ['cbmc', gb, '--function', job.entry, '--unwind', str(job.unwind), '--json-ui', '--trace',
           '--no-malloc-may-fail'] + list(job.solver)
    if job.unwindset: cmd += ['--unwindset', ','.join(job.unwindset)]
    cmd += ['--unwinding-assertions', '--no-signed-overflow-check']
    if job.safety:
        cmd += ['--bounds-check', '--pointer-check', '--div-by-zero-check']
    else:
        cmd += ['--no-standard-checks', '--unwinding-assertions']
    cmd += list(job.flags)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=job.timeout)
    except subprocess.TimeoutExpired:
        return dict(job=job.name, status='inconclusive', label='cbmc timed out', wall=time.time() - t0, props=0)
    try:
        msgs = json.loads(r.stdout)
    except ValueError:
        return dict(job=job.name, status='error', label='cbmc output: ' + (r.stdout + r.stderr).decode()[-1500:],
                    wall=time.time() - t0, props=0)
    res = None
    solver_s = 0.0
    nvars = 0
    for m in msgs:
        if 'result' in m: res = m['result']
        t = m.get('messageText', '')
        g = re.search(r'Runtime (?:Solver|decision procedure): ([\d.e-]+)s', t)
        if g: solver_s += float(g.group(1))
        g = re.search(r'(\d+) variables, (\d+) clauses', t)
        if g: nvars = max(nvars, int(g.group(2)))
    if res is None:
        return dict(job=job.name, status='error', wall=time.time() - t0, props=0,
                    label='cbmc: ' + ' '.join(m.get('messageText', '') for m in msgs)[-1500:])
    out = dict(job=job.name, status='ok', props=len(res), solver_s=solver_s, clauses=nvars, bounds=job.bounds,
               functions=list(job.functions), reached=[], failures=[])
    unwind = False
    for p in res:
        desc = p['description']
        if desc.startswith('REACH '):
            if p['status'] == 'FAILURE': out['reached'].append(desc[6:])
            continue
        if p['status'] == 'FAILURE':
            if 'unwinding assertion' in desc or 'recursion' in desc and 'unwind' in p['property']:
                unwind = True
                out.setdefault('unwind', []).append(p['property'])
                continue
            vals = {}
            for s in p.get('trace', []):
                if s.get('stepType') == 'assignment':
                    lhs = s.get('lhs', '')
                    m = re.match(r'(in_\w+)(?:\[(\d+)l?L?\])?$', lhs)
                    if m:
                        v = _val(s.get('value'))
                        if m.group(2) is None: vals[m.group(1)] = v
                        else:
                            if not isinstance(vals.get(m.group(1)), dict): 
                                old = vals.get(m.group(1))
                                vals[m.group(1)] = dict(enumerate(old)) if isinstance(old, list) else {}
                            vals[m.group(1)][int(m.group(2))] = v
            for k, v in vals.items():
                if isinstance(v, dict) and v and all(isinstance(x, int) for x in v):
                    vals[k] = [v.get(i, 0) for i in range(max(v) + 1)]
            out['failures'].append((desc, p['property'], vals))
    if out['failures']: out['status'] = 'violation'
    elif unwind:
        out.update(status='inconclusive', label='unwinding bound too small: %s' % out['unwind'])
    else:
        missing = [l for l in job.reach if l not in out['reached']]
        if missing: out.update(status='error', label='vacuous: never reached %s' % missing)
    out['wall'] = time.time() - t0
    return out


def run_all(jobs, workdir, tier, so, seed, replay_py=None, parallel=8):
    """Run the jobs; returns the dict drive() expects."""
    csrc = workdir + '/csrc'
    if not os.path.exists(csrc): native.stage(workdir)
    with ThreadPoolExecutor(parallel) as ex:
        rs = list(ex.map(lambda j: run_job(j, workdir, csrc, seed), jobs))
    out = dict(errors=[], inconclusive=[], violations=[], queries=0)
    replayed = 0
    samples = []
    for j, r in zip(jobs, rs):
        out['queries'] += r['props']
        if os.environ.get('SX_VERBOSE'):
            print('  cbmc %s: %s %.1fs props=%d reached=%s %s' % (r['job'], r['status'], r['wall'], r['props'],
                  r.get('reached'), r.get('label', '')), flush=True)
        if r['status'] == 'error': out['errors'].append('%s: %s' % (r['job'], r['label']))
        elif r['status'] == 'inconclusive': out['inconclusive'].append('%s: %s' % (r['job'], r['label']))
        elif r['status'] == 'violation':
            done = False
            notes = []
            for desc, prop, vals in r['failures']:
                if os.environ.get('SX_VERBOSE') and len(notes) < 3: print('   failure:', desc, prop, vals)
                if j.replay is None: continue
                ok, note = replay(j, so, vals, workdir)
                replayed += 1
                notes.append('%s %s: %s' % (desc, vals, note))
                if ok:
                    out['violations'].append(('%s: %s [%s] with %s: %s' % (r['job'], desc, prop, vals, note),
                                              dict(job=r['job'], values=vals)))
                    done = True
                    break
            if not done:
                out['errors'].append('%s: CBMC counterexample does not reproduce on the built extension: %s' % (
                    r['job'], notes or r['failures'][:2]))
        samples.append(dict(job=r['job'], properties=r['props'], clauses=r.get('clauses', 0), reached=r.get('reached', [])))
    # witnesses: run the compiled code on each job's sample inputs
    out['evidence'] = dict(
        cbmc_properties=sum(r['props'] for r in rs), cbmc_traces_replayed=replayed,
        cbmc_solver_s=round(sum(r.get('solver_s', 0) for r in rs), 2),
        cbmc_functions=sorted({f for j in jobs for f in j.functions}),
        cbmc_jobs=[dict(job=r['job'], status=r['status'], bounds=j.bounds, unwind=j.unwind, properties=r['props'],
                        clauses=r.get('clauses', 0), wall_s=round(r['wall'], 2), reached=r.get('reached', []))
                   for j, r in zip(jobs, rs)],
        cbmc_samples=samples[:6])
    return out


def replay(job, so, vals, workdir):
    """Run job.replay (python source using `vals`, `bup`) in a fresh process;
    exit status 1 or a crash means the failure is real."""
    code = ('import sys, json; sys.path.insert(0, %r); from sx import harness; harness.setup_imports(%r, False)\n'
            'vals = json.loads(%r)\n%s\n' % (VERIF, so, json.dumps(vals), job.replay))
    try:
        p = subprocess.run([sys.executable, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=120, cwd=workdir,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8'))
    except subprocess.TimeoutExpired:
        return True, 'does not terminate'
    txt = p.stdout.decode(errors='replace')[-600:]
    if p.returncode == 0: return False, 'replay passes ' + txt
    return True, 'exit %d: %s' % (p.returncode, txt)
