"""Runs the cases of a check: symbolic exploration over instrumented bup,
replay of counterexamples and path witnesses over plain bup, evidence."""
import importlib.util, json, os, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = sys.executable


class Case:
    def __init__(self, name, fn, required=(), budget=600, timeout_ms=120000, logic=None,
                 witnesses=6, bounds='', weight=1, **params):
        self.name, self.fn, self.required, self.budget = name, fn, tuple(required), budget
        self.params, self.timeout_ms, self.logic, self.witnesses = params, timeout_ms, logic, witnesses
        self.bounds, self.weight = bounds, weight


# ------------------------------------------------------------ value transport
def enc(v):
    if isinstance(v, bytes): return {'b': v.hex()}
    if isinstance(v, (list, tuple)): return {'l': [enc(x) for x in v]}
    return v
def dec(v):
    if isinstance(v, dict):
        return bytes.fromhex(v['b']) if 'b' in v else [dec(x) for x in v['l']]
    return v


# ------------------------------------------------------------ patching
_patches = []
def patch(obj, name, val):
    """Replace obj.name for the rest of the case."""
    had = name in vars(obj)
    _patches.append((obj, name, had, vars(obj).get(name)))
    setattr(obj, name, val)
def unpatch():
    while _patches:
        obj, name, had, old = _patches.pop()
        if had: setattr(obj, name, old)
        else: delattr(obj, name)


def setup_imports(so, instrument):
    from sx import instr, native
    import types
    ci = types.ModuleType('bup.checkout_info')
    ci.date, ci.commit, ci.modified = '2020-01-01', 'a' * 40, False
    sys.meta_path.insert(0, instr.Finder(native.REPO + '/lib', so, instrument,
                                         {'bup.checkout_info': ci}))
    if instrument:
        from sx import shim
        shim.install_posixpath()
        import bup.helpers as h
        noop = lambda *a, **k: None
        for n in ('log', 'debug1', 'debug2', 'progress', 'qprogress', 'reprogress', 'add_error'):
            f = getattr(h, n, None)
            if f is not None and n != 'add_error': shim.MODELS[id(f)] = (f, noop)
        import bup.io as bio
        for mod, n in ((h, 'path_msg'), (bio, 'path_msg'), ):
            f = getattr(mod, n, None)
            if f is not None: 
                def pm(x, f=f):
                    if shim.deepsym(x): return '<sym>'
                    return f(x)
                shim.MODELS[id(f)] = (f, pm)
        shim.install_helpers()


def load_check(path, instrument):
    name = 'sxcheck_' + os.path.basename(path)[:-3]
    mod = type(sys)(name)
    mod.__file__ = path
    src = open(path, encoding='utf-8').read()
    sys.path.insert(0, os.path.dirname(path))
    if instrument:
        from sx import instr
        mod.__dict__['__sx__'] = instr.SX
        code = instr.compile_source(src, path, name)
    else:
        code = compile(src, path, 'exec', dont_inherit=True)
    sys.modules[name] = mod
    exec(code, mod.__dict__)
    return mod


# ------------------------------------------------------------ symbolic worker
def run_symbolic(case, seed, nwit):
    from sx import core, shim
    res = dict(case=case.name, status='ok', witnesses=[])
    t0 = time.time()
    wit = []
    state = {'n': 0}
    def fn(ctx):
        shim.reset()
        try:
            try:
                case.fn(ctx, **case.params)
                if ctx.pending: raise ctx.pending
            except core.Stop:
                raise
            except Exception as ex:
                if ctx.pending: raise ctx.pending
                tb = traceback.format_exc()
                ctx.stats['asserts'] += 1
                m = ctx._need_model()
                v = core.Violation('unexpected exception %s' % type(ex).__name__, ctx.values(m),
                                   tb[-3000:])
                raise v
        finally:
            unpatch()
        state['n'] += 1
        k = state['n']
        # spread witnesses: the first few paths, then powers of two
        if len(wit) < nwit and (k <= nwit // 2 or k & (k - 1) == 0):
            wit.append(ctx.values(ctx._need_model()))
    try:
        ctx = core.explore(fn, budget_s=case.budget, timeout_ms=case.timeout_ms, seed=seed,
                           logic=case.logic)
    except core.Violation as v:
        ctx = v.ctx
        res.update(status='violation', label=v.label, note=v.note, values=v.values)
    except core.Inconclusive as ex:
        ctx = ex.ctx
        res.update(status='inconclusive', label=str(ex), note=traceback.format_exc()[-2500:])
    res['stats'] = ctx.stats
    res['reached'] = ctx.reached
    res['funcs'] = sorted(f for f in ctx.funcs if f.startswith('bup.'))
    res['witnesses'] = wit
    res['wall'] = time.time() - t0
    return res


def main_sym(checkfile, tier, so, outdir, seed, only=None):
    setup_imports(so, True)
    mod = load_check(checkfile, True)
    cases = mod.cases(tier)
    order = sorted((i for i in range(len(cases)) if not only or only in cases[i].name),
                   key=lambda i: -cases[i].weight)
    nproc = int(os.environ.get('SX_JOBS', '8'))
    running = {}
    results = {}
    def reap(block=True):
        pid, st = os.waitpid(-1, 0)
        i = running.pop(pid)
        p = '%s/r%d.json' % (outdir, i)
        if os.path.exists(p):
            with open(p) as f: results[i] = json.load(f)
        else:
            results[i] = dict(case=cases[i].name, status='error', label='worker died (status %d)' % st,
                              stats={}, reached={}, funcs=[], witnesses=[], wall=0)
        if os.environ.get('SX_VERBOSE'):
            r = results[i]
            print('  case %s: %s %.1fs %s' % (r['case'], r['status'], r['wall'], r['stats']), flush=True)
    stop = False
    for i in order:
        while len(running) >= nproc:
            reap()
            if any(r['status'] == 'violation' for r in results.values()): stop = True
        if stop: break
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                try:
                    import resource
                    lim = int(os.environ.get('SX_MEM_GB', '12')) << 30
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                except Exception:
                    pass
                if not os.environ.get('SX_VERBOSE'):
                    os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
                sys.setrecursionlimit(20000)
                r = run_symbolic(cases[i], seed, cases[i].witnesses)
                r['values'] = {k: enc(v) for k, v in r['values'].items()} if 'values' in r else None
                r['witnesses'] = [{k: enc(v) for k, v in w.items()} for w in r['witnesses']]
                with open('%s/r%d.tmp' % (outdir, i), 'w') as f: json.dump(r, f)
                os.rename('%s/r%d.tmp' % (outdir, i), '%s/r%d.json' % (outdir, i))
                code = 0
            except BaseException:
                traceback.print_exc(file=sys.stdout)
                sys.stdout.flush()
            finally:
                os._exit(code)
        running[pid] = i
        if any(r['status'] == 'violation' for r in results.values()): break
    while running: reap()
    with open(outdir + '/results.json', 'w') as f:
        json.dump([dict(results[i], bounds=cases[i].bounds, required=list(cases[i].required),
                        params={k: repr(v) for k, v in cases[i].params.items()}, index=i)
                   for i in sorted(results)], f)


# ------------------------------------------------------------ plain replay
def run_plain(case, values, timeout=60):
    """Returns (status, label): ok / violation / assume."""
    from sx import core
    ctx = core.Conc(values)
    def alarm(*a): raise TimeoutError('replay timed out')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(timeout)
    try:
        case.fn(ctx, **case.params)
        return 'ok', '', ctx.reached
    except core.Violation as v:
        return 'violation', v.label + (': ' + v.note if v.note else ''), ctx.reached
    except core.PathAbort:
        return 'assume', '', ctx.reached
    except core.Stop as ex:
        return 'error', repr(ex), ctx.reached
    except (SystemExit, Exception) as ex:
        return 'violation', 'unexpected exception ' + traceback.format_exc()[-1500:], ctx.reached
    finally:
        signal.alarm(0)
        unpatch()


def main_plain(checkfile, tier, so, jobsfile, outfile):
    """jobs: list of (case index, values)."""
    setup_imports(so, False)
    mod = load_check(checkfile, False)
    cases = mod.cases(tier)
    with open(jobsfile) as f: jobs = json.load(f)
    out = []
    for i, vals in jobs:
        # one process per job: plain code may exit, change state, ...
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                if not os.environ.get('SX_VERBOSE'):
                    os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
                st = run_plain(cases[i], {k: dec(v) for k, v in vals.items()})
                os.write(w, json.dumps(st).encode()[:60000])
            except BaseException:
                os.write(w, json.dumps(('error', traceback.format_exc()[-800:], {})).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b: break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        out.append(json.loads(data) if data else ['crash', 'replay process died: status %d' % st, {}])
    with open(outfile, 'w') as f: json.dump(out, f)


def replay_main(checkfile, replayfile):
    """Re-run a stored counterexample against the plain code."""
    from sx import native
    with open(replayfile) as f: rep = json.load(f)
    d = tempfile.mkdtemp(prefix='sx-')
    try:
        so = native.build(d)
        setup_imports(so, False)
        mod = load_check(checkfile, False)
        case = [c for c in mod.cases(rep['tier']) if c.name == rep['case']][0]
        st = run_plain(case, {k: dec(v) for k, v in rep['values'].items()})
        print(st[0], st[1])
        return 1 if st[0] == 'violation' else 0
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------ driver
def findings(prop):
    out = []
    try:
        with open(VERIF + '/known-findings.txt') as f:
            for l in f:
                if l.startswith('KNOWN-FINDING: property=%s ' % prop): out.append(l.strip())
    except FileNotFoundError:
        pass
    return out


def known_findings(prop, meta, so):
    """Print the listed findings of prop that still show on the real code."""
    code = ('import sys; sys.path.insert(0, %r)\nfrom sx import harness\nharness.setup_imports(%r, False)\n'
            'sys.path.insert(0, %r)\nimport json, %s as d\nprint("DEMO" + json.dumps(d.demo(%r)))'
            % (VERIF, so, VERIF + '/checks', meta['finding_demo'], so))
    p = subprocess.run([PY, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    shown = [json.loads(l[4:]) for l in p.stdout.split('\n') if l.startswith('DEMO')]
    shown = shown[0] if shown else []
    for f in findings(prop):
        what = f.split(' ', 2)[2]
        if any(what.startswith(x) for x in shown): print(f)


def drive(checkfile, argv=None):
    """Entry point of `check <id> <tier>`."""
    t0 = time.time()
    prop = os.path.basename(checkfile)[:3].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    argv = list(argv or [])
    while argv:
        a = argv.pop(0)
        if a in ('quick', 'thorough'): tier = a
        elif a == '--only': only = argv.pop(0)
        elif a == '--replay': return replay_main(checkfile, argv.pop(0))
    d = tempfile.mkdtemp(prefix='sx-%s-' % prop)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8',
               TZ='UTC', HOME=d, TMPDIR=d)
    try:
        from sx import native, core
        so = native.build(d)
        meta = load_meta(checkfile)
        viol, incon, errors = [], [], []
        results = []
        extra = {}
        if not meta.get('no_python'):
            code = 'import sys; sys.path.insert(0, %r); from sx import harness; harness.main_sym(%r, %r, %r, %r, %d, %r)' % (
                VERIF, checkfile, tier, so, d, seed, only)
            p = subprocess.run([PY, '-c', code], env=env)
            if p.returncode or not os.path.exists(d + '/results.json'):
                print('ERROR property=%s the symbolic run failed' % prop)
                return 3
            with open(d + '/results.json') as f: results = json.load(f)
        cres = None
        if meta.get('c_check') and not only:
            cres = meta['c_check'](d, tier, so, seed)
        # replays
        jobs = []
        for r in results:
            if r['status'] == 'violation':
                jobs.append((r, 'cex', r['values']))
            for w in r['witnesses']:
                jobs.append((r, 'wit', w))
        outs = []
        if jobs:
            with open(d + '/jobs.json', 'w') as f: json.dump([(r['index'], v) for r, _, v in jobs], f)
            code = 'import sys; sys.path.insert(0, %r); from sx import harness; harness.main_plain(%r, %r, %r, %r, %r)' % (
                VERIF, checkfile, tier, so, d + '/jobs.json', d + '/plain.json')
            p = subprocess.run([PY, '-c', code], env=env)
            if p.returncode:
                print('ERROR property=%s the replay run failed' % prop)
                return 3
            with open(d + '/plain.json') as f: outs = json.load(f)
        validated = 0
        reported = []
        for (r, kind, vals), (st, label, reached) in zip(jobs, outs):
            if kind == 'cex':
                if st in ('violation', 'crash'):
                    reported.append((r, vals, label or r['label']))
                else:
                    errors.append('%s: counterexample does not reproduce (%s %s): %s %s\n%s' % (
                        r['case'], st, label, r['label'], vals, r.get('note')))
            else:
                if st == 'ok': validated += 1
                elif st in ('violation', 'crash'):
                    reported.append((r, vals, 'path witness fails concretely: ' + label))
                else:
                    errors.append('%s: witness replay: %s %s %s' % (r['case'], st, label, vals))
        for r in results:
            if r['status'] == 'inconclusive':
                incon.append('%s: %s\n%s' % (r['case'], r['label'], r.get('note', '')))
            elif r['status'] == 'error':
                errors.append('%s: %s' % (r['case'], r['label']))
            elif r['status'] == 'ok':
                for lab in r['required']:
                    if not r['reached'].get(lab):
                        errors.append('%s: vacuous: label %r never reached' % (r['case'], lab))
                if not r['stats']['paths']:
                    errors.append('%s: vacuous: no feasible path' % r['case'])
        if cres:
            errors += cres.get('errors', [])
            incon += cres.get('inconclusive', [])
        rc = 0
        os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
        nviol = 0
        for r, vals, label in reported:
            path = '%s/evidence/replay/%s-%d.json' % (VERIF, prop, nviol)
            with open(path, 'w') as f:
                json.dump(dict(property=prop, case=r['case'], tier=tier, values=vals, label=label), f, indent=1)
            if nviol == 0 or os.environ.get('SX_VERBOSE'):
                print('case %s: %s' % (r['case'], label))
                print('  with %s' % json.dumps({k: repr(dec(v)) for k, v in vals.items()}))
                print('VIOLATION property=%s replay=%s' % (prop, path))
            nviol += 1
            rc = 1
        if cres:
            for label, data in cres.get('violations', []):
                path = '%s/evidence/replay/%s-%d.json' % (VERIF, prop, nviol)
                with open(path, 'w') as f: json.dump(dict(property=prop, label=label, data=data), f, indent=1)
                print(label)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                nviol += 1
                rc = 1
        if not rc:
            if errors:
                rc = 3
                for e in errors[:5]: print('ERROR property=%s %s' % (prop, e))
            elif incon:
                rc = 2
                for e in incon[:5]: print('INCONCLUSIVE property=%s %s' % (prop, e))
        if rc == 0 and meta.get('finding_demo'):
            known_findings(prop, meta, so)
        write_evidence(prop, tier, seed, results, validated, nviol, meta, cres, time.time() - t0, incon, errors)
        tot = {k: sum(r['stats'].get(k, 0) for r in results) for k in ('paths', 'queries', 'asserts', 'solver_s')}
        if rc == 0:
            print('OK property=%s tier=%s cases=%d paths=%d queries=%d asserts=%d solver=%.1fs wall=%.1fs%s' % (
                prop, tier, len(results), tot['paths'], tot['queries'], tot['asserts'], tot['solver_s'],
                time.time() - t0, (' cbmc=%d' % cres['queries']) if cres else ''))
        return rc
    finally:
        if not os.environ.get('SX_KEEP'): shutil.rmtree(d, ignore_errors=True)


def load_meta(checkfile):
    """Literal metadata at the top of a check: META dict, evaluated without importing bup."""
    import ast
    src = open(checkfile, encoding='utf-8').read()
    meta = {}
    for st in ast.parse(src).body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == 'META':
            meta = ast.literal_eval(st.value)
    if meta.get('cbmc'):
        import importlib
        sys.path.insert(0, VERIF + '/checks')
        m = importlib.import_module(meta['cbmc'])
        meta['c_check'] = m.run
    return meta


def write_evidence(prop, tier, seed, results, validated, nviol, meta, cres, wall, incon, errors):
    st = lambda k: sum(r['stats'].get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r['funcs']})
    samples = []
    for r in results:
        for w in r['witnesses'][:1]:
            samples.append(dict(case=r['case'], values={k: repr(dec(v)) for k, v in w.items()}))
    states, trans = st('paths'), st('forks')
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=validated,
               samples=samples[:12], symbolic_paths=states, infeasible_or_assumed_away=st('aborted'),
               solver_queries=st('queries'), solver_s=round(st('solver_s'), 2),
               assertions_checked=st('asserts'), assertions_discharged=st('discharged'),
               functions_encoded=funcs,
               cases=[dict(case=r['case'], bounds=r.get('bounds', ''), status=r['status'],
                           paths=r['stats'].get('paths', 0), queries=r['stats'].get('queries', 0),
                           asserts=r['stats'].get('asserts', 0), wall_s=round(r['wall'], 2),
                           reached=r['reached']) for r in results],
               rule='states are completed symbolic paths, transitions are solver-decided two-way branches; '
                    'each path covers every input value satisfying its path condition within the bounds')
    if cres:
        cov.update(cres['evidence'])
        cov['states'] += cres['evidence'].get('cbmc_properties', 0)
        cov['traces_validated_against_impl'] += cres['evidence'].get('cbmc_traces_replayed', 0)
        cov['solver_queries'] += cres.get('queries', 0)
        if not samples: cov['samples'] = cres['evidence'].get('cbmc_samples', [])
    if incon: cov['inconclusive'] = incon[:5]
    if errors: cov['errors'] = errors[:5]
    ev = dict(property=prop, tier=tier, seed=seed, level=meta.get('level', 'model_checking'), coverage=cov,
              assumptions=list(meta.get('assumptions', [])), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    tmp = '%s/evidence/.%s.tmp' % (VERIF, prop)
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.rename(tmp, '%s/evidence/%s.json' % (VERIF, prop))
