"""Writes MANIFEST.json from properties.jsonl and checks/."""
import ast, glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = json.load(open(here + '/tools/na.json'))
checks, na = [], []
for p in props:
    i = p['id']
    f = glob.glob('%s/checks/%s_*.py' % (here, i.lower()))
    if not f:
        na.append(dict(property=i, reason=NA.get(i, 'no solver-based check has been built for it yet')))
        continue
    meta = {}
    for st in ast.parse(open(f[0]).read()).body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'META':
            meta = ast.literal_eval(st.value)
    c = dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
             evidence_file='evidence/%s.json' % i,
             technique=meta.get('technique', 'symbolic execution of the real Python source with z3' + (
                 ' plus CBMC on the real C source' if meta.get('cbmc') else '') if not meta.get('no_python') else 'CBMC bounded model checking of the real C source'),
             level=meta.get('level', 'model_checking'),
             level_note=meta.get('note', 'Holds for every value within the stated bounds, decided by the solver; '
                                 + '; '.join(meta.get('assumptions', []))))
    checks.append(c)
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
         notes='Every check stages and compiles the C sources and re-instruments the Python sources of /repo on each run.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
