"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harnesses'))
from props import PROPS, NOT_APPLICABLE
PY = '/opt/venv/bin/python'
LEVEL = ("Every path of the encoded functions within the bounds is explored and each assertion on it is decided by "
         "z3/cvc5 for all values of the symbolic inputs; counterexamples are only reported once replayed on the real "
         "code. Bounds: %s. Assumes: %s. Real arithmetic stands for floating point (path witnesses are replayed in "
         "floating point); trusts the symbolic numpy/pandas/netCDF shims in symx/. Undecided or unexplored "
         "queries are counted in the evidence file.")
props, checks, na = [], [], []
for p in PROPS:
    rec = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    assert len(p['title']) <= 80, p['title']
    props.append(rec)
    path = os.path.join(ROOT, 'harnesses', p['id'] + '.py')
    if p['id'] in NOT_APPLICABLE:
        continue
    if not os.path.exists(path):
        na.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    h = importlib.import_module('harnesses.' + p['id'])
    ass = '; '.join(h.ASSUMPTIONS) or 'nothing further'
    checks.append({
        'property': p['id'],
        'quick_cmd': '%s symx/run.py check %s --tier quick' % (PY, p['id']),
        'thorough_cmd': '%s symx/run.py check %s --tier thorough' % (PY, p['id']),
        'technique': 'symbolic execution of the real Python source, assertions decided by SMT (z3, cvc5) over all inputs in bounds',
        'level': 'model_checking',
        'level_note': LEVEL % (h.BOUNDS, ass)})
na += [{'property': k, 'reason': v} for k, v in sorted(NOT_APPLICABLE.items())]
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for r in props:
        f.write(json.dumps(r) + '\n')
m = {'version': 1, 'setup_cmd': '%s symx/run.py selftest' % PY, 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Checks read /repo/hapuamod at run time; HAPUA_REPO overrides the path.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
try:
    import jsonschema
    sp = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for r in props:
        jsonschema.validate(r, sp)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid:', len(props), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
except ImportError:
    print('jsonschema not available')
