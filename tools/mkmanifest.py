import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from spec import SPEC
NA = getattr(__import__('spec'), 'NA', {})
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
ck, na = [], []
for p in props:
    i = p['id']
    if i in SPEC:
        ck.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', technique='symbolic execution of the compiled real code (LLVM IR instrumentation), paths and assertions decided by Z3, counterexamples replayed natively',
            level='model_checking', level_note=('Bounded: ' + SPEC[i]['bounds'])[:900]))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=ck, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(ck), 'claimed', len(na), 'not')
