"""usage: setstmt.py ID 'statement' — refine the statement of a property"""
import json, sys
p = '/verif/properties.jsonl'
L = [json.loads(l) for l in open(p)]
for d in L:
    if d['id'] == sys.argv[1]:
        d['statement'] = sys.argv[2]
        break
else:
    sys.exit('no such property')
open(p, 'w').write(''.join(json.dumps(d, ensure_ascii=False) + '\n' for d in L))
