"""usage: show.py FILE ID BATCH [KEYSUBSTR..]: the steps around a batch, and expectations"""
import json, sys
f, n, b = sys.argv[1], sys.argv[2], int(sys.argv[3])
for l in open(f):
    t = json.loads(l)
    if t['id'] == n:
        S = {}
        for k, bt in enumerate(t['batches'][:b + 1]):
            if k == b: print('BEFORE', {x: y for x, y in S.items() if any(w in x for w in sys.argv[4:])})
            for x in bt['gone']: S.pop(x, None)
            S.update(bt['E']); S.update(bt['M'])
            if k == b:
                for x in bt['steps']: print(json.dumps(x)[:1500])
                print(bt['res'])
