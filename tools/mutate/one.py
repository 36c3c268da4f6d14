"""the replay of every property on SIA_REPO"""
import sys, os, json, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../driver'))
import check
os.makedirs(check.BUILD, exist_ok=True)
base = json.load(open(os.path.join(check.VERIF, 'contracts/baseline.json')))
x = check.expand(); exe = check.build_replay()
hit = []
with tempfile.TemporaryDirectory() as wd:
    lits = os.path.join(wd, 'lits.json')
    check.write_lits(x or '', base, lits)
    for p in check.CONES if exe else []:
        check.T0 = check.time.time()
        r, c = check.replay(exe, p, 1, 'quick', wd, lits, 20)
        if c: hit.append([p, str(c)[:200]])
        elif r and r.get('failures', r.get('violations')): hit.append([p, str(r.get('failures', r.get('violations')))[:200]])
print(json.dumps({'exe': bool(exe), 'hit': hit}))
