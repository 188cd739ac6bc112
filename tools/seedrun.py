"""Run the check of each seeded change's property against it (applies the patch to /repo, undoes it straight afterwards)."""
import json
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rp = os.path.join(VERIF, 'tools', 'seed_results.json')
res = json.load(open(rp)) if os.path.exists(rp) else {}
sd = os.path.join(VERIF, 'seeded')
ids = sys.argv[1:] or sorted(os.listdir(sd))
for n in list(res):
    if not os.path.isdir(os.path.join(sd, n)):
        del res[n]
for n in ids:
    d = os.path.join(sd, n)
    prop = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--short', '-uno']).strip()
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        r = subprocess.run(['python3', 'check.py', prop], cwd=VERIF, capture_output=True, text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    caught = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
    res[n] = '`%s`' % prop if caught else 'missed'
    print(n, prop, 'caught' if caught else 'MISSED', flush=True)
json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
