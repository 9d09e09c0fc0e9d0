"""Append "fixed" entries to known_findings.json for fix commits of /repo not listed yet: known.py hash=Cxx ..."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'known_findings.json')
k = json.load(open(p))
have = str(k)
m = dict(a.split('=') for a in sys.argv[1:])
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix:') or h in have:
        continue
    if h in m:
        k.append({'property': m[h], 'fixed': f'fixed: property={m[h]} {h} {s[5:]}'})
    else:
        print('unlisted', l)
json.dump(k, open(p, 'w'), indent=1)
