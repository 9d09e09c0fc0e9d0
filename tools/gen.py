"""Generates properties.jsonl and MANIFEST.json from mc/props.py and the check modules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc.props import P
NA = {}
if os.path.exists(os.path.join(V, 'mc', 'na.json')):
    NA = json.load(open(os.path.join(V, 'mc', 'na.json')))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i in sorted(P):
        p = P[i]
        if not os.path.exists(os.path.join(V, 'checks', i + '.py')) and i not in NA:
            continue
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps(dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                             observe_at=p['observe'], hook_needed=None))) + '\n')
checks = [dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
               evidence_file=f'evidence/{i}.json', technique=P[i]['technique'], level=P[i]['level'], level_note=P[i]['note'])
          for i in sorted(P) if os.path.exists(os.path.join(V, 'checks', i + '.py')) and i not in NA]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())],
         notes='All checks run the library from /repo under /opt/venv/bin/python; no hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')

# ---- DESIGN.md
COST = json.load(open(os.path.join(V, 'docs', 'cost.json')))
def design():
    head = open(os.path.join(V, 'docs', 'head.md')).read()
    tail = open(os.path.join(V, 'docs', 'tail.md')).read()
    out = [head, '## 3. Properties\n']
    for i in sorted(P):
        p = P[i]
        if i in NA:
            out.append(f'### {i} {p["title"]}\n\nNot applicable: {NA[i]}\n')
            continue
        if not os.path.exists(os.path.join(V, 'checks', i + '.py')):
            continue
        c = COST.get(i, ['?', '?'])
        out.append(f'### {i} {p["title"]}\n\n{p["statement"]}\n')
        out.append(f'* *Explored*: {p["text"]}.\n* *How*: {p["technique"]}.\n* *Bounds (quick)*: {p["bounds"]["quick"]}.\n'
                   f'* *Bounds (thorough)*: {p["bounds"]["thorough"]}.\n'
                   + (f'* *One case*: {p["rule"]}.\n' if p['rule'] else '')
                   + (f'* *Assumptions*: {"; ".join(p["assumptions"])}.\n' if p['assumptions'] else '')
                   + f'* *Cost* (8 cores): quick about {c[0]} s, thorough about {c[1]} s.\n* *Beyond tests*: {p["why"]}\n* *Level*: {p["note"]}\n'
                   + f'* *Anchors*: {", ".join(p["files"])}\n')
    fixed = [e['fixed'] for e in json.load(open(os.path.join(V, 'known_findings.json'))) if 'fixed' in e]
    tail = tail.replace('@FIXED@', '\n'.join('* ' + f.replace('fixed: property=', '') for f in sorted(fixed, key=lambda s: s.split('=')[1])))
    rows = []
    S = os.path.join(V, 'seeded')
    for s in sorted(os.listdir(S)):
        m = json.load(open(os.path.join(S, s, 'meta.json')))
        d = DET.get(s, '?')
        rows.append(f'| {s} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {d} |')
    tail = tail.replace('@SEEDS@', '| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows))
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n' + tail)
DET = json.load(open(os.path.join(V, 'docs', 'detected.json')))
design()
