#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md: the list of checks and the table of planted bugs."""
import glob, json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = {}
env = dict(os.environ, GOFLAGS='-mod=mod -buildvcs=false', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off')
listing = subprocess.run(['go', 'run', '.', 'list'], cwd=root + '/harness', env=env, check=True, capture_output=True, text=True).stdout
for m in re.finditer(r'^(C\d+) (\S+) quick=(\d+) thorough=\d+ rule=(.*)$', listing, re.M):
    checks.setdefault(m[1], []).append((m[2], int(m[3]), m[4]))
out = ['| check | cases (quick) | generated; what counts as non-trivial |', '|---|---|---|']
for p in sorted(checks):
    for n, q, r in checks[p]:
        out.append(f'| {p}/{n} | {q} | {r.replace("|", "/")} |')
planted = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = {}
try:
    caught = json.load(open(root + '/tools/caught.json'))
except FileNotFoundError:
    pass
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    planted.append(f'| {i} | {m["property"]} | {m["needs"]} -> {m["what_it_breaks"]} | {caught.get(i, "?")} |'.replace('\n', ' '))
path = root + '/DESIGN.md'
s = open(path).read()
for name, lines in (('checks', out), ('planted', planted)):
    a, b = f'<!-- {name} -->', f'<!-- end {name} -->'
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + '\n'.join(lines) + '\n' + s[j:]
open(path, 'w').write(s)
