#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE NEEDS BREAKS < spec: creates seeded/ID from a replacement.  stdin: OLD text, a line '=====', NEW text
(several pairs separated by a line '#####' optionally followed by another FILE).  demo.cc must already be in seeded/ID (or demo.sh)."""
import sys, os, json, subprocess, shutil
id, prop, file, needs, breaks = sys.argv[1:6]
d = '/verif/seeded/' + id
os.makedirs(d, exist_ok=True)
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip(), 'repo not clean'
spec = sys.stdin.read()
parts = spec.split('#####')
for i, p in enumerate(parts):
    f = file
    if i and p.split('\n', 1)[0].strip():
        f = p.split('\n', 1)[0].strip()
    if i:
        p = p.split('\n', 1)[1]
    old, new = p.split('=====\n')
    old = old.rstrip('\n'); new = new.rstrip('\n')
    s = open('/repo/' + f, encoding='latin-1').read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open('/repo/' + f, 'w', encoding='latin-1').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'))
if not os.path.exists(d + '/demo.sh'):
    shutil.copy('/verif/seeded/C05-mask32/demo.sh', d + '/demo.sh')
print(open(d + '/patch.diff').read())
