import sys,json,re,subprocess,glob,textwrap
sys.path.insert(0,'/verif/lib'); import props
P={}
for l in open('/verif/properties.jsonl'): j=json.loads(l); P[j['id']]=j
exec(open('/verif/lib/design/parts.py').read())
kf={}; 
for l in open('/verif/known-findings.txt'):
    m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',l)
    if m: kf.setdefault(m.group(1),[]).append((m.group(2),m.group(3)))
o=[HEAD]
o.append('## Properties\n')
for k in sorted(P):
    d=D[k]; o.append('### %s %s\n'%(k,P[k]['title'])); o.append(P[k]['statement'].replace('\n',' ').strip()+'\n')
    o.append('*Technique.* '+d['how']+'\n'); o.append('*Oracle.* '+d['oracle']+'\n')
    o.append('*Space and bounds.* '+re.sub(r'\s+',' ',props.PROPS[k]['rule'])+'\n')
    o.append('*Why tests cannot settle it.* '+d['why']+'\n')
    if d.get('not'): o.append('*Not asserted.* '+d['not']+'\n')
    if kf.get(k): o.append('*Defects found and repaired.* '+'; '.join('%s (%s)'%(b,a) for a,b in kf[k])+'.\n')
import os
rows=['| change | what it breaks | needs |','|---|---|---|']
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i)); rows.append('| %s | %s | %s |'%(i,m['what_it_breaks'],m['needs']))
o.append(TAIL.replace('@SEEDED@','\n'.join(rows)))
def wrap(t):
    if t.startswith('#') or t.startswith('|') or t.startswith('-') : return t
    return '\n'.join(textwrap.fill(p,140) for p in t.split('\n'))
open('/verif/DESIGN.md','w').write('\n'.join(wrap(x) if not x.lstrip().startswith(('#','|','-')) and '\n|' not in x and '\n-' not in x and '\n#' not in x else x for x in o))
