# assembles DESIGN.md: prose + the bounds (from mod.rs) + seeded table
import re,json,glob,os
src=open('/verif/mc/src/checks/mod.rs').read()
rows=re.findall(r'check!\("(\w+)", [\w:]+, \d+, "((?:[^"\\]|\\.)*)"(?:, "((?:[^"\\]|\\.)*)")?\)',src)
titles={};
for l in open('/verif/properties.jsonl'):
    d=json.loads(l);titles[d['id']]=d['title']
import subprocess;subprocess.check_call(['python3','/verif/design/how.py'])
how=json.load(open('/verif/design/how.json'))
out=open('/verif/design/head.md').read()
out+='\n## Properties, one by one\n\nIn the bounds a number in parentheses is that of the thorough tier. Every check is exhaustive within them;\nwhere a time limit cuts a thorough run short the evidence says `exhaustive: false` and how far it came.\n'
for i,b,a in rows:
    h=how[i]
    out+=f"\n### {i} {titles[i]}\n\n*Judged against:* {h['oracle']}  \n*Enumerated:* {b}.  \n"
    if a: out+=f"*Assumes:* {a}.  \n"
    out+=f"*Beyond tests because* {h['why']}  \n*Cost (quick, this sandbox):* {h['cost']}\n"
out+=open('/verif/design/tail.md').read()
out+='\n## Planted bugs\n\nEach is in `seeded/ID`, was written from a property and the code, builds, passes the repository\'s tests, and has a\ndemonstration. "missed first" says that the check was strengthened because of it.\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n'
caught=json.load(open('/verif/design/caught.json')) if os.path.exists('/verif/design/caught.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=d.split('/')[-2];m=json.load(open(d))
    out+=f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i,'?')} |\n"
open('/verif/DESIGN.md','w').write(out)
