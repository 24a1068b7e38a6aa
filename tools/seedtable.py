#!/usr/bin/env python3
# prints the table of planted bugs, or with -w puts it into DESIGN.md
import json,os,sys,re
rows=["| seed | property | needs | what it breaks |","|---|---|---|---|"]
for s in sorted(os.listdir('seeded')):
    m=json.load(open(f'seeded/{s}/meta.json'))
    f=lambda t:re.sub(r'\s+',' ',str(t)).replace('|','\\|')
    rows.append(f"| {s} | {m['property']} | {f(m['needs'])} | {f(m['what_it_breaks'])} |")
t="<!-- seeds -->\n"+"\n".join(rows)+"\n<!-- /seeds -->"
if '-w' in sys.argv:
    d=open('DESIGN.md').read()
    d=re.sub(r'SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->',lambda _:t,d,flags=re.S)
    open('DESIGN.md','w').write(d)
else: print(t)
