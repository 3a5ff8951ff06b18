"""Fills DESIGN.md from design.in.md, the sub-checks' own texts and the planted bugs."""
import re,json,os,glob
H='/verif/harness/'
subs={}
for f in ['p_codec','p_conn','p_server','p_chat']:
    s=open(H+f+'.cpp').read()
    for m in re.finditer(r'PBT_PROP\(\s*(\w+)\s*,\s*(\w+)\s*,\s*([^,]+),\s*([^,]+),\s*([^,]+),\s*([^,]+),\s*((?:"(?:[^"\\]|\\.)*"\s*)+)',s):
        subs.setdefault(m[1],[]).append((m[2],m[3],m[4],''.join(re.findall(r'"((?:[^"\\]|\\.)*)"',m[7]))))
out=[]
for l in open('/verif/properties.jsonl'):
    p=json.loads(l); i=p['id']
    out.append(f"**{i} {p['title']}.**\n")
    for n,q,t,d in subs.get(i,[]): out.append(f"* `{i}.{n}` ({q}/{t}): {d}.")
    out.append('')
bt=['| bug | property | needs | breaks | caught by |','|---|---|---|---|---|']
caught=json.load(open(H+'caught.json'))
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); b=d.split('/')[-2]
    bt.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(b,'?')} |")
t=open(H+'design.in.md').read()
open('/verif/DESIGN.md','w').write(t.replace('SUBTABLE','\n'.join(out)).replace('BUGTABLE','\n'.join(bt)))
