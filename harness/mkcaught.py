"""Merges 'bug -> sub-check' from the output lines of a run of the checks against the planted bugs."""
import re,json,sys
c=json.load(open('/verif/harness/caught.json'))
for f in sys.argv[1:]:
    for l in open(f):
        m=re.match(r'(\S+) (C\d\d) rc=(\d+)',l)
        if not m: continue
        r=re.search(r'replays/(C\d\d)-(\w+)-',l)
        if m[3]=='1' and r: c[m[1]]=f'{r[1]}.{r[2]}'
        elif m[1] not in c: c[m[1]]='missed'
json.dump(c,open('/verif/harness/caught.json','w'),indent=1,sort_keys=True)
