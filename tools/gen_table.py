#!/usr/bin/env python3
# prints the rows of the table of planted changes of DESIGN.md (from seeded/*/meta.json) or updates DESIGN.md itself
import json,glob,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for m in sorted(glob.glob(here+'/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),d['property'],d['needs']))
p=here+'/DESIGN.md'
s=open(p).read()
s=re.sub(r'(\| change \| caught by \| needs \|\n\|---\|---\|---\|\n)(\|.*\n)*',lambda m:m.group(1)+'\n'.join(rows)+'\n',s)
open(p,'w').write(s)
