#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md (maintenance only; no check uses it)."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=f'{root}/DESIGN.md'; t=open(p).read()
ds=sorted(glob.glob(f'{root}/seeded/*/meta.json'))
rows=["| change | breaks when |","|---|---|"]+[f"| {os.path.basename(os.path.dirname(d))} | {json.load(open(d))['needs']} |" for d in ds]
t=t.replace('@N@',str(len(ds)))
t=re.sub(r"holds \d+ changes",f"holds {len(ds)} changes",t)
if '@TABLE@' in t: t=t.replace('@TABLE@',"\n".join(rows))
else: t=re.sub(r"\| change \| breaks when \|\n\|---\|---\|\n(\|.*\n)*","\n".join(rows)+"\n",t)
open(p,'w').write(t)
