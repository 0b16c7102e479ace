#!/usr/bin/env python3
"""Fills the tables of DESIGN.md between their markers from known-findings.txt and seeded/."""
import json,os,re,subprocess
V='/verif'
p=V+'/DESIGN.md'; s=open(p).read()
fx=[]
for l in open(V+'/known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fx.append(f'| {m[2]} | {m[1]} | {m[3]} |')
pl=['| plant | property | needs | caught by |','|---|---|---|---|']
cb=json.load(open(V+'/tools/caught.json'))
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    pl.append(f"| {d} | {m['property']} | {m['needs']} | {cb.get(d,'?')} |")
def put(tag,lines,s):
    b,e=f'<!-- {tag} -->',f'<!-- /{tag} -->'
    body=b+'\n'+'\n'.join(lines)+'\n'+e
    if f'@@{tag}@@' in s: return s.replace(f'@@{tag}@@',body)
    return re.sub(re.escape(b)+r'.*?'+re.escape(e),lambda _:body,s,flags=re.S)
# a comment line would split the markdown table: keep the header inside
s=s.replace('| commit | property | defect |\n|---|---|---|\n@@FIXES@@','@@FIXES@@')
s=put('FIXES',['| commit | property | defect |','|---|---|---|']+fx,s)
s=put('PLANTS',pl,s)
open(p,'w').write(s)
