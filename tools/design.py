#!/usr/bin/env python3
# fills the generated parts of DESIGN.md from tools/props and seeded/*/meta.json
import json,glob,re,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
P=''
for f in sorted(glob.glob('tools/props/*.json')):
    p=json.load(open(f)); c=p.get('check')
    P+=f"### {p['id']} {p['title']}\n\n"
    P+=(p.get('design') or (c['note'] if c else 'Not applicable: '+p.get('not_applicable','')))+'\n\n'
S='| bug | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); S+=f"| {d.split('/')[1]} | {m['property']} | {m['needs']} | {m.get('caught_by','-')} |\n"
t=open('DESIGN.md').read()
def put(t,k,v):
    a,b=f'<!-- {k} -->',f'<!-- /{k} -->'
    if f'@@{k}@@' in t: return t.replace(f'@@{k}@@',a+'\n'+v+b)
    return re.sub(re.escape(a)+'.*?'+re.escape(b),lambda m:a+'\n'+v+b,t,flags=re.S)
t=put(put(t,'PROPS',P.rstrip()+'\n'),'SEEDS',S); open('DESIGN.md','w').write(t)
