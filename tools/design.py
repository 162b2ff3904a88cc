#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/props.py, known-findings.json and seeded/: DESIGN.in.md -> DESIGN.md"""
import sys,os,json,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+'/tools')
from props import PROPS,NA
try: from method import METHOD
except ImportError: METHOD={}
k=json.load(open(V+'/known-findings.json'))
s=open(V+'/DESIGN.in.md').read()
p='## The properties\n'
for q in PROPS:
    p+='\n### %s: %s\n\n%s\n\n%s\n\n*Bounds and trust:* %s\n'%(q['id'],q['title'],q['statement'],METHOD.get(q['id'],''),q['note'])
s=s.replace('@@PROPS@@',p)
s=s.replace('@@FIXED@@','\n'.join('- '+f for f in k['fixed']))
s=s.replace('@@KNOWN@@','Recorded, not repaired:\n\n'+('\n'.join('- %s: %s'%(f['property'],f['what']) for f in k['findings']) or '- none'))
t='| bug | property | needs | caught by |\n|---|---|---|---|\n'
try: C=json.load(open(V+'/tools/caught.json'))
except FileNotFoundError: C={}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    t+='| %s | %s | %s | %s |\n'%(i,m['property'],m['needs'],C.get(i,'?'))
s=s.replace('@@SEEDED@@',t)
s=s.replace('@@NA@@','\n'.join('- %s (%s): %s'%(n['id'],n['title'],r) for n,r in NA) or '')
open(V+'/DESIGN.md','w').write(s)
