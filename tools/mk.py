#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py"""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,'tools'))
from props import PROPS,NA
with open(V+'/properties.jsonl','w') as f:
    for p in PROPS+[n for n,_ in NA]:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        a=dict(files=p['files'],mechanism=[dict(name=n,where=w) for n,w in p['mech']])
        if p.get('observe'): a['observe_at']=p['observe']
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],quantifier=dict(over=p['over'],text=p['text']),why_tests_cant=p['why'],anchors=a))+'\n')
m=dict(version=1,setup_cmd='bin/setup',checks=[dict(property=p['id'],quick_cmd='bin/check %s quick'%p['id'],thorough_cmd='bin/check %s thorough'%p['id'],technique=p['technique'],level=p['level'],level_note=p['note']) for p in PROPS],
 not_applicable=[dict(property=n['id'],reason=r) for n,r in NA])
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(PROPS),'properties')
