import os, json, subprocess, tempfile, numpy as np, mrcal
REASON={-2:'?',-1:'?'}
def crun(*a):
    r=subprocess.run([os.environ['CMODEL'],*a],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL)
    if r.returncode: raise Exception('C program: exit status %d'%r.returncode)
    return [json.loads(l) for l in r.stdout.decode().split('\n') if l]
_types={}
def reasons():
    if not _types:
        with open('probe.txt','w') as f: f.write('nothing\nLENSMODEL_CAHVORE\nLENSMODEL_CAHVORE_zzz\n')
        a=crun('lens','probe.txt')
        for x,n in zip(a,('type','missing','bad')): _types[x['typeid']]=n
        assert len(_types)==3
    return _types
def run(c):
    s=c['text']; o={}
    try: o['N']=mrcal.lensmodel_num_params(s); o['npy']='ok'
    except Exception: o['npy']='error'
    try:
        m=mrcal.lensmodel_metadata_and_config(s); o['metapy']='ok'
        M=('has_core','can_project_behind_camera','has_gradients','noncentral')
        o['meta']={k:int(m[k]) for k in M}
        rest={k:v for k,v in m.items() if k not in M}
        o['cfgkeys']=sorted(rest)
        o['cfg']=[int(round(rest[k]*1000)) if k=='linearity' else int(rest[k]) for k,_ in c['n']['cfg'] if k in rest]
    except Exception: o['metapy']='error'
    with open('n.txt','w') as f: f.write(s+'\n')
    x=crun('lens','n.txt')[0]
    if not x['ok']: x['reason']=reasons().get(x['typeid'],'?')
    else:
        x['base']=x['unconf'].split('_linearity')[0].split('_order')[0]
    # invalid types are negative
    if x['type']<0: x['type']=-1
    o['c']=x
    o['ux']=o['uy']=[]
    try:
        ux,uy=mrcal.knots_for_splined_models(s)
        cf={k:int(v) for k,v in c['n']['cfg']}; d=cf['Nx']-1-(1 if cf['order']==2 else 2)
        if cf['fov_x_deg']==180:
            lat=lambda u: [int(round(a)) if abs(a-round(a))<1e-9 else repr(a) for a in u*d]
            o['ux'],o['uy']=lat(ux),lat(uy)
        else: o['ux'],o['uy']=[0]*len(ux),[0]*len(uy)
    except Exception: pass
    if o['npy']=='ok':
        try:
            i=np.zeros(o['N']); i[:4]=(100,100,50,50)
            if 'CAHVORE' in s and c['n']['cfg'] and c['n']['cfg'][0][1] in('1e-3',): pass
            q=mrcal.project(np.array((0.,0,1)),s,i); o['proj']=1 if q.shape==(2,) and np.allclose(q,(50,50)) else 0
        except Exception as e: o['proj']=0
        tm=[t.split('=')[0].rsplit('_',1)[0] if '=' in t else t for t in mrcal.supported_lensmodels()]
        o['listed']=int(any(s==t or ('=' in t and [p.split('=')[0] for p in t.split('=...')]==[p for p in t.split('=...')] and s.startswith(t.split('=...')[0])) for t in mrcal.supported_lensmodels()))
    return o
