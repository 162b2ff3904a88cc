"""Foreign formats: .cahvor, ROS/OpenCV, kalibr, and the tools that convert them."""
import numpy as np, mrcal, sys, os, io, re, json, shutil, runpy, yaml, contextlib, tempfile
from pose import mat, rvec, lat
from stereo import rodrigues
B=os.environ['MRCAL_BUILD']
SP='LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=80'
def lname(m):
    l=m['lens']
    return l+'_linearity=%.2f'%(m['lin']/100) if l=='LENSMODEL_CAHVORE' else SP if 'SPLINED' in l else l
def cahv(m): return m['lens'] in ('LENSMODEL_CAHVOR','LENSMODEL_CAHVORE')
def angles(o): o=np.array(o,float); o/=np.sqrt(o@o); return np.arctan2(o[0],o[2]),np.arcsin(o[1])
def params(m):
    p=list(m['f'])
    if cahv(m): p+=list(angles(m['o']))+[x/1e4 for x in m['r']]
    if m['lens']=='LENSMODEL_CAHVORE': p+=[x/1e4 for x in m['e']]
    p+=[x/1e4 for x in m['dist']]
    if 'SPLINED' in m['lens']: p+=[0.]*(mrcal.lensmodel_num_params(SP)-4)
    return np.array(p,float)
POLY=np.array(((5,6),(30,7),(31.5,25),(4,20.25),(5,6)),float)
def region(m): return dict(none=None,empty=np.zeros((0,2)),poly=POLY)[m['region']]
def pose(P): return np.hstack((rvec(P['q'],0),np.array(P['t'],float)/P['d']))
def build(m): return mrcal.cameramodel(intrinsics=(lname(m),params(m)),imagersize=m['size'],rt_cam_ref=pose(m['P']),valid_intrinsics_region=region(m))
def L(x,s,tol=1e-7):
    x=np.asarray(x,float)
    if x.size==0: return []
    return lat(x,s,tol)
def see(m,e,o=(0,0,1)):
    """what the model m holds; e: the scales of the pose, o: of the axis"""
    l,p=m.intrinsics(); r={}
    g=re.match(r'LENSMODEL_CAHVORE_linearity=(.*)',l)
    r['lens']='LENSMODEL_CAHVORE' if g else 'LENSMODEL_SPLINED_STEREOGRAPHIC' if l==SP else l
    r['lin']=int(round(100*float(g[1]))) if g else -1
    r['f']=L(p[:4],1); r['o']=r['r']=r['e']=[0,0,0]; r['dist']=[]
    if cahv(r):
        a,b=p[4:6]; k=np.sqrt(np.array(o,float)@o)
        r['o']=L(np.array((np.sin(a)*np.cos(b),np.sin(b),np.cos(a)*np.cos(b)))*k,1); r['r']=L(p[6:9],1e4)
        if g: r['e']=L(p[9:12],1e4)
    elif l!=SP: r['dist']=L(p[4:],1e4)
    elif np.any(p[4:]): r['dist']='nonzero'
    n=sum(x*x for x in e['q']); rt=m.rt_cam_ref()
    r['R']=L(rodrigues(rt[:3]),n); r['t']=L(rt[3:],n*e['d'])
    r['size']=[int(x) for x in m.imagersize()]
    v=m.valid_intrinsics_region(); r['region']='none' if v is None else 'empty' if v.size==0 else 'poly' if v.shape==POLY.shape and np.allclose(v,POLY) else repr(v.tolist())
    return r
def snap(m): return (m.intrinsics()[0],m.intrinsics()[1].tolist(),m.rt_cam_ref().tolist(),repr(m.valid_intrinsics_region()),list(m.imagersize()))
class Tty(io.StringIO):
    def isatty(self): return False
def tool(name,argv,stdin=''):
    out,err=io.StringIO(),io.StringIO(); old=sys.argv,sys.stdin
    sys.argv=[name]+argv; sys.stdin=Tty(stdin); rc=0
    try:
        with contextlib.redirect_stdout(out),contextlib.redirect_stderr(err): runpy.run_path(B+'/'+name,run_name='__main__')
    except SystemExit as e: rc=e.code if isinstance(e.code,int) else 0 if e.code is None else 1
    except Exception as e: rc=1; err.write(repr(e))
    finally: sys.argv,sys.stdin=old
    return rc,out.getvalue(),err.getvalue()
def write(cc):
    c=cc['c']; m=build(c['m']); before=snap(m); note=[None,'made by hand','one\ntwo = 3\nC = 9 9 9'][c['note']]; kw={}
    if note is not None: kw['note']=note
    f='m.'+c['via']; o={}
    try:
        if c['via']=='file':
            with open(f,'w') as h: m.write(h,**kw,**({'cahvor':True} if c['fmt']=='cahvor' else {'_opencv':True}))
        else: m.write(f,**kw)
    except Exception as e: return dict(ok=0,why=str(e)[:200])
    o=dict(ok=1,pure=int(snap(m)==before)); s=open(f).read()
    if c['fmt']=='cahvor':
        ls=s.splitlines(); want=['# '+l for l in note.splitlines()] if note else []
        o['note']=int(ls[:len(want)]==want and not any(l.startswith('#') for l in ls[len(want):len(want)+8]))
        kv={}
        for l in ls:
            g=re.match(r'(\w+) =(.*)',l)
            if g: kv[g[1]]=g[2]
        v=lambda k: [float(x) for x in kv[k].split()]
        n=sum(x*x for x in c['m']['P']['q'])
        o['file']=dict(C=L(v('C'),cc['inv']['d']),A=L(v('A'),n),H=L(v('H'),n),V=L(v('V'),n),D=[int(x) for x in v('Dimensions')])
        if cahv(c['m']): o['file']['O']=L(v('O'),n*int(round(np.sqrt(sum(x*x for x in c['m']['o'])))))
    if c['note']==2: b=mrcal.cameramodel(io.StringIO(s))
    else: b=mrcal.cameramodel(f)
    o['back']=see(b,cc['exp'][0],c['m']['o'])
    return o
def num(x,fmt):
    if fmt=='ints' and x==round(x): return '%d'%x
    if fmt=='sci': return '%+.17E'%x
    return repr(float(x))
def cahvorread(cc):
    c=cc['c']; m=c['m']; F=cc['file']; n=sum(x*x for x in m['P']['q']); E=[tuple(e) for e in c['edits']]; W=[e[0] for e in E]
    fmt='ints' if 'ints' in W else 'sci' if 'sci' in W else ''
    kv={'Model':'CAHVORE3,0.37 = general' if m['lens']=='LENSMODEL_CAHVORE' else 'CAHVOR = perspective, distortion' if cahv(m) else 'CAHV = perspective, linear','Dimensions':list(m['size'])}
    kv['C']=np.array(F['C'])/cc['inv']['d']
    for k in 'AHV': kv[k]=np.array(F[k])/n
    if 'scaleA' in W: kv['A']=kv['A']*2
    if cahv(m):
        kv['O']=np.array(F['O'])/n/np.sqrt(sum(x*x for x in m['o'])); kv['R']=np.array(m['r'])/1e4
        if m['lens']=='LENSMODEL_CAHVORE': kv['E']=np.array(m['e'])/1e4
    elif m['dist']: kv[m['lens'].replace('LENSMODEL','DISTORTION') if 'legacy' in W else m['lens']]=np.array(m['dist'])/1e4
    t={k:(v if isinstance(v,str) else ' '.join(('%d'%x if k=='Dimensions' else num(x,fmt)) for x in v)) for k,v in kv.items()}
    for w,k in E:
        if w=='drop': t.pop(k,None)
        elif w=='model': t['Model']=k
        elif w=='region': t['VALID_INTRINSICS_REGION']='' if k=='empty' else ' '.join('%g'%x for x in POLY.ravel()[:(9 if k=='odd' else 10)])
        elif k in t:
            if w=='short': t[k]=' '.join(t[k].split()[:-1])
            elif w=='long': t[k]+=' 1.5'
            elif w=='text': t[k]=t[k].split()[0]+' nothing '+' '.join(t[k].split()[2:])
    ks=list(t); ks=ks[::-1] if 'reorder' in W else ks
    s=''
    for k in ks:
        if 'comments' in W: s+='# %s = 1 2 3\n\n   # C = 0\n'%k
        s+=('  %s   =    %s   \n' if 'spaces' in W else '%s = %s\n')%(k,t[k].replace(' ','\t ') if 'spaces' in W and k not in ('Model',) else t[k])
    s+='S =\n 0.0 0.0\nHs    = 12.5\nTheta = -1.57 (-90.0 deg)\nS internal =\n 0.0 0.0\n'
    open('a.cahvor','w').write(s)
    try: b=mrcal.cameramodel('a.cahvor')
    except Exception as e: return dict(ok=0,why=str(e)[-200:],s=s)
    return dict(ok=1,back=see(b,cc['exp'][0],m['o'] if cahv(m) and ('drop','O') not in E else (0,0,1)),s=s)
def ros(cc):
    c=cc['c']; m=c['m']; W={e[0]:e[1] for e in c['edits']}; f=c['m']['f']
    R=mat(m['P']['q']).ravel().tolist(); pf=float(c['pf'])
    K=[float(f[0]),0,f[2],0,f[1],f[3],0,0,1]; P=[pf,0.,12.5,-pf*c['b'],0.,pf,7.,0.,0.,0.,1.,0.]; D=[x/1e4 for x in m['dist']]
    lens={'LENSMODEL_OPENCV5':'plumb_bob','LENSMODEL_OPENCV8':'rational_polynomial'}[m['lens']]
    if 'Kskew' in W: K[1]=.1
    if 'K22' in W: K[8]=1.5
    if 'Pty' in W: P[7]=1.
    if 'Pzero' in W: P=[0.]*12
    if 'Pshape' in W: P=P[:11]
    if 'Rzero' in W: R=[0.]*9
    if 'Rbad' in W: R[4]+=.01
    if 'Rshape' in W: R=dict([('8',R[:8]),('text',['a']*9),('scalar',1.0)])[W['Rshape']]
    if 'lens' in W: lens=W['lens']
    if 'dshort' in W: D=D[:-1]
    if 'dlong' in W: D=D+[.1]
    NM=dict(K=('camera_matrix','camera_matrix','K'),P=('projection_matrix','projection_matrix','P'),R=('rotation','rotation','R'),D=('distortion_coefficients','distortion_coefficients','D'))
    d={}
    def put(k,v,st):
        d[NM[k][st]]={'rows':3,'data':v} if st==0 else v
    drops=[e[1] for e in c['edits'] if e[0]=='drop']; dups=[e[1] for e in c['edits'] if e[0]=='dup']
    for i,(k,v) in enumerate((('K',K),('P',P),('R',R),('D',D))):
        if k in drops or (k=='R' and 'Rnone' in W): continue
        st=c['style'][i]
        put(k,v,st)
        if k in dups: put(k,v,2 if st<2 else 0)
    for i,(k,a,b) in enumerate((('w','image_width','width'),('h','image_height','height'))):
        if k in drops: continue
        st=c['style'][4+i]>0; d[(a,b)[st]]=m['size'][i]
        if k in dups: d[(b,a)[st]]=m['size'][i]
    if 'lens' not in drops: d['distortion_model']=lens
    if 'extra' in W: d.update(camera_name='x',binning_x=1,roi={'height':4,'width':5},header={'K':[1,2],'frame_id':'a'})
    s=json.dumps(d,indent=1) if c['json']==0 else yaml.safe_dump(d,default_flow_style=None if c['json']==1 else False,sort_keys=False)
    o=dict(s=s)
    try: b=mrcal.cameramodel(io.StringIO(s))
    except Exception as e: return dict(o,ok=0,why=str(e)[-300:])
    return dict(o,ok=1,back=see(b,cc['exp'][0]))
def kalibr(cc):
    c=cc['c']; ms=c['ms']
    for i,m in enumerate(ms): build(m).write('m%d.cameramodel'%i)
    rc,out,err=tool('mrcal-to-kalibr',(['--cam0-at-reference'] if c['toref'] else [])+['m%d.cameramodel'%i for i in range(len(ms))])
    o=dict(rcto=rc,outto=int(out.strip()!=''),errto=err[-200:])
    if rc: return o
    D=yaml.safe_load(out); o['names']=list(D); o['T']=[]; o['y']=[]
    for i,(k,d) in enumerate(D.items()):
        m=ms[i]; I=d['intrinsics']; n=int(round(np.sqrt(sum(x*x for x in m['o']))))
        o['y'].append(dict(model=d['camera_model'],d=d.get('distortion_model','-'),D=L(d['distortion_coeffs'],1e4) if 'distortion_coeffs' in d else [],size=d['resolution'],lin=int(round(100*d.get('cahvore_linearity',-1))),
            I=L(I,1) if not cahv(m) else L(I[:12],1)+L(I[12:15],n)+L(I[15:],1e4)))
    for i,k in enumerate(D):
        T=D[k].get('T_cn_cnm1')
        if T is None: o['T'].append(dict(R=0,t=0)); continue
        e=cc['chain'][i]; n=sum(x*x for x in e['q']); T=np.array(T)
        o['T'].append(dict(R=L(T[:3,:3],n),t=L(T[:3,3],n*e['d'])) if T.shape==(4,4) and list(T[3])==[0,0,0,1] else repr(T))
    w=list(D)[c['which']-1]
    for e,k in c['edits']:
        d=D[w]
        if e=='drop': d.pop(k,None)
        elif e=='camera_model': d[e]='omni'
        elif e=='distortion_model': d[e]='equidistant'
        elif e=='intrinsics': d[e]=d[e][:-1]
        elif 'T_cn_cnm1' in d:
            T=d['T_cn_cnm1']
            if e=='Tshape': T.pop()
            elif e=='Tlast': T[3][1]=.5
            else: T[1][1]+=.01
    if c['inline']: D=D[w]
    s=yaml.safe_dump(D,default_flow_style=None,sort_keys=False)
    open('k.yaml','w').write(s)
    a=(['--cam0-at-reference'] if c['fromref'] else [])+(['--camera',c['camera']] if c['camera'] else [])
    pre=set(os.listdir('.'))
    if c['stdin']:
        rc,out,err=tool('mrcal-from-kalibr',a,s)
        if rc==0: open('k-'+(c['camera'] or 'cam0')+'.cameramodel' if not c['inline'] else 'k.cameramodel','w').write(out)
    else: rc,out,err=tool('mrcal-from-kalibr',a+['k.yaml'])
    o.update(rcfrom=rc,errfrom=err[-200:],files=sorted(set(os.listdir('.'))-pre),back=[])
    if rc==0:
        for i in range(len(ms)):
            f='k.cameramodel' if c['inline'] else 'k-cam%d.cameramodel'%i
            o['back'].append(see(mrcal.cameramodel(f),cc['exp'][i],ms[i]['o']) if os.path.exists(f) else dict(found=0))
            if os.path.exists(f): o['back'][-1]['found']=1
    return o
def convert(cc):
    c=cc['c']; t=c['tool']; inp,done,res=dict([('mrcal-from-cahvor',('.cahvor','.cameramodel','.cameramodel')),('mrcal-to-cahvor',('.cameramodel','.cahvor','.cahvor')),('mrcal-from-ros',('.yaml','.cameramodel','.cameramodel'))])[t]
    os.mkdir('in'); os.mkdir('out'); args=[]; outs=[]
    mk=lambda fx: mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((fx,30.,20,20))),imagersize=(40,40))
    for i,f in enumerate(c['files']):
        base='f%d'%i+('.a b' if c['dot'] else '')
        p='in/'+base+(done if f['done'] else inp); mk(100.+i).write(p); args.append(p)
        q=('out/' if c['outdir'] else 'in/')+base+res
        if f['done'] and not c['outdir']: q=None      # the input itself is there
        elif f['exists']: mk(55.).write(q)
        outs.append((q,p))
    before={p:open(p).read() for p in args}; pre={d+'/'+x for d in ('in','out') for x in os.listdir(d)}
    rc,so,se=tool(t,(['--outdir','out'] if c['outdir'] else [])+(['--force'] if c['force'] else [])+args)
    r=dict(rc=rc,out=[],err=se[-300:]); allowed=set(pre)
    for i,(q,p) in enumerate(outs):
        f=c['files'][i]
        if q is None: r['out'].append('old' if f['exists'] else 'none'); continue
        allowed.add(q)
        if not os.path.exists(q): r['out'].append('none'); continue
        fx=mrcal.cameramodel(q).intrinsics()[1][0]; r['out'].append('old' if fx==55 else 'new' if fx==100+i else 'wrong %r'%fx)
    r['extra']=len({d+'/'+x for d in ('in','out') for x in os.listdir(d)}-allowed)
    r['pure']=int(all(open(p).read()==before[p] for p in args))
    return r
def graft(cc):
    c=cc['c']; build(c['a']).write('a.cameramodel'); build(c['b']).write('b.cameramodel')
    st=c['stdin']; rc,out,err=tool('mrcal-graft-models',['-' if st==1 else 'a.cameramodel','-' if st==2 else 'b.cameramodel'],open(('a' if st==1 else 'b')+'.cameramodel').read() if st else '')
    if rc: return dict(rc=rc,err=err[-300:])
    return dict(rc=rc,back=see(mrcal.cameramodel(io.StringIO(out)),cc['exp'][0],c['a']['o']))
def run(cc):
    d=tempfile.mkdtemp(prefix='fmt.'); old=os.getcwd(); os.chdir(d)
    try: return dict(write=write,cahvorread=cahvorread,ros=ros,kalibr=kalibr,tool=convert,graft=graft)[cc['c']['kind']](cc)
    finally: os.chdir(old); shutil.rmtree(d)
