"""Replays sequences of operations on two camera models (MCModel)"""
import numpy as np, mrcal, io, os, warnings
warnings.simplefilter('ignore')
NONE=-9
rng=np.random.RandomState(3)
SPL='LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=120'
oc4=np.array([[1512.5,1480.25,512.125,380.5,0.0125,-0.00325,1.25e-5,-3.5e-9],[1400.75,1402.5,500,390.5,-0.25,0.125,0.0001,0.25]])
LENS={1:('LENSMODEL_PINHOLE',[1000.5,1001.25,320,241.5]),
      2:('LENSMODEL_OPENCV4',oc4[0]),3:('LENSMODEL_OPENCV4',oc4[1]),
      4:('LENSMODEL_CAHVORE_linearity=0.375',[900,901,319.5,240,1e-3,-2e-3,0.125,-0.25,1e-5,0.003,-1e-7,2.5e-9]),
      5:(SPL,np.round(np.hstack(([800,810,320,240],rng.randn(40)*0.01)),9)),
      6:('LENSMODEL_OPENCV4',[1,2,3,4,5]),7:('LENSMODEL_OPENCV44',[1.]*8),8:('LENSMODEL_PINHOLE',[1,2,'x',4]),9:('LENSMODEL_PINHOLE',),10:('LENSMODEL_CAHVORE',[1.]*12)}
SIZE={1:(1024,768),2:(640,480),3:(640.5,480),4:(0,480),5:(640,-480),6:(640,480,3),7:(1024.,768.)}
REG={0:np.zeros((0,2)),1:np.array([[10,20],[500.5,30],[490,400.25],[20,390],[10,20]]),
     2:np.array([[1,1],[600,2],[601,450],[300,470],[2,440],[1,1.]]),4:np.array([[5,5],[100,6],[50,80],[5,5.]]),
     6:np.array([[1,1],[4,5.]]),7:np.array([[1,1,1],[4,5,1],[3,4,1],[3,3,1.]])}
REG[3]=REG[2][:-1]; REG[5]=REG[4]; REG[4]=REG[5][:-1]
REGOBS={0:REG[0],1:REG[1],2:REG[2],4:REG[5]}
c,s=np.cos(2*np.pi/3),np.sin(2*np.pi/3)
RT=[np.zeros(6),np.array([0,0,np.pi/2,1,2,3.]),np.array([1,1,1,0,0,0])/np.sqrt(3)*2*np.pi/3+np.array([0,0,0,-4,5,0.5]),np.array([.1,-.2,.3,4,5,6.])]
def rodrigues(r):
    th=np.linalg.norm(r)
    if th==0: return np.eye(3)
    k=r/th; K=np.array([[0,-k[2],k[1]],[k[2],0,-k[0]],[-k[1],k[0],0]])
    return np.eye(3)+np.sin(th)*K+(1-np.cos(th))*K@K
def form(kind,i):
    rt=RT[i]; R=rodrigues(rt[:3]); t=rt[3:]
    inv=kind in('rt_ref_cam','Rt_ref_cam','extrinsics_rt_toref','extrinsics_Rt_toref')
    if inv: R,t,r=R.T,-R.T@t,-rt[:3]
    else: r=rt[:3]
    return np.vstack((R,t)) if '_Rt' in kind or kind.startswith('Rt') else np.hstack((r,t))
KINDS=['rt_cam_ref','rt_ref_cam','Rt_cam_ref','Rt_ref_cam','extrinsics_rt_fromref','extrinsics_rt_toref','extrinsics_Rt_fromref','extrinsics_Rt_toref']
FORMS={k:[form(k,i) for i in range(4)] for k in KINDS}
def opt(o):
    Nf=2
    obs=np.round(np.random.RandomState(o).rand(2*Nf,3,4,3)*400+.5,3); obs[...,2]=1
    d=dict(lensmodel='LENSMODEL_OPENCV4',calibration_object_spacing=0.1,calobject_warp=None if o==1 else np.array((1e-3,2e-3)),
           rt_ref_frame=np.array([[.1,.2,.3,0,0,2],[.3,.2,.1,0,.1,3.]]),points=None,
           observations_board=obs,observations_point=None,indices_point_camintrinsics_camextrinsics=None,
           do_optimize_intrinsics_core=True,do_optimize_extrinsics=bool(o==1),do_apply_regularization=True,
           do_apply_regularization_unity_cam01=False,verbose=False,imagepaths=np.array(['a%d.png'%i for i in range(2*Nf)]))
    if o==1:
        d.update(intrinsics=oc4.copy(),imagersizes=np.array([SIZE[1],SIZE[2]],np.int32),rt_cam_ref=RT[2][None].copy(),
          indices_frame_camintrinsics_camextrinsics=np.array([[0,0,-1],[0,1,0],[1,0,-1],[1,1,0]],np.int32))
    else:
        d.update(intrinsics=oc4[1:].copy(),imagersizes=np.array([SIZE[2]],np.int32),rt_cam_ref=np.array([RT[1],RT[3]]),
          indices_frame_camintrinsics_camextrinsics=np.array([[0,0,-1],[0,0,0],[0,0,1],[1,0,1]],np.int32))
    return d
OPT={o:opt(o) for o in (1,2)}
def same(a,b):
    if a is None or b is None: return a is None and b is None
    if isinstance(a,np.ndarray): return isinstance(b,np.ndarray) and a.shape==b.shape and np.all(a==b)
    return type(a)==type(b) and a==b
def optid(x):
    if x is None: return 0
    for o in OPT:
        d=OPT[o]; y={k:v for k,v in x.items() if not (isinstance(v,str) and v.startswith('ERROR'))}
        if all(same(v,y.get(k)) for k,v in d.items() if k!='do_apply_regularization_unity_cam01') and not set(y)-set(d): return o
    return -1
def find(table,x,tol=0):
    for k,v in table.items():
        v=np.asarray(v,float)
        if v.shape==x.shape and np.max(np.abs(v-x),initial=0)<=tol: return k
    return -7
def scribble(x):
    if isinstance(x,np.ndarray) and x.dtype.kind in 'if' and x.flags.writeable: x[...]=77
    elif isinstance(x,dict):
        for v in list(x.values()): scribble(v)
        x.clear()
    elif isinstance(x,(tuple,list)):
        for v in x: scribble(v)
def observe(m):
    if m is None: return []
    try:
        l=m.intrinsics(); y={}
        y['lens']=next((k for k in range(1,6) if LENS[k][0]==l[0] and len(LENS[k][1])==len(l[1]) and np.allclose(LENS[k][1],l[1],rtol=2e-10,atol=0)),-7)
        z=m.imagersize(); y['size']=find({1:SIZE[1],2:SIZE[2]},np.asarray(z,float))
        g=[getattr(m,k)() for k in KINDS]
        y['pose']=[next((i for i in range(4) if x.shape==FORMS[k][i].shape and np.max(np.abs(x-FORMS[k][i]))<1e-7),-7) for k,x in zip(KINDS,g)]
        r=m.valid_intrinsics_region(); y['reg']=-1 if r is None else find(REGOBS,r,1e-8)
        oi=m.optimization_inputs(); y['opt']=optid(oi)
        a,b=m.icam_intrinsics(),m.icam_extrinsics()
        y['ii']=NONE if a is None else int(a); y['ie']=NONE if b is None else int(b)
        y['moved']=0
        if oi is not None and b is not None:
            try: y['moved']=int(m._extrinsics_moved_since_calibration())
            except Exception: y['moved']=-8
        for v in (l,z,g,r,oi): scribble(v)
        return [y]
    except Exception as e:
        return [dict(lens=-8,size=-8,pose=[-8]*8,reg=-8,opt=-8,ii=-8,ie=-8,moved=-8,why=repr(e)[:200])]
def copyval(v): return (v[0],list(v[1]) if isinstance(v[1],list) else np.array(v[1])) if isinstance(v,tuple) and len(v)==2 else v
def run(ops):
    S=[None,None]; steps=[]
    for n,o in enumerate(ops):
        k=o['k']-1; err=False; used=[]
        def keep(x): used.append(x); return x
        try:
            if o['op']=='new':
                kw={}
                if o['lens']!=NONE: kw['intrinsics']=keep(copyval(LENS[o['lens']]))
                if o['size']!=NONE: kw['imagersize']=keep(np.array(SIZE[o['size']])) if n%2 else SIZE[o['size']]
                if o['kind']!='none': kw[o['kind']]=keep(FORMS[o['kind']][o['pose']].copy()) if o['pose']>=0 else np.ones(FORMS[o['kind']][0].shape)[:-1]
                if o['reg']>=0: kw['valid_intrinsics_region']=keep(REG[o['reg']].copy())
                S[k]=mrcal.cameramodel(**kw)
            elif o['op']=='newopt':
                kw={}
                if o['opt']: kw['optimization_inputs']=keep(opt(o['opt']))
                if o['ii']!=NONE: kw['icam_intrinsics']=o['ii']
                if o['ie']!=NONE: kw['icam_extrinsics']=o['ie']
                if o['reg']>=0: kw['valid_intrinsics_region']=keep(REG[o['reg']].copy())
                S[k]=mrcal.cameramodel(**kw)
            elif o['op']=='intr':
                kw={}
                if o['lens']!=NONE: kw['intrinsics']=keep(copyval(LENS[o['lens']]))
                if o['size']!=NONE: kw['imagersize']=keep(np.array(SIZE[o['size']])) if n%2 else SIZE[o['size']]
                if o['opt']:
                    d=opt(o['opt'])
                    # as another model reports it
                    if n%2: d=mrcal.cameramodel(optimization_inputs=d,icam_intrinsics=0,icam_extrinsics=-1).optimization_inputs()
                    kw['optimization_inputs']=keep(d)
                if o['ii']!=NONE: kw['icam_intrinsics']=o['ii']
                if o['ie']!=NONE: kw['icam_extrinsics']=o['ie']
                S[k].intrinsics(**kw)
            elif o['op']=='pose':
                getattr(S[k],o['kind'])(keep(FORMS[o['kind']][o['pose']].copy()) if o['pose']>=0 else np.ones(FORMS[o['kind']][0].shape)[:-1])
            elif o['op']=='reg': S[k].valid_intrinsics_region(keep(REG[o['reg']].copy()))
            elif o['op']=='resetreg': S[k].valid_intrinsics_region_reset()
            elif o['op']=='resetopt': S[k].optimization_inputs_reset()
            elif o['op']=='sizeset': S[k].imagersize(SIZE[1])
            elif o['op']=='optset': S[k].optimization_inputs(opt(1))
            elif o['op']=='copy': S[k]=mrcal.cameramodel(S[o['from']-1])
            elif o['op']=='file':
                m=S[o['from']-1]; v=o['via']
                if v=='path': m.write('x.cameramodel'); S[k]=mrcal.cameramodel('x.cameramodel')
                elif v=='note': m.write('x.cameramodel',note="first line\n{'lensmodel': 'second'}\n"); S[k]=mrcal.cameramodel('x.cameramodel')
                elif v=='file':
                    with open('y.cameramodel','w') as f: m.write(f)
                    with open('y.cameramodel') as f: S[k]=mrcal.cameramodel(f)
                elif v=='str': S[k]=mrcal.cameramodel(io.StringIO(str(m)))
                else:
                    ns={'mrcal':mrcal,'array':np.array,'int32':np.int32,'float64':np.float64,'nan':np.nan}
                    S[k]=eval(repr(m),ns)
            elif o['op']=='many':
                I=LENS[2]; W=o['which']; z=SIZE[1]
                mrcal.cameramodel(mrcal.cameramodel(intrinsics=LENS[1],imagersize=z)).write('z.cameramodel')
                d=opt(1)
                a={1:lambda: mrcal.cameramodel('z.cameramodel',intrinsics=I,imagersize=z),
                   2:lambda: mrcal.cameramodel('z.cameramodel',rt_cam_ref=np.zeros(6)),
                   3:lambda: mrcal.cameramodel(intrinsics=I,imagersize=z,rt_cam_ref=np.zeros(6),Rt_ref_cam=FORMS['Rt_ref_cam'][0]),
                   4:lambda: mrcal.cameramodel(intrinsics=I,imagersize=z,optimization_inputs=d,icam_intrinsics=0),
                   5:lambda: mrcal.cameramodel(),
                   6:lambda: mrcal.cameramodel(rt_cam_ref=np.zeros(6)),
                   7:lambda: mrcal.cameramodel(intrinsics=I,rt_cam_ref=np.zeros(6)),
                   8:lambda: mrcal.cameramodel('z.cameramodel',optimization_inputs=d,icam_intrinsics=0),
                   9:lambda: mrcal.cameramodel('does-not-exist.cameramodel')}[W]
                S[k]=a()
        except Exception: err=True
        for u in used: scribble(u)
        match=[]
        if S[0] is not None and S[1] is not None:
            try: match=[int(S[0]._optimization_inputs_match(S[1]))]
            except Exception: match=[-1]
        st=dict(err=err,m=[observe(S[0]),observe(S[1])],match=match)
        steps.append(st)
    return dict(steps=steps)
