"""Triangulates rays and pixels."""
import numpy as np, numpysane as nps, mrcal, subprocess, sys, os, re
from pose import RtG, padded, close, lat
B=os.environ['MRCAL_BUILD']
NAMES=['geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2','lindstrom']
def point(x,d,tol=1e-8):
    try: return lat(x,d,tol)
    except Exception as e: return 'no: %r'%(x,)
def num(v):
    r=round(v)
    return int(r) if abs(v-r)<=1e-6*max(1,abs(r)) else 'off %r'%v
def same(a,b,t=1e-7): return np.shape(a)==np.shape(b) and np.all(np.isfinite(a)) and np.max(np.abs(np.asarray(a)-b),initial=0)<=t*max(1,np.max(np.abs(b),initial=0))
def must(o,tag,f,*a,**kw):
    try: f(*a,**kw)
    except Exception: return
    o['errors'].append(tag)
def numgrad(f,args,k,h):
    x=args[k]; J=[]
    for i in range(x.size):
        e=np.zeros(x.size); e[i]=h; e=e.reshape(x.shape)
        def at(m):
            p=list(args); p[k]=x+m*e; return np.array(f(*p))
        J.append((8*(at(1)-at(-1))-(at(2)-at(-2)))/(12*h))
    J=np.array(J)                       # (Nx, ...)
    return np.moveaxis(J,0,-1).reshape(np.shape(f(*args))+x.shape)
def grad_ok(f,a,k,gi):
    for h in (1e-3,1e-4,1e-5):
        n=numgrad(f,a,k,h*np.sqrt(np.mean(a[k]**2)))
        if np.shape(gi)==n.shape and np.max(np.abs(gi-n))<=2e-4*max(np.max(np.abs(n)),1e-3): return True
    return False
def forms(o,name,v0,v1,R,t,grad,skipforms=False):
    """one function in all the ways of calling it. Rays are in coordinates of camera 0"""
    f=getattr(mrcal,'triangulate_'+name) if name!='error' else mrcal.triangulation._triangulated_error
    Rt=np.vstack((R,t)); v1l=R.T@v1
    lind=name=='lindstrom'
    cp=[x.copy() for x in (v0,v1,v1l,Rt,t)]
    y=f(v0,v1l,Rt) if lind else f(v0,v1,t)
    if skipforms: return y
    tol=1e-7 if lind else 1e-9
    def eq(a,b=y,t=tol): return same(a,b,t) 
    ways={}
    if lind: ways=dict(local=f(v0,v1l,Rt,v_are_local=True),cam0=f(v0,v1,Rt,v_are_local=False))
    else: ways=dict(t01=f(v0,v1,t01=t),Rt01=f(v0,v1,Rt01=Rt),local=f(v0,v1l,Rt01=Rt,v_are_local=True))
    for k,x in ways.items():
        if not eq(x): o['forms'].append(name+'_'+k)
    # slices that are apart in memory
    def apart(x): z=np.full((5,)+np.shape(x),9.9)[::2]; z[...]=x; return z
    out=apart(np.full(np.shape(y),9.9)); r=f(*[apart(x) for x in ((v0,v1l,Rt) if lind else (v0,v1,t))],out=out)
    if not eq(out,np.broadcast_to(y,out.shape),1e-13) or not (r is out): o['out'].append(name)
    # stacks
    s=np.array([1.,2.,.5])
    V0=v0*s[:,None]; V1=np.array([v1*.5,v1*3]) ; 
    RT=np.array([Rt,Rt,Rt])
    def stack(a,shape): return same(a,np.broadcast_to(y,shape+np.shape(y)),1e-6)
    if lind:
        V1l=V1@R
        b=[f(V0,v1l,Rt),f(v0[None],V1l,Rt),f(V0[:,None],V1l,Rt),f(v0,v1l,RT),f(v0,v1,RT,v_are_local=False),f(V0,v1,RT,v_are_local=False)]
        sh=[(3,),(2,),(3,2),(3,),(3,),(3,)]
    else:
        T=np.array([t,t,t])
        b=[f(V0,v1,t),f(v0,V1,t),f(V0[:,None],V1,t),f(v0,v1,T),f(v0,v1,Rt01=RT),f(V0,R.T@v1,Rt01=RT,v_are_local=True),f(v0,V1@R,Rt01=Rt,v_are_local=True)]
        sh=[(3,),(2,),(3,2),(3,),(3,),(3,),(2,)]
    for k,(x,q) in enumerate(zip(b,sh)):
        if not stack(x,q): o['bcast'].append('%s_%d'%(name,k))
    if lind: must(o,name+'_grad_cam0',f,v0,v1,Rt,v_are_local=False,get_gradients=True)
    else:
        must(o,name+'_none',f,v0,v1); must(o,name+'_both',f,v0,v1,t,Rt01=Rt); must(o,name+'_local_t',f,v0,v1l,t,v_are_local=True)
        must(o,name+'_grad_local',f,v0,v1l,Rt01=Rt,v_are_local=True,get_gradients=True); must(o,name+'_grad_Rt',f,v0,v1,Rt01=Rt,get_gradients=True)
    must(o,name+'_shape',f,v0[:2],v1,Rt if lind else t); must(o,name+'_shape_t',f,v0,v1,Rt[:3] if lind else t[:2])
    if grad:
        a=(v0,v1l,Rt) if lind else (v0,v1,t)
        g=f(*a,get_gradients=True)
        if not eq(g[0],y,1e-12): o['grad'].append(name+'_value')
        which=(1,2) if name=='error' else (0,1,2)
        for gi,k in zip(g[1:],which):
            if not grad_ok(f,a,k,gi): o['grad'].append('%s_d%d'%(name,k))
        if len(g)!=len(which)+1: o['grad'].append(name+'_number')
        go=[apart(np.full(x.shape,9.9)) for x in g]
        f(*[apart(x) for x in a],get_gradients=True,out=tuple(go))
        if not all(same(x,np.broadcast_to(z,x.shape),1e-13) for x,z in zip(go,g)): o['out'].append(name+'_grad')
        gb=f(V0,*a[1:],get_gradients=True)
        if not all(x.shape==(3,)+z.shape for x,z in zip(gb,g)) or not same(gb[-1][1],g[-1],1e-6): o['bcast'].append(name+'_grad')
    if not all(np.array_equal(x,z) for x,z in zip(cp,(v0,v1,v1l,Rt,t))): o['pure'].append(name)
    return y
def run(r):
    c=r['c']; o=dict(pure=[],out=[],bcast=[],forms=[],grad=[],errors=[])
    R=RtG[c['g']-1][:3].copy(); t=np.array(c['t'],float); v0=np.array(c['v0'],float); v1=np.array(c['v1'],float)
    return dict(meet=meet,skew=skew,pair=pair)[c['kind']](r,c,o,R,t,v0,v1)
def meet(r,c,o,R,t,v0,v1):
    o['m']={}
    front=v0[2]>0 and (R.T@v1)[2]>1e-9
    parallel=np.all(np.cross(v0,v1)==0); ok=not parallel and c['a']>0 and c['b']>0
    for n in NAMES:
        if n=='lindstrom' and not front: continue
        o['m'][n]=point(forms(o,n,v0,v1,R,t,ok and n!='leecivera_l1',skipforms=parallel),1,1e-6 if n=='lindstrom' else 1e-8)
    if ok:
        e=forms(o,'error',v0,v1,R,t,False,skipforms=True); o['err']=0 if abs(e)<1e-6 else repr(e)
    return o
def skew(r,c,o,R,t,v0,v1):
    m={}
    for n in NAMES:
        if n=='lindstrom' and not (v0[2]>0 and (R.T@v1)[2]>1e-9): continue
        m[n]=forms(o,n,v0,v1,R,t,False)
        if n!='lindstrom' and np.any(m[n]): forms(dict(o,forms=[],out=[],bcast=[],errors=[],pure=[]),n,v0,v1,R,t,True)
    o['geo']=point(m['geometric'],r['geo']); o['l1']=point(m['leecivera_l1'],r['l1'])
    o['inf']=point(m['leecivera_linf'],r['inf']) if c['pyth'] else []
    def coef(m): return np.linalg.solve(np.array((v0,v1,t)).T,m)
    C=r['C']; x=m['leecivera_mid2']
    o['mid2']=[]; o['wmid2']=[]
    if np.any(x):
        k=coef(2*x)
        o['mid2']=[num(k[0]*abs(k[0])*C),num(k[1]*abs(k[1])*C)] if abs(k[2]-1)<1e-9 else ['no']
    x=m['leecivera_wmid2']
    if np.any(x):
        a,b,w=coef(x)
        n0=v0@v0; n1=v1@v1
        if not 0<w<1: o['wmid2']=['no']
        else: o['wmid2']=[num((a/w)*abs(a/w)*n0*C),num((b/(1-w))*abs(b/(1-w))*n1*C),num((w/(1-w))**2*r['B']*n1)]
    e=forms(o,'error',v0,v1,R,t,False)
    x=m['leecivera_mid2']
    if np.any(x):
        th=2*np.sqrt(2-2*abs(v0@x)/np.sqrt((v0@v0)*(x@x))); o['err']=1 if abs(e-th)<1e-7*max(1,th) else repr((e,th))
        f=mrcal.triangulation._triangulated_error; g=f(v0,v1,t,get_gradients=True)
        for gi,k in ((g[1],1),(g[2],2)):
            if not grad_ok(f,(v0,v1,t),k,gi): o['grad'].append('error_d%d'%k)
    else: o['err']=0
    return o
def model(lens,f,size,rt):
    m=mrcal.cameramodel(intrinsics=(lens,f),imagersize=size); m.Rt_ref_cam(rt); return m
def pair(r,c,o,R,t,v0,v1):
    o=dict(kind='pair')
    p=np.array(c['p'],float); Rt0=RtG[c['g0']-1]                       # ref from cam0
    Rt01=np.vstack((R,t)); Rt1=np.vstack((Rt0[:3]@R,Rt0[:3]@t+Rt0[3]))  # ref from cam1
    p1=R.T@(p-t)
    lens=['LENSMODEL_PINHOLE','LENSMODEL_LONLAT','LENSMODEL_STEREOGRAPHIC'][c['lens']]
    def core(k):
        if lens=='LENSMODEL_LONLAT': return np.array((600.+50*k,620.,800.,500.+9*k))
        return np.array((100.+10*k,103.,640.,500.+9*k))
    def proj(p,k):
        f=core(k)
        if lens=='LENSMODEL_PINHOLE': u=p[:2]/p[2]
        elif lens=='LENSMODEL_STEREOGRAPHIC': u=2*p[:2]/(np.sqrt(p@p)+p[2])
        else: u=np.array((np.arctan2(p[0],p[2]),np.arcsin(p[1]/np.sqrt(p@p))))
        return u*f[:2]+f[2:]
    ms=[model(lens,core(0),(1280,1000),Rt0),model(lens,core(1),(1280,1000),Rt1)]
    q=np.array((proj(p,0),proj(p1,1)))
    mets=NAMES
    name=NAMES[c['method']%6] if c['method']<6 else None
    S=dict(none=None,zero=0,one=c['s'])
    cal,obs=S[c['cal']],S[c['obs']]
    if obs and name=='lindstrom': name='geometric'
    kw={} if name is None else dict(method=getattr(mrcal,'triangulate_'+name))
    if c['cal']!='none': kw['q_calibration_stdev']=cal
    if c['obs']!='none': kw['q_observation_stdev']=obs; kw['q_observation_stdev_correlation']=c['r2']/2
    # shapes of the pixels and the models
    M=np.array(ms,dtype=object)
    Q,MM,sh={0:(q,ms,()),1:(q,M,()),2:(np.array((q,q,q)),ms,(3,)),3:(q,np.array((M,M)),(2,)),4:(np.array((q,q,q))[:,None],np.array((M,M)),(3,2))}[c['shape']]
    Q0=np.array(Q); before=[(m.intrinsics()[1].copy(),m.rt_cam_ref()) for m in ms]
    y=mrcal.triangulate(Q,MM,**kw)
    y=y if isinstance(y,tuple) else (y,)
    N=int(np.prod(sh,dtype=int))
    P=y[0].reshape(-1,3)
    o['p']=[point(x,1,1e-6) for x in P]
    names=['p']+(['cal'] if c['cal']!='none' else [])+(['obs'] if c['obs']!='none' else [])+(['joint'] if c['cal']!='none' and c['obs']!='none' else [])
    o['returns']=['p','cal','obs','joint'][:len(y)] if len(y)!=2 else ['p','cal' if c['cal']!='none' else 'obs']
    o['shapes']=1; o['zeros']=1; o['joint']=1; o['J']=[]; o['var']=[]
    D=dict(zip(names,y)) if len(names)==len(y) else {}
    for k,x in D.items():
        want=dict(p=sh+(3,),cal=sh+(3,)+sh+(3,),obs=sh+(3,3),joint=sh+(3,)+sh+(3,))[k]
        if x.shape!=want: o['shapes']=0
        if k=='cal' and np.any(x): o['zeros']=0
        if c['obs']!='one' and k in ('obs','joint') and np.any(x): o['zeros']=0
    if c['obs']=='one' and 'obs' in D:
        V=D['obs'].reshape(-1,3,3)
        J=np.zeros((3,4)); h=1e-2
        f=lambda q: mrcal.triangulate(q.reshape(2,2),ms,**({k:v for k,v in kw.items() if k=='method'}))
        for i in range(4):
            d=np.zeros(4); d[i]=h; x=q.ravel(); J[:,i]=(8*(f(x+d)-f(x-d))-(f(x+2*d)-f(x-2*d)))/(12*h)
        m=np.max(np.abs(J)); s=2000/m
        o['J']=np.round(J*s).astype(int).tolist()
        W=[np.round(4*v*s*s) for v in V]
        if not all(same(v,V[0]) for v in V): o['shapes']=0
        o['var']=W[0].astype(int).tolist() if np.all(np.isfinite(W[0])) and np.max(np.abs(W[0]))<2e9 else [[0]*3]*3
        if 'joint' in D:
            j=D['joint'].reshape(3*N,3*N); e=np.zeros((3*N,3*N))
            for i in range(N): e[3*i:3*i+3,3*i:3*i+3]=V[i]
            o['joint']=int(same(j,e))
    o['pure']=int(np.array_equal(Q,Q0) and all(np.array_equal(m.intrinsics()[1],a) and np.array_equal(m.rt_cam_ref(),b) for m,(a,b) in zip(ms,before)))
    o['neg']=1
    for kx in (dict(q_observation_stdev=-1.),dict(q_calibration_stdev=1.),dict(q_calibration_stdev=-1.)):
        try: mrcal.triangulate(q,ms,**kx); o['neg']=0
        except Exception: pass
    if c['tool']:
        for i,m in enumerate(ms): m.write('c%d.cameramodel'%i)
        s=subprocess.run([sys.executable,B+'/mrcal-triangulate','--method',(name or 'leecivera_mid2').replace('_','-'),'c0.cameramodel','c1.cameramodel']+['%.12g'%x for x in q.ravel()],stdout=subprocess.PIPE,stderr=subprocess.STDOUT).stdout.decode()
        g=re.search(r'Triangulated point at \[([^\]]*)\]',s)
        o['tool']=[num_(x) for x in g[1].split()] if g else s[-300:]
    return o
def num_(x):
    v=float(x); return int(round(v)) if abs(v-round(v))<5e-3 else x
