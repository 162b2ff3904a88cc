"""Seeds of calibrations from exact observations."""
import copy
import numpy as np, mrcal
from residual import LENS, intrinsics, RC, TC, RF, TF
def mat(q):
    a,b,c,d=q; n=a*a+b*b+c*c+d*d
    return np.array(((a*a+b*b-c*c-d*d,2*(b*c-a*d),2*(b*d+a*c)),(2*(b*c+a*d),a*a-b*b+c*c-d*d,2*(c*d-a*b)),(2*(b*d-a*c),2*(c*d+a*b),a*a-b*b-c*c+d*d)))/n
def rodrigues(r):
    th=np.linalg.norm(r)
    K=np.array(((0,-r[2],r[1]),(r[2],0,-r[0]),(-r[1],r[0],0)))
    if th<1e-14: return np.eye(3)+K
    return np.eye(3)+np.sin(th)/th*K+(1-np.cos(th))/th**2*(K@K)
def num(R,t,e):
    """the exact pose e, if this is that up to 1e-5"""
    n=sum(x*x for x in e['q']); d=e['d']; out=[]
    for row,k in ((R[0],n),(R[1],n),(R[2],n),(t,d)):
        v=np.asarray(row)*k; i=np.round(v)
        if not np.all(np.isfinite(v)): return 'nan'
        out.append([int(x) if abs(x-y)<1e-5*k+1e-9 or abs(x-y)<1e-4 else -999999999 for x,y in zip(i,v)])
    return out
def poses(got,exp,kind):
    if len(got)!=len(exp): return 'got %d'%len(got)
    out=[]
    for g,e in zip(got,exp):
        if np.shape(g)!=((6,) if kind=='rt' else (4,3)): return 'shape %s'%(np.shape(g),)
        R,t=(rodrigues(g[:3]),g[3:]) if kind=='rt' else (g[:3],g[3])
        out.append(num(R,t,e))
    return out
def run(r):
    c=r['c']; api=c['api']; W,H=c['W'],c['H']; sp=c['s']/2; nc=len(c['cams'])
    sizes=[[2000+10*i,1500-4*i] for i in range(nc)]
    sz={'array':np.array(sizes),'tuple':tuple(tuple(x) for x in sizes),'mix':[np.array(x) for x in sizes]}[c['sizes']]
    rows=np.array(c['rows'],dtype=np.int32)
    A=lambda R,T,i:(mat(R[i-1]),np.array(T[i-1],float))
    f=[float(x) for x in c['focal']]; lens=1 if api=='seed' else c['lens']; I=intrinsics(lens,nc)
    if api=='seed':
        for i in range(nc): I[i]=[f[0] if len(f)==1 else f[i] if i<len(f) else 1]*2+[(sizes[i][0]-1)/2,(sizes[i][1]-1)/2]
    board=np.zeros((H,W,3)); board[...,0]=np.arange(W)*sp; board[...,1]=(np.arange(H)*sp)[:,None]
    obs=np.zeros((len(rows),H,W,3)); Rt=np.zeros((len(rows),4,3))
    C0=A(RC,TC,c['cams'][0])
    for k,(fr,ca) in enumerate(c['rows']):
        Rc,tc=A(RC,TC,c['cams'][ca]); Rf,tf=A(RF,TF,c['frames'][fr])
        if api=='joint': tf=tf+C0[0].T@np.array(c['move'][k],float)     # displaced in the coordinates of camera 0
        R=Rc@Rf; t=Rc@tf+tc; Rt[k,:3]=R; Rt[k,3]=t
        if api!='joint':
            obs[k,...,:2]=mrcal.project(board@R.T+t,LENS[lens],I[ca]); w=np.array(c['w'][k],float).reshape(H,W)
            obs[k,...,2]=w; obs[k,w<=0,:2]=(123.,77.)
    o=dict(cams=[],frames=[],intr=[],sizes=sizes,same=1)
    kw=dict(paths=['img%d'%i for i in range(len(rows))]) if c['paths'] else {}
    exp=r['out']
    try:
        if api=='seed':
            form=c['form']
            if form=='scalar' and len(f)>1: form='list'
            if form=='array0' and len(f)>1: form='array'
            F={'scalar':f[0],'list':f,'tuple':tuple(f),'array':np.array(f),'array0':np.array(f[0])}[form]
            a=(sz,F,rows,obs,sp); b=copy.deepcopy(a)
            intr,rc,rf=mrcal.seed_stereographic(*a,**kw)
            if not(isinstance(rc,np.ndarray) and rc.shape==(nc-1,6)): o['cams']='shape %s'%(np.shape(rc),)
            else: o['cams']=poses(rc,exp['cams'],'rt')
            o['frames']=poses(rf,exp['frames'],'rt')
            o['intr']=[[int(round(x)) if abs(x-round(x))<1e-9 else -1 for x in (i[0],i[1],2*i[2],2*i[3])] for i in np.atleast_2d(intr)] if intr.shape==(nc,4) else 'shape'
        elif api=='mono':
            M=[(LENS[lens],I[i]) for i in range(nc)]
            if c['models']: M=[mrcal.cameramodel(intrinsics=m,imagersize=sizes[i]) for i,m in enumerate(M)]
            a=(rows,obs,sp); b=copy.deepcopy(a)
            x=mrcal.estimate_monocular_calobject_poses_Rt_tocam(*a,M,**kw)
            o['frames']=poses(x,exp['frames'],'Rt')
        else:
            Rc=np.zeros((nc-1,4,3))
            for i in range(1,nc):
                R,t=A(RC,TC,c['cams'][i]); Rc[i-1,:3]=R@C0[0].T; Rc[i-1,3]=t-Rc[i-1,:3]@C0[1]
            a=(Rt,Rc,rows,W,H,sp); b=copy.deepcopy(a)
            x=mrcal.estimate_joint_frame_poses(*a)
            o['frames']=poses(x,exp['frames'],'rt')
        o['ok']=1
    except Exception as e: o['ok']=0; o['why']=repr(e)[:150]
    o['same']=int(repr(a)==repr(b))
    return o
