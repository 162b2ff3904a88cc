"""Polygons: differences, regions, contours."""
import numpy as np, mrcal, subprocess, sys, os
B=os.environ['MRCAL_BUILD']; S=70
PT=np.array([(S*i+21,S*j+40) for j in range(-2,15) for i in range(-2,15)])
def inside(p,x):
    """number of crossings of a ray to the right, for float polygons; 1 if odd. p is closed, x is (N,2)"""
    a,b=p[:-1,None,:],p[1:,None,:]
    across=(a[...,1]<=x[:,1])!=(b[...,1]<=x[:,1])
    dy=np.where(across,b[...,1]-a[...,1],1)
    return np.sum(across&(a[...,0]+(x[:,1]-a[...,1])*(b[...,0]-a[...,0])/dy>x[:,0]),axis=0)%2
def dist(p,x):
    a,d=p[:-1,None,:],(p[1:]-p[:-1])[:,None,:]
    l=np.sum(d*d,axis=-1); t=np.clip(np.sum((x-a)*d,axis=-1)/np.where(l==0,1,l),0,1)
    return np.min(np.linalg.norm(a+t[...,None]*d-x,axis=-1),axis=0)
def model(region):
    m=mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((10.,10,5,5))),imagersize=(20,20),valid_intrinsics_region=region)
    return m
def run(c):
    def arr(p,closed): 
        a=np.array(p,dtype=int if c['int'] else float).reshape(-1,2)
        return np.vstack((a,a[:1])) if closed and len(a) else a
    if c['api']=='diff':
        a,b=arr(c['a'],c['closed']),arr(c['b'],c['closed']); a0,b0=a.copy(),b.copy()
        r=mrcal.polygon_difference(a,b)
        o=dict(pieces=int(isinstance(r,list) and all(isinstance(p,np.ndarray) and p.ndim==2 and p.shape[1]==2 and p.shape[0]>=4 and np.array_equal(p[0],p[-1]) for p in r)),same=int(np.array_equal(a,a0) and np.array_equal(b,b0)),pts=PT.tolist())
        P=PT/S; z=np.zeros(len(P),dtype=int)
        o['count']=sum((inside(p,P) for p in r),z).tolist()
        o['near']=sum(((dist(p,P)<1e-6).astype(int) for p in r),z).tolist()
        return o
    if c['api']=='within':
        m=model(None if c['none'] else arr(c['a'],1))
        q=PT/S
        f=c['form']
        if f=='point': q=q[100]; pts=PT[100:101]
        elif f=='list': pts=PT
        elif f=='grid': q=q.reshape(17,17,2); pts=PT
        elif f=='none': q=q[:0]; pts=PT[:0]
        elif f=='float32': q=q.astype(np.float32); pts=PT
        elif f=='strided': q=np.asfortranarray(q.reshape(17,17,2))[::2,1::3]; pts=PT.reshape(17,17,2)[::2,1::3].reshape(-1,2)
        else: q=q[:280].reshape(2,7,20,2); pts=PT[:280]
        q0=q.copy(); r=mrcal.is_within_valid_intrinsics_region(q,m)
        o=dict(pts=pts.tolist(),same=int(np.array_equal(q,q0)),tool=[],ran=0,shape=1)
        if r is None: o['mask']='none'; return o
        o['shape']=int(r.shape==q.shape[:-1] and r.dtype==bool); o['mask']=[int(x) for x in r.ravel()]
        if c['tool'] and not c['none'] and len(pts):
            m.write('m.cameramodel'); o['ran']=1
            s='# a x b y\n'+''.join('%d %.9f - %.9f\n'%(i,x,y) for i,(x,y) in enumerate(q.reshape(-1,2)))
            out=subprocess.run([sys.executable,B+'/mrcal-is-within-valid-intrinsics-region','--cols-xy','x','y','m.cameramodel'],input=s.encode(),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=dict(os.environ,PATH='/usr/bin:/bin')).stdout.decode()
            L=[l.split() for l in out.split('\n') if l and not l.startswith('##')]
            try:
                ok=L[0]==['#','a','x','b','y','is-within-valid-intrinsics-region'] and all(int(l[0])==i and l[2]=='-' for i,l in enumerate(L[1:]))
                o['tool']=[int(float(l[4])) for l in L[1:]] if ok else out[:300]
            except Exception as e: o['tool']=repr(e)+out[:300]
        return o
    if c['none']: r=mrcal.close_contour(None); return dict(out='none' if r is None else repr(r))
    a=arr(c['a'],c['closed'])
    if not c['a'] and c['closed']: a=np.zeros((0,) if c['int'] else (0,2))
    a0=a.copy(); r=mrcal.close_contour(a)
    return dict(out=[[int(x) for x in p] for p in r],shape=int(r.ndim==2 and r.shape[1]==2),asis=int(bool(c['closed'] and c['a'])<=(r is a)),same=int(np.array_equal(a,a0)))
