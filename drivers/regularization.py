"""Evaluates the regularization terms of problems."""
import numpy as np, mrcal
from residual import cp, same
def run(r):
    c=r['c']; nc=len(c['size']); ne=len(c['t']); lm=c['name']
    I=np.zeros((nc,4+c['nd']))
    for i in range(nc):
        I[i,:2]=1500; I[i,2:4]=np.array(c['center'][i])/4; I[i,4:]=np.array(c['d'][i])/1000
    ob=np.array([[f,i,min(i,ne)-1] for f in range(c['nf']) for i in range(nc)],dtype=np.int32)
    q=np.zeros((len(ob),3,4,3)); q[...,0]=np.arange(4)*50+900; q[...,1]=np.arange(3)[:,None]*50+700; q[...,2]=1
    d=dict(lensmodel=lm,intrinsics=I,imagersizes=np.array(c['size'],dtype=np.int32),
      rt_cam_ref=np.array([[.01*k,-.02,.01]+[x/10 for x in t] for k,t in enumerate(c['t'])]).reshape(-1,6),
      rt_ref_frame=np.array([[.1,.05*f,0,-.2,-.1,8.+f] for f in range(c['nf'])]),points=None,observations_board=q,indices_frame_camintrinsics_camextrinsics=ob,
      observations_point=None,indices_point_camintrinsics_camextrinsics=None,calibration_object_spacing=.2,calobject_warp=np.array((.01,.02)),
      do_optimize_intrinsics_core=bool(c['core']),do_optimize_intrinsics_distortions=bool(c['dist']),do_optimize_extrinsics=bool(c['ext']),do_optimize_frames=True,do_optimize_calobject_warp=True,
      do_apply_regularization_unity_cam01=bool(c['unity']),do_apply_outlier_rejection=False,verbose=False)
    if c['reg']!=2: d['do_apply_regularization']=bool(c['reg'])
    d0=cp(d)
    b,x,J,_=mrcal.optimizer_callback(**d,no_factorization=True)
    n0=ob.shape[0]*3*4*2; y=x[n0:]; o=dict(n=len(y),total=len(x)); 
    at=mrcal.measurement_index_regularization(**d); o['at']=-1 if at is None else int(at); o['nf']=int(mrcal.num_measurements_regularization(**d))
    out=[]
    for v,t in zip(y,r['terms']):
        w=v*t[2]*np.sqrt(t[1]); k=np.round(w); out.append(int(k) if abs(w-k)<1e-7*max(1,abs(k)) else 'off: %r'%w)
    o['x']=out
    J=J.toarray(); h=1e-5; ok=1
    N=len(b); cols=[k for k in range(N) if np.any(J[n0:,k])]
    for k in range(N):
        bb=b.copy(); bb[k]+=h; e=cp(d); mrcal.ingest_packed_state(bb,**e); xp=mrcal.optimizer_callback(**e,no_jacobian=True,no_factorization=True)[1][n0:]
        bb[k]-=2*h; e=cp(d); mrcal.ingest_packed_state(bb,**e); xm=mrcal.optimizer_callback(**e,no_jacobian=True,no_factorization=True)[1][n0:]
        g=(xp-xm)/(2*h)
        if np.max(np.abs(g-J[n0:,k]),initial=0)>1e-5*max(1,np.max(np.abs(g),initial=0)): ok=0; o.setdefault('col',k)
    o['jac']=ok
    o['again']=int(np.array_equal(mrcal.optimizer_callback(**d,no_jacobian=True,no_factorization=True)[1],x))
    o['same']=int(same(d,d0))
    return o
