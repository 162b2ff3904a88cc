"""Builds mrcal optimization_inputs from an abstract problem description (see spec/Layout.tla)."""
import numpy as np
NAMES={0:'intrinsics',1:'rt_cam_ref',2:'rt_ref_frame',3:'points',4:'calobject_warp'}

def intrinsics_for(model, nd, ncam, imagersizes):
    out=np.zeros((ncam,4+nd))
    for i in range(ncam):
        out[i,:4]=(1000+i*7, 1010+i*5, 0.5*imagersizes[i,0]+3+i, 0.5*imagersizes[i,1]-4+i)
        if nd:
            out[i,4:]=1e-4*(1+np.arange(nd))+1e-5*i
            if 'CAHVOR' in model: out[i,4:6]=(2e-3+1e-4*i,3e-3+1e-4*i)
    return out

def build(c, explicit_flags=True, nudge=0.):
    """Returns a fresh dict with generic (asymmetric) parameter values: every scalar
    parameter has a value that differs from all the others."""
    ncam=c['ncam']
    imagersizes=np.array([[2000+10*i,1500+6*i] for i in range(ncam)],dtype=np.int32)
    p=dict(lensmodel=c['model'], imagersizes=imagersizes,
           intrinsics=intrinsics_for(c['model'],c['nd'],ncam,imagersizes))
    p['rt_cam_ref']=np.array([[0.011+0.001*i,-0.012+.0013*i,0.013+.0017*i, 0.31+.21*i,-0.12+.013*i,0.14+.017*i] for i in range(c['next'])]).reshape(-1,6)
    p['rt_ref_frame']=np.array([[0.021+0.0011*i,-0.022+.0019*i,0.023+.0023*i, -0.51+.023*i,0.22-.03*i,3.9+.17*i] for i in range(c['nf'])]).reshape(-1,6)
    p['points']=np.array([[0.35+0.029*i,-0.42+.031*i,4.6+.13*i] for i in range(c['np'])]).reshape(-1,3)
    W,H=c['W'],c['H']
    nob=len(c['ob'])
    ob=np.zeros((nob,H,W,3))
    # chessboard observations: something plausible, not perfect
    for k in range(nob):
        for y in range(H):
            for x in range(W):
                ob[k,y,x]=(900+11*k+53*x+1.7*y, 700+13*k+47*y+2.3*x, 1.0-0.03*((k+x+2*y)%5))
    for t,i,k in c.get('out',[]):   # rejected observations
        if t==0: ob.reshape(nob,H*W,3)[i,k,2]*=(-1,0)[(i+k)%2]
    p['observations_board']=ob
    p['indices_frame_camintrinsics_camextrinsics']=np.array(c['ob'],dtype=np.int32).reshape(-1,3)
    op=np.array([[1010+17*k,770+19*k,1.0-0.02*(k%7)] for k in range(len(c['op']))]).reshape(-1,3)
    for t,i,k in c.get('out',[]):
        if t==1: op[i,2]*=(-1,0)[i%2]
    p['observations_point']=op
    p['indices_point_camintrinsics_camextrinsics']=np.array(c['op'],dtype=np.int32).reshape(-1,3)
    if c['tri']:
        ind=[]; obs=[]
        for s,t in enumerate(c['tri']):
            for k,(ci,ce) in enumerate(t):
                ind.append([s,ci,ce])
                obs.append([980+23*s+31*k+ (7*k*k)%13, 740+29*s-17*k, 1.0])
        p['indices_point_triangulated_camintrinsics_camextrinsics']=np.array(ind,dtype=np.int32)
        p['observations_point_triangulated']=np.array(obs)
    p['calobject_warp']=np.array([0.0031,-0.0042])
    # make all the parameter values different
    k=0
    for name in NAMES.values():
        a=p[name].reshape(-1)
        a+=(1+k+np.arange(len(a)))*1.23457e-6
        k+=len(a)
    p['calibration_object_spacing']=0.11
    p['Npoints_fixed']=c['npf']
    p['do_optimize_intrinsics_core']=bool(c['core'])
    p['do_optimize_intrinsics_distortions']=bool(c['dist'])
    p['do_optimize_extrinsics']=bool(c['ext'])
    p['do_optimize_frames']=bool(c['frames'])
    p['do_optimize_calobject_warp']=bool(c['warp'])
    p['do_apply_regularization']=bool(c['reg'])
    p['do_apply_regularization_unity_cam01']=bool(c['unity'])
    p['do_apply_outlier_rejection']=False
    p['verbose']=False
    return p

def params(p):
    """flat list of ((kind,which,comp), value)"""
    out=[]
    for kind,name in NAMES.items():
        a=p[name]
        if kind==4: a=a.reshape(1,2)
        for i in range(a.shape[0]):
            for k in range(a.shape[1]): out.append(((kind,i,k),float(a[i,k])))
    return out
