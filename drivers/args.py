"""Calls the optimizer and the functions that describe a problem with well-formed and malformed arguments."""
import os
import numpy as np, mrcal
NAMES={'LENSMODEL_PINHOLE':4,'LENSMODEL_OPENCV4':8,'LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=90':28}
ARR=dict(intrinsics='intrinsics',imagersizes='imagersizes',extr='rt_cam_ref',frames='rt_ref_frame',points='points',ob='observations_board',
         ib='indices_frame_camintrinsics_camextrinsics',op='observations_point',ip='indices_point_camintrinsics_camextrinsics',
         ot='observations_point_triangulated',it='indices_point_triangulated_camintrinsics_camextrinsics',warp='calobject_warp')
REF=['frames_rt_toref','extrinsics_rt_fromref']
def idx(l): return np.array(l,dtype=np.int32).reshape(len(l),3)
def build(a):
    I=np.zeros((a['ncam'],a['nin'])); I[:,:4]=np.array((1000.,1010.,499.5,399.5))[:min(4,a['nin'])]
    if a['nin']>4: I[:,4:]=1e-3*(1+np.arange(a['nin']-4))
    p=dict(intrinsics=I,lensmodel=a['lens'],imagersizes=np.tile(np.array((1000,800),dtype=np.int32),(a['nimg'],1)))
    E=np.zeros((a['next'],6)); E[:,3]=-.3*(1+np.arange(a['next'])); E[:,1]=.01
    p['rt_cam_ref']=E
    F=np.zeros((a['nf'],6)); F[:,5]=5; F[:,0]=.1*np.arange(a['nf']); F[:,1]=.05
    p['rt_ref_frame']=F
    P=np.zeros((a['np'],3)); P[:,2]=10+np.arange(a['np']); P[:,0]=.2*np.arange(a['np'])
    p['points']=P
    nob=max(0,len(a['ob'])+a['dob'])
    ob=np.ones((nob,a['H'],a['W'],3)); y,x=np.mgrid[:a['H'],:a['W']]; ob[...,0]=490+20*x+np.arange(nob).reshape(-1,1,1)*3; ob[...,1]=400+20*y
    p['observations_board']=ob; p[ARR['ib']]=idx(a['ob'])
    nop=max(0,len(a['op'])+a['dop']); o=np.ones((nop,3)); o[:,0]=500+np.arange(nop); o[:,1]=390
    p['observations_point']=o; p[ARR['ip']]=idx(a['op'])
    nt=max(0,len(a['tri'])+a['dtri']); o=np.ones((nt,3)); o[:,0]=500-20.*np.arange(nt); o[:,1]=400
    p['observations_point_triangulated']=o; p[ARR['it']]=idx(a['tri'])
    if a['warp']!='none': p['calobject_warp']=np.array((.001,.002,.003)[:2 if a['warp']=='ok' else 3])
    p['calibration_object_spacing']=dict(ok=.1,zero=0.,neg=-.1,none=None)[a['spacing']]
    if p['calibration_object_spacing'] is None: del p['calibration_object_spacing']
    p['Npoints_fixed']=a['npf']
    for k,v in zip(('do_optimize_intrinsics_core','do_optimize_intrinsics_distortions','do_optimize_extrinsics','do_optimize_frames','do_optimize_calobject_warp'),a['fl']):
        if v>=0: p[k]=bool(v)
    if a['fk']:
        k=ARR[a['fa']]; v=p.get(k); kind=a['fk']
        if kind=='absent': p.pop(k,None)
        elif kind=='none': p[k]=None
        elif v is not None:
            if kind=='dtype': p[k]=v.astype(np.float32 if v.dtype==float else np.int64)
            elif kind=='stride':
                w=np.zeros(v.shape[:-1]+(v.shape[-1]*2,),dtype=v.dtype); w[...,::2]=v; p[k]=w[...,::2]
            elif kind=='few': p[k]=v.reshape(-1) if v.ndim>1 else v[0]*np.ones(())
            elif kind=='more': p[k]=v[None].copy()
            elif kind=='last': p[k]=np.concatenate((v,v[...,-1:]),axis=-1).copy()
            elif kind=='swap': p[k]=v.astype(v.dtype.newbyteorder())
            elif kind=='trunc': p[k]=np.ascontiguousarray(v[...,:-1])
    return p
def attempt(f):
    try: f(); return 'ok'
    except CT: raise
    except Exception: return 'err'
class CT(Exception): pass
def snap(p): return {k:(v.tobytes(),v.shape,str(v.dtype)) for k,v in p.items() if isinstance(v,np.ndarray)}
def run(c):
    a=c['a']; p=build(a); s0=snap(p); o={}
    o['cb']=attempt(lambda: mrcal.optimizer_callback(**p))
    o['cbn']=attempt(lambda: mrcal.optimizer_callback(**p,no_jacobian=True,no_factorization=True))
    o['same']=int(snap(p)==s0)
    q={}
    g=lambda f,*x: attempt(lambda: getattr(mrcal,f)(*x,**p))
    for f in ('num_states','num_states_intrinsics','num_states_extrinsics','num_states_frames','num_states_points','num_states_calobject_warp','num_intrinsics_optimization_params',
              'num_measurements','num_measurements_boards','num_measurements_points','num_measurements_points_triangulated','num_measurements_regularization','measurement_index_regularization','state_index_calobject_warp'):
        q[f]=g(f)
    for f in ('state_index_intrinsics','state_index_extrinsics','state_index_frames','state_index_points','measurement_index_boards','measurement_index_points','measurement_index_points_triangulated',
              'decode_observation_indices_points_triangulated','corresponding_icam_extrinsics'):
        for i in (-1,0,1,7): q[f+str(i)]=g(f,i)
    def icam(i):
        try: return mrcal.corresponding_icam_extrinsics(i,**p)
        except RuntimeError: return -2
        except Exception: return -3
    o['icam']=[icam(i) for i in range(-1,4)]
    for f in ('pack_state','unpack_state'):
        def doit():
            b=np.ones(mrcal.num_states(**p)); getattr(mrcal,f)(b,**p)
        q[f]=attempt(doit)
    o['q']=[k for k in ('num_states','num_measurements','num_measurements_boards','num_measurements_points','num_measurements_points_triangulated','num_measurements_regularization','num_states_intrinsics','pack_state','unpack_state') if q[k]!='ok']
    o['same']=int(o['same'] and snap(p)==s0)
    o['op']=''
    if c['opt']:
        o['op']=attempt(lambda: mrcal.optimize(**p,do_apply_outlier_rejection=False))
        if o['op']=='err': o['same']=int(o['same'] and snap(p)==s0)
    return o
