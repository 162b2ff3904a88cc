"""Evaluates the measurement vector of the problems of MCResidual, and the functions that look at parts of it."""
import numpy as np, mrcal
from pose import rvec
LENS=['LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON','LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=0.40','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=7_fov_x_deg=150']
RC=[(1,0,0,0),(5,0,1,0),(6,1,-1,2),(-4,0,0,1)]; TC=[(0,0,0),(1,0,-1),(-2,1,1),(1,2,3)]
RF=[(1,0,0,0),(3,0,0,1),(5,1,1,0),(4,-1,1,1),(0,0,0,1)]; TF=[(-1,-1,8),(0,1,9),(1,-1,12),(-2,0,10),(1,2,11)]
def rt(R,T,i): return np.hstack((rvec(R[i-1],False),np.array(T[i-1],float)))
def intrinsics(lens,n):
    lm=LENS[lens]; N=mrcal.lensmodel_num_params(lm); out=np.zeros((n,N))
    for i in range(n):
        out[i,:4]=(1000+i*7,1010+i*5,1010+3*i,740-4*i)
        if lens==8: out[i,4:]=1e-3*np.sin(np.arange(N-4)*1.7+i)
        elif N>4: out[i,4:]=1e-3*(1+np.arange(N-4)%5)+1e-4*i
        if lens in(6,7): out[i,4:6]=(2e-2+1e-3*i,3e-2+1e-3*i)
    return out
def vec(r): return np.array(r['t'],float)/r['d']
def direct(v,lens,intr):
    """pinhole: by the definition. Others: project(), which is what Projection.tla is about"""
    if lens: return mrcal.project(v,LENS[lens],intr)
    return v[...,:2]/v[...,2:]*intr[...,:2]+intr[...,2:4]
def cp(p): return {k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in p.items()}
def same(a,b): return all(np.array_equal(a[k],b[k]) if isinstance(a[k],np.ndarray) else a[k]==b[k] for k in a)
def build(c):
    p=c['p']; b=p['board']; W,H=b['W'],b['H']; lens=p['lens']; fl=p['flags']
    I=intrinsics(lens,p['ni'])
    ob=np.array(p['ob'],dtype=np.int32).reshape(-1,3); op=np.array(p['op'],dtype=np.int32).reshape(-1,3)
    eb=np.array([[[vec(v) for v in row] for row in o] for o in c['exp']['ob']]).reshape(-1,H,W,3)
    ep=np.array([vec(v) for v in c['exp']['op']]).reshape(-1,3)
    qb=direct(eb,lens,I[ob[:,1]][:,None,None,:]) if len(ob) else np.zeros((0,H,W,2))
    qp=direct(ep,lens,I[op[:,1]]) if len(op) else np.zeros((0,2))
    wb=np.array(p['wb'],float).reshape(-1,H,W,1)/8; wp=np.array(p['wp'],float).reshape(-1,1)/8
    e=np.array(c['e']['b'],float).reshape(-1,H,W,2); f=np.array(c['e']['p'],float).reshape(-1,2)
    d=dict(lensmodel=LENS[lens],intrinsics=I,imagersizes=np.array([[2000,1500]]*p['ni'],dtype=np.int32),
      rt_cam_ref=np.array([rt(RC,TC,i) for i in p['exts']]).reshape(-1,6),rt_ref_frame=np.array([rt(RF,TF,i) for i in p['frames']]).reshape(-1,6),
      points=np.array(p['points'],float).reshape(-1,3),Npoints_fixed=p['npf'],
      observations_board=np.concatenate((qb-e,wb),axis=-1),indices_frame_camintrinsics_camextrinsics=ob,
      observations_point=np.concatenate((qp-f,wp),axis=-1),indices_point_camintrinsics_camextrinsics=op,
      calibration_object_spacing=b['s']/2,calobject_warp=np.array((b['wx']/8,b['wy']/8)),
      do_apply_outlier_rejection=False,do_apply_regularization_unity_cam01=False,verbose=False)
    for k,n in enumerate(('intrinsics_core','intrinsics_distortions','extrinsics','frames','calobject_warp')): d['do_optimize_'+n]=bool(fl[k])
    d['do_apply_regularization']=bool(fl[5])
    if p['warpnone']==0: d['calobject_warp']=None; d['do_optimize_calobject_warp']=False
    if mrcal.num_states(**d)==0: d['do_optimize_frames']=True
    if mrcal.num_states(**d)==0: d['do_optimize_intrinsics_core']=True
    return d,eb,ep
KW=dict(no_factorization=True)
def eighths(x,tol=1e-5):
    y=np.asarray(x)*8; r=np.round(y)
    if not np.all(np.isfinite(y)) or np.max(np.abs(y-r),initial=0)>tol: return 'off lattice, by %g'%np.max(np.abs(y-r))
    return [int(v) for v in r.ravel()]
def run(c):
    d,eb,ep=build(c); p=c['p']; lens=p['lens']; W,H=p['board']['W'],p['board']['H']; o=dict(bad=[])
    bad=o['bad'].append
    cl=lambda a,b,t=1e-9: np.shape(a)==np.shape(b) and np.max(np.abs(np.asarray(a)-b),initial=0)<t
    d0=cp(d)
    b,x,J,_=mrcal.optimizer_callback(**d,**KW)
    nb,np_=len(p['wb'])*2,len(p['wp'])*2
    o['x']=eighths(x[:nb+np_]); o['n']=int(mrcal.num_measurements_boards(**d)+mrcal.num_measurements_points(**d))
    J=J.toarray()[:nb+np_]; w=np.repeat(np.array(p['wb']+p['wp'],float)/8,2)
    d1=cp(d); d1['observations_board'][...,2]=1; d1['observations_point'][...,2]=1
    J1=mrcal.optimizer_callback(**d1,**KW)[2].toarray()[:nb+np_]
    if not cl(J,J1*np.maximum(w,0)[:,None],1e-9*max(1,np.abs(J1).max(initial=0))): bad('jacobian_weight')
    # the same measurements whatever is being optimized
    for k in range(3):
        d2=cp(d)
        for i,n in enumerate(('intrinsics_core','intrinsics_distortions','extrinsics','frames','calobject_warp')):
            d2['do_optimize_'+n]=bool((p['off']+i*k+k*k)%3) and not (n=='calobject_warp' and d['calobject_warp'] is None)
        if mrcal.num_states(**d2)==0: continue
        if not cl(mrcal.optimizer_callback(**d2,**KW)[1][:nb+np_],x[:nb+np_],1e-12*1e3): bad('x_depends_on_locks')
    # looking at parts of the measurements, given as is or recomputed
    for cam in range(-1,p['ni']):
        ic=None if cam<0 else cam
        for xx in (None,x):
            m=mrcal.measurements_board(d,icam_intrinsics=ic,x=xx); m_,q=mrcal.measurements_board(d,icam_intrinsics=ic,x=xx,return_observations=True)
            s=c['selb'][cam+1]
            if not (cl(m,x[:nb].reshape(-1,2)[s]) and cl(m_,m) and cl(q,d['observations_board'].reshape(-1,3)[s,:2])): bad('measurements_board')
            m=mrcal.measurements_point(d,icam_intrinsics=ic,x=xx); m_,q=mrcal.measurements_point(d,icam_intrinsics=ic,x=xx,return_observations=True)
            s=c['selp'][cam+1]
            if not (cl(m,x[nb:nb+np_].reshape(-1,2)[s]) and cl(m_,m) and cl(q,d['observations_point'].reshape(-1,3)[s,:2])): bad('measurements_point')
        if len(p['ob']):
            mine=[k for k,z in enumerate(p['ob']) if cam<0 or z[1]==cam]
            h=mrcal.hypothesis_board_corner_positions(icam_intrinsics=ic,**d)
            F=eb.reshape(-1,3)
            if not(cl(h[0],eb) and cl(h[1],eb[mine]) and cl(h[2],F[c['selb'][cam+1]]) and cl(h[3],F[c['outb'][cam+1]])): bad('hypothesis_board_corner_positions')
            ix=d['observations_board'][...,2]<0.6; i0=ix.copy()
            h=mrcal.hypothesis_board_corner_positions(icam_intrinsics=ic,idx_inliers=ix,**d)
            if not(cl(h[2],eb[mine][i0[mine]]) and cl(h[3],eb[mine][~i0[mine]])): bad('hypothesis_idx_inliers')
            if not np.array_equal(ix,i0): bad('idx_inliers_modified')
    if not same(d,d0): bad('inputs_modified')
    # the board
    g=c['g']; B=g['board']; warp=np.array((B['wx']/8,B['wy']/8)) if (B['wx'] or B['wy'] or p['off']%2) else None
    r=mrcal.ref_calibration_object(B['W'],B['H'],B['s']/2,calobject_warp=warp,x_corner0=g['x0'],x_corner1=g['x1'],Nx=g['Nx'],y_corner0=g['y0'],y_corner1=g['y1'],Ny=g['Ny'])
    if not cl(r,np.array([[vec(v) for v in row] for row in c['grid']])): bad('ref_calibration_object')
    full=mrcal.ref_calibration_object(B['W'],B['H'],B['s']/2,calobject_warp=warp)
    if full.shape!=(H,W,3): bad('ref_calibration_object')
    if len(p['ob']) and not cl(mrcal.ref_calibration_object(optimization_inputs=d),full): bad('ref_calibration_object_inputs')
    ani=mrcal.ref_calibration_object(B['W'],B['H'],np.array((B['s']/2,3.)),calobject_warp=warp)
    if not cl(ani,full*np.array((1,6./B['s'],1))): bad('ref_calibration_object_anisotropic')
    ww=np.array([[(.1,.2),(0,.3),(-.2,0)],[(.4,-.2),(0,0),(.7,.1)]])
    bc=mrcal.ref_calibration_object(B['W'],B['H'],B['s']/2,calobject_warp=ww)
    if bc.shape!=(2,3,H,W,3) or not all(cl(bc[i,j],mrcal.ref_calibration_object(B['W'],B['H'],B['s']/2,calobject_warp=ww[i,j])) for i in range(2) for j in range(3)): bad('ref_calibration_object_broadcast')
    sp=np.array([(.5,.25),(1,2.),(3,1)]); bc=mrcal.ref_calibration_object(B['W'],B['H'],sp,calobject_warp=warp)
    if bc.shape!=(3,H,W,3) or not all(cl(bc[i],mrcal.ref_calibration_object(B['W'],B['H'],sp[i],calobject_warp=warp)) for i in range(3)): bad('ref_calibration_object_broadcast')
    # perfect data
    for sig in (0,0.01):
        d3=cp(d); np.random.seed(p['off']); mrcal.make_perfect_observations(d3,observed_pixel_uncertainty=sig)
        e={k:v for k,v in d.items() if not k.startswith('observations')}
        if not same(e,d3): bad('make_perfect_modified')
        if not (np.array_equal(d3['observations_board'][...,2],d['observations_board'][...,2]) and np.array_equal(d3['observations_point'][...,2],d['observations_point'][...,2])): bad('make_perfect_weights')
        x3=mrcal.optimizer_callback(**d3,**KW)[1][:nb+np_]
        if sig==0:
            if np.max(np.abs(x3),initial=0)>1e-7: bad('make_perfect_observations')
            d3['observations_board'][...,2]=1; d3['observations_point'][...,2]=1
            if np.max(np.abs(mrcal.optimizer_callback(**d3,**KW)[1][:nb+np_]),initial=0)>1e-7: bad('make_perfect_outliers')
        else:
            if np.max(np.abs(x3),initial=0)>sig*8: bad('make_perfect_noise')
            if np.any(x3[w>0]==0): bad('make_perfect_noise_missing')
    o['bad']=sorted(set(o['bad']))
    return o
