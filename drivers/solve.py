"""Replays histories of mrcal.optimize(): those of MCSolve, where everything is known, and others (MCSolveAny)."""
import numpy as np, mrcal
import residual
from residual import cp, rt, RC, TC, RF, TF
from mkproblem import params
FL=('intrinsics_core','intrinsics_distortions','extrinsics','frames','calobject_warp')
def stats_consistent(d,s,bad):
    """what is returned is what is in the arrays afterwards"""
    b,x,J,_=mrcal.optimizer_callback(**d,no_factorization=True)
    if s['x'].shape!=x.shape or np.max(np.abs(s['x']-x),initial=0)>1e-6*max(1,np.max(np.abs(x),initial=0)): bad.append('x_is_not_that_of_the_result')
    if s['b_packed'].shape!=b.shape or np.max(np.abs(s['b_packed']-b),initial=0)>1e-9*max(1,np.max(np.abs(b),initial=0)): bad.append('b_packed_is_not_that_of_the_result')
    n2=s['x']@s['x']
    if abs(s['rms_reproj_error__pixels']-np.sqrt(n2/len(x)))>1e-6*max(1e-3,np.sqrt(n2/len(x))): bad.append('rms')
    return b,x,J
def ints(x,tol=1e-3):
    r=np.round(x)
    if not np.all(np.isfinite(x)) or np.max(np.abs(x-r),initial=0)>tol: return 'off by %g'%np.max(np.abs(x-r))
    return [int(v) for v in r]
def exact(c):
    n=c['n']; s=c['s']; lens=(0,4,0,1,8,6)[n%6]
    I=residual.intrinsics(lens,2); S=.5
    ext=rt(RC,TC,1+n%4) if n%4 else np.array((.1,.02,-.03,.4,.1,.2)); frames=np.array([rt(RF,TF,1+(n+k)%4) for k in range(2)])
    pts=np.array([[1,2,11],[-2,0,9],[0,-1,12.]])
    board=mrcal.ref_calibration_object(3,3,S)
    pr=[mrcal.transform_point_rt(f,board) for f in frames]
    def q(p,cam): return mrcal.project(p if cam==0 else mrcal.transform_point_rt(ext,p),residual.LENS[lens],I[cam])
    # frame 0 by both cameras, frame 1 by both: the corners of camera 0 come first in the numbering of the specification
    order=[(0,0),(1,0),(0,1),(1,1)]; pos=[(f,cam) for f in range(2) for cam in range(2)]
    truth={(f,cam):q(pr[f],cam) for f,cam in pos}
    ob=np.array([[f,cam,cam-1] for f,cam in pos],dtype=np.int32); op=np.array([[k,cam,cam-1] for k in range(3) for cam in range(2)],dtype=np.int32)
    W=np.array(s['w'],float).reshape(4,3,3)
    obs=np.zeros((4,3,3,3))
    def put(w,e):
        e=np.array(e,float).reshape(4,3,3,2)
        for k,fc in enumerate(pos):
            m=order.index(fc); obs[k,...,:2]=truth[fc]-e[m]; obs[k,...,2]=np.array(w,float).reshape(4,3,3)[m]
    def get(): return np.array([obs[pos.index(fc),...,2] for fc in order])
    put(s['w'],s['e'])
    opt=np.zeros((6,3))
    def putp(w,e):
        for k in range(3):
            for cam in range(2):
                opt[2*k+cam]=(*(q(pts[k],cam)-(np.array(e[k]) if cam==0 else 0)), w[k] if cam==0 else 1.)
    putp(s['pw'],s['pe'])
    d=dict(lensmodel=residual.LENS[lens],intrinsics=I.copy(),imagersizes=np.array([[2000,1500]]*2,dtype=np.int32),rt_cam_ref=ext[None].copy(),rt_ref_frame=frames.copy(),points=pts.copy(),
      Npoints_fixed=n%4,observations_board=obs,indices_frame_camintrinsics_camextrinsics=ob,observations_point=opt,indices_point_camintrinsics_camextrinsics=op,
      calibration_object_spacing=S,calobject_warp=np.zeros(2),do_apply_regularization=False,do_apply_regularization_unity_cam01=False,verbose=False)
    for f in FL: d['do_optimize_'+f]= f=='extrinsics'
    d['do_optimize_extrinsics']=True
    w=list(s['w']); e=[list(x) for x in s['e']]; pw=list(s['pw']); pe=[list(x) for x in s['pe']]
    after=[]
    for o in c['ops']:
        r=dict(bad=[])
        if o[0]=='seed': d['rt_cam_ref'][...]=ext+np.array((.01,-.012,.008,.1,-.07,.11))
        elif o[0]=='err':
            e[o[1]-1]=o[2:]; keep=get(); put(w,e)
            for k,fc in enumerate(pos): obs[k,...,2]=keep[order.index(fc)]
        elif o[0]=='flip':
            m=o[1]-1; k=pos.index(order[m//9]); obs[k,(m%9)//3,m%3,2]*=-1
        elif o[0]=='point':
            pe[o[1]-1]=[o[2],0]; putp(pw,pe)
        b4=obs.copy(),opt.copy()
        if o[0]=='solve':
            d['do_apply_outlier_rejection']=bool(o[1]); d0=cp(d)
            st=mrcal.optimize(**d)
            stats_consistent(d,st,r['bad'])
            r['locked']=int(all(np.array_equal(d[k],d0[k]) for k in ('intrinsics','rt_ref_frame','points','calobject_warp','imagersizes','indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics')))
            r['sol']=int(np.max(np.abs(d['rt_cam_ref']-ext))<1e-6)
            x=st['x']; nb=mrcal.num_measurements_boards(**d)
            xb=x[:nb].reshape(4,18); r['x']=ints(np.concatenate([xb[pos.index(fc)] for fc in order]))
            xp=x[nb:].reshape(6,2); r['xp']=ints(xp[0::2].ravel())
            if np.max(np.abs(xp[1::2]))>1e-3: r['bad'].append('residuals_of_the_fitted_points')
            v=ints(np.array([st['rms_reproj_error__pixels']**2*len(x)]),.02); r['rms2']=v[0] if isinstance(v,list) else v
            r['nout']=int(st['Noutliers_board'])
        r['px']=int(np.array_equal(obs[...,:2],b4[0][...,:2]) and np.array_equal(opt[...,:2],b4[1][...,:2]))
        r['w']=ints(get().ravel(),0); r['pw']=ints(opt[0::2,2],0)
        after.append(r)
    return dict(after=after)
def anyop(c):
    d,_,_=residual.build(c['c']); p=c['c']['p']
    after=[]
    for o in c['ops']:
        r=dict(bad=[])
        f=list(o['flags'])
        if d['calobject_warp'] is None: f[4]=0
        if 'CAHVORE' in d['lensmodel']: f[1]=0   # where its projection fails to converge there is a discontinuity, which the solver has no defense against
        d['Npoints_fixed']=o['npf']
        def setf():
            for k,n in enumerate(FL): d['do_optimize_'+n]=bool(f[k])
            d['do_apply_regularization']=bool(f[5])
        setf()
        if mrcal.num_states(**d)==0: f[3]=1; setf()
        if mrcal.num_states(**d)==0: f[0]=1; setf()
        r['flags']=f; r['npf']=o['npf']
        d['do_apply_outlier_rejection']=bool(o['rej'])
        # start a bit away
        if o['bump']:
            for k,a in (('rt_cam_ref',1e-3),('rt_ref_frame',2e-3),('points',3e-3)): d[k]+=a*o['bump']*np.sin(np.arange(d[k].size)+o['bump']).reshape(d[k].shape)
        if o['bump']==2 and d['observations_board'].size>20: d['observations_board'].reshape(-1,3)[5,0]+=60
        d0=cp(d); _,x0,J0,_=mrcal.optimizer_callback(**d,no_factorization=True)
        sv=np.linalg.svd(J0.toarray(),compute_uv=False)
        if len(x0)<J0.shape[1] or sv[-1]<1e-6*sv[0]:   # ill-posed: no statement is made about the solver then
            r['failed']='ill-posed'; after.append(r); continue
        nw=d['calobject_warp'] is None
        try: st=mrcal.optimize(**d)
        except RuntimeError as ex:
            r['failed']=str(ex)[:80]; after.append(r); break
        z=lambda q: params(dict(q,calobject_warp=np.zeros(2)) if nw else q)
        r['chg']=[list(a[0]) for a,b in zip(z(d),z(d0)) if a[1]!=b[1]]
        r['px']=int(np.array_equal(d['observations_board'][...,:2],d0['observations_board'][...,:2]) and np.array_equal(d['observations_point'][...,:2],d0['observations_point'][...,:2]))
        i=lambda q: [int(round(v*8)) for v in q.ravel()]
        r['w0']=i(d0['observations_board'][...,2]); r['w1']=i(d['observations_board'][...,2]); r['pw0']=i(d0['observations_point'][...,2]); r['pw1']=i(d['observations_point'][...,2])
        b,x,J=stats_consistent(d,st,r['bad'])
        r['nout']=int(st['Noutliers_board'])
        # the solution is not worse than where we started, as judged with the final weights
        d1=cp(d0); d1['observations_board'][...,2]=d['observations_board'][...,2]
        x1=mrcal.optimizer_callback(**d1,no_jacobian=True,no_factorization=True)[1]
        if np.array_equal(r['w0'],r['w1']) and x@x>(x0@x0)*(1+1e-9)+1e-12: r['bad'].append('worse_than_the_seed')
        nb=len(r['w0'])*2; win=np.repeat(np.array(r['w1'])>0,2); xb=x[:nb][win]
        r['far']=int(np.sum(xb**2>25*np.mean(xb**2)*(1+1e-6)+1e-12)) if len(xb) else 0
        # read-only inputs
        for k in ('imagersizes','indices_frame_camintrinsics_camextrinsics','indices_point_camintrinsics_camextrinsics'):
            if not np.array_equal(d[k],d0[k]): r['bad'].append('inputs_modified')
        # the result is the same again if started from the result
        after.append(r)
    return dict(after=after)
def run(c): return exact(c) if c['kind']=='exact' else anyop(c)
