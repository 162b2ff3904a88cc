"""Asks for uncertainties of projection in solved problems, and compares with the documented propagation, computed densely."""
import numpy as np, mrcal, warnings
from mkproblem import build
def skew(v): return np.array(((0,-v[2],v[1]),(v[2],0,-v[0]),(-v[1],v[0],0)))
def R_of(r):
    t=np.linalg.norm(r)
    if t<1e-9: return np.eye(3)+skew(r)
    k=skew(r/t); return np.eye(3)+np.sin(t)*k+(1-np.cos(t))*k@k
def r_of(R):
    v=np.array((R[2,1]-R[1,2],R[0,2]-R[2,0],R[1,0]-R[0,1])); s=np.linalg.norm(v)/2; c=(np.trace(R)-1)/2
    if s<1e-12: return v/2
    return v/(2*s)*np.arctan2(s,c)
def comp(a,b):
    return np.concatenate((r_of(R_of(a[:3])@R_of(b[:3])),R_of(a[:3])@b[3:]+a[3:]))
def xf(rt,p,inv=False,dir=False):
    R=R_of(rt[:3]); t=0 if dir else rt[3:]
    return R.T@(p-t) if inv else R@p+t
def fd(f,x,h=1e-5):
    o=[]
    for i in range(len(x)):
        d=np.zeros(len(x)); d[i]=h*max(1.,abs(x[i])*.1)
        o.append((f(x+d)-f(x-d))/(2*d[i]))
    return np.array(o).T
def problem(c,u):
    p=build(c)
    # poses that are different enough for the problem to be solvable
    for i,r in enumerate(p['rt_ref_frame']): r[:3]=(.5*np.sin(1+2.1*i),.45*np.cos(.5+1.7*i),.4*np.sin(.3+.9*i)); r[3:]=(-.3+.25*np.sin(1.3*i),-.2+.2*np.cos(2.2*i),1.8+.3*np.sin(.7*i+1))
    for i,r in enumerate(p['rt_cam_ref']): r[:3]=(.05*np.sin(1+i),.06*np.cos(.3+2*i),.1*np.sin(2+.8*i)); r[3:]=(.3+.2*np.sin(i),.1*np.cos(i),.12*np.sin(3.*i+1))
    for i,r in enumerate(p['points']): r[:]=(.9*np.sin(1.9*i+1),.8*np.cos(2.6*i),3+1.1*np.sin(.8*i+.4))
    if u['out']:
        w=p['observations_board'][...,2].reshape(-1); w[::7]*=-1
        if len(p['observations_point'])>6: p['observations_point'][3,2]*=-1
    # what the cameras saw, with some noise
    g=np.random.RandomState(len(p['observations_board'])+7)
    ob=mrcal.ref_calibration_object(c['W'],c['H'],p['calibration_object_spacing'],calobject_warp=p['calobject_warp'])
    def cam(pt,ci,ce): return mrcal.project(pt if ce<0 else mrcal.transform_point_rt(p['rt_cam_ref'][ce],pt),p['lensmodel'],p['intrinsics'][ci])
    for k,(f,ci,ce) in enumerate(c['ob']): p['observations_board'][k,...,:2]=cam(mrcal.transform_point_rt(p['rt_ref_frame'][f],ob),ci,ce)+g.randn(c['H'],c['W'],2)*.3
    for k,(i,ci,ce) in enumerate(c['op']): p['observations_point'][k,:2]=cam(p['points'][i],ci,ce)+g.randn(2)*.3
    return p
def oracle(case,p,pts,fac):
    """-> K, function p -> dq/db, all in full units"""
    c,u=case['c'],case['u']; J,D=fac; n=J.shape[1]
    Ju=J/D
    nbrow=2*c['W']*c['H']; nb=len(c['ob'])
    d=lambda name,i: mrcal.__dict__['state_index_'+name](i,**p)
    JtJ=np.zeros((6,6)); JtX=np.zeros((6,n))
    K=None
    if u['method']!='mean':
        warp=mrcal.state_index_calobject_warp(**p)
        for k,path in enumerate(case['paths']):
            if path=='none': continue
            if k<nb: i,ci,ce=c['ob'][k]; rows=slice(k*nbrow,(k+1)*nbrow); s0=d('frames',i); ln=6
            else:    i,ci,ce=c['op'][k-nb]; rows=slice(nb*nbrow+2*(k-nb),nb*nbrow+2*(k-nb)+2); s0=d('points',i); ln=3
            X=np.zeros((rows.stop-rows.start,n))
            if s0 is not None: X[:,s0:s0+ln]=Ju[rows,s0:s0+ln]
            if k<nb and warp is not None: X[:,warp:warp+2]=Ju[rows,warp:warp+2]
            z=np.zeros(6)
            if path=='e':
                e0=d('extrinsics',ce); X[:,e0:e0+6]=Ju[rows,e0:e0+6]
                Jc=Ju[rows,e0:e0+6]@fd(lambda t: comp(t,p['rt_cam_ref'][ce]),z)
            elif path=='f': Jc=Ju[rows,s0:s0+6]@fd(lambda t: comp(t,p['rt_ref_frame'][i]),z)
            else: Jc=Ju[rows,s0:s0+3]@fd(lambda t: xf(t,p['points'][i]),z)
            JtJ+=Jc.T@Jc; JtX+=Jc.T@X
        s=np.linalg.eigvalsh(JtJ/np.sqrt(np.outer(np.diag(JtJ),np.diag(JtJ)))) if np.all(np.diag(JtJ)>0) else np.zeros(6)
        if np.all(s==0): return 'singular',None
        if s[0]<1e-9: return 'unclear',None
        K=-np.linalg.solve(JtJ,JtX)
    lens=p['lensmodel']; I=p['intrinsics'][u['icam']]; inf=bool(u['inf'])
    i0=d('intrinsics',u['icam']); ni=mrcal.num_intrinsics_optimization_params(**p)
    off=0 if c['core'] else 4
    poses=sorted({o[2] for o in c['ob']+c['op'] if o[1]==u['icam']})
    def F(pc):
        o=np.zeros((2,n))
        dqp=fd(lambda v: mrcal.project(v,lens,I),pc,1e-6)
        if i0 is not None:
            def f(v): I2=I.copy(); I2[off:off+ni]=v; return mrcal.project(pc,lens,I2)
            o[:,i0:i0+ni]=fd(f,I[off:off+ni])
        def move(rt0,v): return xf(rt0,v,inv=True,dir=inf)
        if u['method']=='ccp': return o+dqp@fd(lambda t: move(t,pc),np.zeros(6))@K
        if u['method']=='rrp':
            e=poses[0]; rt=np.zeros(6) if e<0 else p['rt_cam_ref'][e]
            pr=xf(rt,pc,inv=True,dir=inf)
            o=o+dqp@R_of(rt[:3])@fd(lambda t: move(t,pr),np.zeros(6))@K
            if e>=0 and d('extrinsics',e) is not None:
                s=d('extrinsics',e); o[:,s:s+6]+=dqp@fd(lambda t: xf(t,pr,dir=inf),rt)
            return o
        for e in poses:
            rt=np.zeros(6) if e<0 else p['rt_cam_ref'][e]
            pr=xf(rt,pc,inv=True,dir=inf)
            if e>=0 and d('extrinsics',e) is not None:
                s=d('extrinsics',e); o[:,s:s+6]+=dqp@fd(lambda t: xf(t,pr,dir=inf),rt)/len(poses)
            for i in range(c['nf']):
                s=d('frames',i)
                if s is None: continue
                pf=xf(p['rt_ref_frame'][i],pr,inv=True,dir=inf)
                o[:,s:s+6]+=dqp@R_of(rt[:3])@fd(lambda t: xf(t,pf,dir=inf),p['rt_ref_frame'][i])/len(poses)/c['nf']
        return o
    return K,F
METHOD=dict(ccp='cross-reprojection-ccp',rrp='cross-reprojection-rrp-Jfp',mean='mean-pcam')
def u6(x): return int(min(1e9,np.ceil(x*1e6))) if np.isfinite(x) else 10**9
def run(case):
    c,u=case['c'],case['u']; p=problem(c,u)
    o={}
    if c['frames'] and c['nf'] and u['icam']==0: del p['do_optimize_frames']    # that is the default
    try: b,x,J,fact=mrcal.optimizer_callback(**p)
    except Exception as e: return dict(skipped=str(e))
    J=J.toarray(); D=np.ones(J.shape[1]); mrcal.unpack_state(D,**p)
    zero=bool(np.any(np.all(J==0,axis=0)))
    s=np.linalg.svd(J,compute_uv=False) if not zero else np.zeros(1)
    cond=s[0]/s[-1] if s.size and s[-1]>0 and J.shape[0]>=J.shape[1] else np.inf
    o['solvable']='no' if zero else 'yes' if cond<1e5 else 'unclear'
    if o['solvable']=='unclear': return dict(skipped='ill-conditioned')
    shape=((),(1,),(3,),(2,2))[u['shape']]
    g=np.random.RandomState(3+c['nf']+5*u['icam'])
    pts=np.array((.1,-.2,2.))+g.randn(*shape,3)*.5
    pts[...,2]=np.abs(pts[...,2])+1.
    K=F=None
    if not case['refused']:
        K,F=oracle(case,p,pts,(J,D))
        if isinstance(K,str):
            if K=='unclear': return dict(skipped='pose unclear')
            o['solvable']='no'; K=None
    ces=[q[2] for q in c['ob']+c['op'] if q[1]==u['icam']]
    ce=ces[0] if ces else -1
    if not c['ob'] : p['observations_board']=p['observations_board'][:0]
    m=mrcal.cameramodel(optimization_inputs=p,icam_intrinsics=u['icam'],icam_extrinsics=ce)
    if u['moved']: m.rt_cam_ref(np.array((.1,.2,.3,1,2,3.)))
    kw=dict(method=METHOD[u['method']],atinfinity=bool(u['inf']))
    sig=None if u['sigma']==0 else u['sigma']/100.
    keep=str(m); q0=pts.copy()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try: got=mrcal.projection_uncertainty(pts,m,what=u['what'],observed_pixel_uncertainty=sig,**kw)
        except Exception as e:
            o['fail']=type(e).__name__; o['msg']=str(e)[:200]; return o
        cov=mrcal.projection_uncertainty(pts,m,observed_pixel_uncertainty=sig,**kw)
        o['finite']=int(np.all(np.isfinite(got)) and np.all(np.isfinite(cov)))
        o['shape']=int(np.shape(got)==shape+((2,2) if u['what']=='covariance' else ()) and cov.shape==shape+(2,2))
        o['pure']=int(keep==str(m) and np.array_equal(q0,pts))
        if case['refused'] or o['solvable']=='no' or not o['finite'] or not o['shape']: return o
        if u['method']=='mean': o['K']=0
        else:
            k=mrcal.drt_cross_reprojection__dbpacked(icam_intrinsics=u['icam'] if u['method']=='ccp' else -1,**m.optimization_inputs())
            KD=K*D; sc=np.max(np.abs(KD),axis=1,keepdims=True); sc[sc==0]=1
            o['K']=u6(np.max(np.abs(k-KD)/sc)); 
            o['Kcols']=[int(i) for i in np.nonzero(np.any(k!=0,axis=0))[0]]
        nobs=2*c['W']*c['H']*len(c['ob'])+2*len(c['op'])
        s2=(sig if sig is not None else np.sqrt((x[:nobs]@x[:nobs])/(2*np.sum(p['observations_board'][...,2]>0)+2*np.sum(p['observations_point'][...,2]>0)-J.shape[1])))**2
        inv=np.linalg.inv(J.T@J); V=inv@(J[:nobs].T@J[:nobs])@inv
        flat=cov.reshape(-1,2,2); errs=[0]; sh=[]
        for a,pc in zip(flat,pts.reshape(-1,3)):
            Fp=F(pc)*D; ref=Fp@V@Fp.T*s2
            errs.append(np.max(np.abs(a-ref))/max(np.trace(ref)+1e-3*s2*np.trace(Fp@inv@Fp.T),1e-300))
        o['cov']=u6(max(errs))
        l=np.linalg.eigvalsh(flat)
        tr=max(np.max(np.abs(l)),1e-30)
        w={'covariance':flat,'worstdirection-stdev':np.sqrt(np.abs(l[:,1])),'rms-stdev':np.sqrt(np.abs(np.mean(l,axis=1)))}[u['what']]
        o['what']=u6(np.max(np.abs(got.reshape(w.shape)-w)/max(np.max(np.abs(w)),1e-30)))
        o['psd']=int(np.all(l>=-1e-9*tr) and np.max(np.abs(flat-flat.transpose((0,2,1))))<=1e-9*tr)
        # each point separately, another noise level, another camera pose: all the same
        one=mrcal.projection_uncertainty(pts.reshape(-1,3)[-1],m,observed_pixel_uncertainty=.5,**kw)
        o['sep']=u6(np.max(np.abs(one*s2/.25-flat[-1]))/tr)
        if u['inf']:
            far=mrcal.projection_uncertainty(pts*3.,m,observed_pixel_uncertainty=sig,**kw)
            o['far']=u6(np.max(np.abs(far-cov))/tr)
        else: o['far']=0
    return o
