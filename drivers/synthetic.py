"""make_perfect_observations(), synthesize_board_observations()"""
import signal, copy, numpy as np, mrcal, mrcal.model_analysis
import mkproblem
from diff import lens, state
class Late(Exception): pass
def late(*a): raise Late()
def boards(c):
    S=[(200,150),(140,180),(240,110)]; ms=[]
    for i in range(c['ncam']):
        li=('LENSMODEL_PINHOLE',np.array((150.+10*i,155.,S[i][0]/2-1.,S[i][1]/2+1.))) if c['lens']=='pinhole' else lens(c['lens'],i,S[i]) if c['lens']!='stereographic' else ('LENSMODEL_STEREOGRAPHIC',np.array((150.,155.,S[i][0]/2-1.,S[i][1]/2+1.)))
        side=(.2,.6,1.2)[c['side']]
        ms.append(mrcal.cameramodel(intrinsics=li,imagersize=S[i],rt_cam_ref=np.array((.02*i,-.03*i,.05*i,-side*i,.05*i,.02*i))))
    warp=(None,np.array((.02,-.01)),np.zeros(2))[c['warp']]
    nom=np.array((.1,-.05,.2,c['x']/10,.1,c['z']/10.))
    if c['flip']: nom[:3]=(3.0,.1,-.05)
    rad=np.array([c['noiser']/1000.]*3+[c['noiset']/1000.]*3)
    if c['axis']: rad[np.arange(6)!=c['axis']-1]=0
    kw={}
    if c['usewhich']: kw['which']=c['which']
    pc=np.zeros(3)
    if c['oblique']>=0:
        kw['max_oblique_angle_deg']=c['oblique']
        if c['given']: pc=np.array(c['pcam'],float)*.5; kw['pcamera_nominal_ref']=pc.copy()
    spacing=c['spacing']/100.
    was=state(ms); a=(nom.copy(),rad.copy())
    np.random.seed(c['seed'])
    signal.signal(signal.SIGALRM,late); signal.setitimer(signal.ITIMER_REAL,.3)
    try: q,Rt=mrcal.synthesize_board_observations(ms,object_width_n=c['w'],object_height_n=c['h'],object_spacing=spacing,calobject_warp=warp,rt_ref_boardcenter=nom,rt_ref_boardcenter__noiseradius=rad,Nframes=c['frames'],**kw)
    except Late: return dict(skipped='never in view')
    except Exception as e: return dict(fail=repr(e)[:100])
    finally: signal.setitimer(signal.ITIMER_REAL,0)
    o=dict(shape=int(q.shape==(c['frames'],c['ncam'],c['h'],c['w'],2) and Rt.shape==(c['frames'],4,3)),sizes=[list(s) for s in S[:c['ncam']]],
           pure=int(state(ms)==was and np.array_equal(a[0],nom) and np.array_equal(a[1],rad) and (not 'pcamera_nominal_ref' in kw or np.array_equal(pc,kw['pcamera_nominal_ref']))))
    if not o['shape']: return o
    # the board of ref_calibration_object(): x,y in the plane, bent in z
    w,h=c['w'],c['h']; X,Y=np.meshgrid(np.arange(w),np.arange(h)); P=np.stack((X*spacing,Y*spacing,np.zeros_like(X)),-1).astype(float)
    if warp is not None:
        u=2*X/(w-1.)-1; v=2*Y/(h-1.)-1; P[...,2]=warp[0]*(1-u*u)+warp[1]*(1-v*v)
    ctr=np.array(((w-1)*spacing/2,(h-1)*spacing/2,0)); o['f']=[]
    R0=mrcal.R_from_r(nom[:3])
    for k in range(c['frames']):
        R,t=Rt[k,:3],Rt[k,3]; p=P@R.T+t; err=0; qq=[]
        for i,m in enumerate(ms):
            T=m.Rt_cam_ref(); pc1=p@T[:3].T+T[3]; e=mrcal.project(pc1,*m.intrinsics()); d=np.abs(e-q[k,i])/np.maximum(1,np.abs(e)/100)
            d[pc1[...,2]<.1]=0
            err=max(err,np.max(d) if np.all(np.isfinite(d)) else 1e6); qq.append(np.clip(np.nan_to_num(q[k,i].reshape(-1,2)*1000,nan=-1e9),-1e9,1e9).astype(int).tolist())
        mid=R@ctr+t; r=mrcal.r_from_R(R)
        # the rotation may be given as another vector
        mr=np.linalg.norm(r); alts=[r]+([r/mr*(mr+s*2*np.pi) for s in(-1,1)] if mr>1e-9 else [])
        r=min(alts,key=lambda z: np.max(np.abs(z-nom[:3])))
        n=mid-pc; n/=np.linalg.norm(n); ang=np.degrees(np.arccos(min(1,abs(n@R[:,2]))))
        o['f'].append(dict(err=int(min(1e9,err*1e4)),dev=[int(z) for z in np.rint(1e6*np.r_[r-nom[:3],mid-nom[3:]])],q=qq,angle=int(round(100*ang))))
    return o
def perfect(c):
    def fresh(unit=False):
        p=mkproblem.build(c['p'])
        for k in('observations_board','observations_point'): # weights of all sizes
            w=p[k][...,2]; w*=1. if unit else 2.**((np.arange(w.size).reshape(w.shape)*7)%5-2.)
            if unit: w[w>0]=1.
        if c['noext'] and c['p']['next']==0:
            if c['absent']: p['rt_cam_ref']=None
            else: p.pop('rt_cam_ref')
        if c['warp']=='none' : p['calobject_warp']=None; p['do_optimize_calobject_warp']=False
        if c['warp']=='zero' : p['calobject_warp']=np.zeros(2)
        if c['absent']:
            for n,ix,n1 in (('board','indices_frame_camintrinsics_camextrinsics','rt_ref_frame'),('point','indices_point_camintrinsics_camextrinsics','points')):
                if not len(p[ix]):
                    for k in ('observations_'+n,ix)+((n1,) if not len(p[n1]) else ()):
                        if c['absent']==1: p.pop(k)
                        else: p[k]=None
        return p
    p=fresh()
    cb=lambda p: mrcal.optimizer_callback(**p,no_jacobian=True,no_factorization=True)[1]
    try: cb(p)
    except Exception as e: return dict(skipped=str(e)[:80])
    q=fresh()
    try:
        mrcal.make_perfect_observations(q,observed_pixel_uncertainty=0)
        n=mrcal.num_measurements_boards(**q)+mrcal.num_measurements_points(**q)
        x=cb(q)[:n]; o=dict(x0=int(min(1e9,np.max(np.abs(x),initial=0)*1e6)) if np.all(np.isfinite(x)) else 10**9)
        obs=lambda p: np.concatenate([p[k][...,:2].reshape(-1,2) for k in('observations_board','observations_point') if p.get(k) is not None])
        wt=np.concatenate([p[k][...,2].ravel() for k in('observations_board','observations_point') if p.get(k) is not None])
        a=copy.deepcopy(q)
        for k in('observations_board','observations_point'):
            if a.get(k) is not None: a[k][...,2]=1
        x=cb(a)[:n]; o['xall']=int(min(1e9,np.max(np.abs(x),initial=0)*1e6)) if np.all(np.isfinite(x)) else 10**9
        def kept(p,q):
            if list(p)!=list(q): return False
            for k in p:
                u,v=p[k],q[k]
                if k in('observations_board','observations_point') and u is not None: u,v=u[...,2],v[...,2]
                if isinstance(u,np.ndarray):
                    if not(isinstance(v,np.ndarray) and u.dtype==v.dtype and np.array_equal(u,v)): return False
                elif u is not v and u!=v: return False
            return True
        o['kept']=int(kept(p,q))
        def noisy(s,unit=False):
            r=fresh(unit); np.random.seed(c['seed']); mrcal.make_perfect_observations(r,**({} if s is None else dict(observed_pixel_uncertainty=s)))
            o['kept']&=int(unit or kept(p,r)); return obs(r)-obs(q)
        s=c['sigma']/10.; n1=noisy(s); n2=noisy(2*s)
        o['scales']=int(np.allclose(n2,2*n1,rtol=1e-6,atol=1e-7)); o['default']=1
        o['weighted']=int(np.allclose(noisy(s,True),n1*np.where(wt>0,wt,1)[:,None],rtol=1e-6,atol=1e-7))
        if c['default']:
            try: d=mrcal.model_analysis._observed_pixel_uncertainty_from_inputs(p)
            except Exception: d=np.nan
            if np.isfinite(d) and d<1e4: o['default']=int(np.allclose(noisy(None),n1*d/s,rtol=1e-5,atol=1e-6))
        z=(n1*np.where(wt>0,wt,1)[:,None]/s).ravel(); o['n']=z.size; o['mean']=int(round(1000*z.mean())) if z.size else 0; o['var']=int(min(1e8,round(1000*np.mean(z*z)))) if z.size else 0
        o['dev']=int(1000*np.sqrt(2/max(1,z.size)))+1
    except Exception as e: return dict(fail=repr(e)[:150])
    return o
def run(case):
    c=case['c']
    return boards(c) if c['kind']=='boards' else perfect(c)
