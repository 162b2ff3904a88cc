"""projection_diff(), stereo_pair_diff(), implied_Rt10__from_unprojections(), model_resolution__deg_pixel()
   on cameras constructed to have a known answer."""
import numpy as np, mrcal, warnings, io, contextlib
UNIT=.1
def Rt(p):
    a,b,c,d=map(float,p['q']); n=a*a+b*b+c*c+d*d
    R=np.array(((a*a+b*b-c*c-d*d,2*(b*c-a*d),2*(b*d+a*c)),(2*(b*c+a*d),a*a-b*b+c*c-d*d,2*(c*d-a*b)),(2*(b*d-a*c),2*(c*d+a*b),a*a-b*b-c*c+d*d)))/n
    return np.vstack((R,np.array(p['t'],float)/p['d']*UNIT))
SP='LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=8_Ny=7_fov_x_deg=100'
def lens(kind,i,size,shift=0):
    W,H=size; f=W*.9; c=(W/2+1.3*i,H/2-.7*i); k=1+.2*i
    core=[f+2*i,f-3*i,*c]
    if kind=='PINHOLE': return 'LENSMODEL_PINHOLE',np.array(core)
    if kind=='OPENCV4': return 'LENSMODEL_OPENCV4',np.array(core+[-.05*k,.01,.002*k,-.001])
    if kind=='OPENCV8': return 'LENSMODEL_OPENCV8',np.array(core+[-.05,.01*k,.002,-.001,.003,.02*k,.003,.001])
    if kind=='SPLINED':
        g=np.random.RandomState(3+i); return SP,np.array(core+list(.02*g.randn(2*8*7)))
    if kind=='CAHVOR': return 'LENSMODEL_CAHVOR',np.array(core+[.01*k,-.02,.01,.02*k,.01])
    if kind in('LONLAT','LATLON'):
        s=2*np.arctan2(1,20)*f*shift
        return 'LENSMODEL_'+kind,np.array((f,f,W/2+(s if kind=='LONLAT' else 0),H/2+(s if kind=='LATLON' else 0)))
    if kind=='STEREOGRAPHIC': return 'LENSMODEL_STEREOGRAPHIC',np.array(core)
    e=[.01*k,.02,.03] if kind=='CAHVORE' else [0,0,0]
    return 'LENSMODEL_CAHVORE_linearity=0.37',np.array(core+[.01*k,-.02,.01,.02*k,.01]+e)
def central(l,I):
    if 'CAHVORE' in l: I=I.copy(); I[-3:]=0
    return I
def model(kind,i,size,pose,shift=0,j=None):
    return mrcal.cameramodel(intrinsics=lens(kind,i,size,shift),imagersize=size,Rt_cam_ref=Rt(pose))
def state(M): return [str(m) for m in M]
def ppm(x):
    x=np.nanmax(np.abs(np.append(np.asarray(x,float).ravel(),0))); return int(min(x*1e6,1e9))
def same(a,b):
    """the largest difference, with NaN in the same places (pixels far away are compared relatively)"""
    a,b=np.asarray(a,float),np.asarray(b,float)
    if a.shape!=b.shape: return 10**9
    fa,fb=np.isfinite(a),np.isfinite(b)
    if np.mean(fa!=fb)>0: return 10**9
    f=fa.copy(); f[fa]=(np.abs(a[fa])<1e5)&(np.abs(b[fa])<1e5)
    if np.any((np.abs(a[fa&~f])<9e4)|(np.abs(b[fa&~f])<9e4)): return 10**9
    return ppm((a-b)[f]/np.maximum(1,np.abs(b[f])/1e3))
def xf(Rt,v): return v@Rt[:3].T+Rt[3]
def grid(W,H,gw,gh): 
    return np.array([[(x*(W-1)/(gw-1),y*(H-1)/(gh-1)) for x in range(gw)] for y in range(gh)])
def quiet(f):
    e=io.StringIO()
    with contextlib.redirect_stderr(e),warnings.catch_warnings(),np.errstate(all='ignore'):
        warnings.simplefilter('ignore'); return f(),e.getvalue()
def diff(c,x):
    o={}; size=list(c['size']); n=len(c['models'])
    sizes=[list(size) for _ in range(n)]
    if c['sizes']=='differ' and n: sizes[-1][c['gw']%2]+=2
    if n==1 and c['sizes']=='differ': pass
    def one(i):
        l,I=lens(c['models'][i],0 if c['same'] else i,size,c['shift'][i])
        if c['same'] and l==SP and c['radius'] in('default','part') and i:
            # what is outside of the circle must not matter: the distant knots differ
            I=I.copy(); k=I[4:].reshape(7,8,2); w,h=size; f=w*.9
            cx=w/2 if c['radius']=='default' else .8*w
            far=slice(0,1) if cx>w/2 else None
            if far is None: k[:,0]+=.3; k[:,-1]-=.2
            else: k[:,:2]+=.3
        return mrcal.cameramodel(intrinsics=(l,I),imagersize=sizes[i],Rt_cam_ref=Rt(c['poses'][i]))
    M=[one(i) for i in range(n)]
    kw=dict(gridn_width=c['gw'],use_uncertainties=c['unc']!='off')
    if c['gh']: kw['gridn_height']=c['gh']
    if c['given']: kw['implied_Rt10']=Rt(c['givenpose'])
    if c['intronly']: kw['intrinsics_only']=True
    if c['dist']: kw['distance']=[float(d)*UNIT for d in c['dist']] if c['list'] else c['dist'][0]*UNIT
    if c['radius']=='zero': kw['focus_radius']=0
    if c['radius']=='part': kw['focus_center']=np.array((.8*size[0],.5*size[1])); kw['focus_radius']=.19*size[0]
    if c['radius']=='all': kw['focus_radius']=1000.
    g=grid(*size,x['shape'][-1],x['shape'][-2])
    fc=np.array((.8*size[0],.5*size[1])) if c['radius']=='part' else (np.array(size)-1)/2
    fr={'default':min(size)/6,'part':.19*size[0]}.get(c['radius'],1e6)
    near=np.sum((g-fc)**2,-1)<fr*fr; n_in=int(np.count_nonzero(near))
    before=state(M); keep={k:np.array(v) for k,v in kw.items() if k in('implied_Rt10','focus_center')}
    try: r,err=quiet(lambda: mrcal.projection_diff(M,**kw))
    except Exception as e: return dict(fail=type(e).__name__,msg=str(e)[:200],pure=int(before==state(M)),inside=n_in)
    o['pure']=int(before==state(M) and all(np.array_equal(kw[k],v) for k,v in keep.items()))
    o['inside']=n_in; o['warned']=int('WARNING' in err)
    dl,d,q0,R=r
    o['shape']=list(dl.shape); o['diffshape']=0 if d is None else list(d.shape)
    o['Rshape']=list(R.shape)
    if dl.shape!=tuple(x['shape']): return o
    o['grid']=ppm(np.abs(g-q0)) if q0.shape==g.shape else 10**9
    want=[Rt(u) for u in x['used']]
    RR=R[None] if n==2 else R
    if RR.shape!=(n-1,4,3): return o
    o['R']=ppm(RR[:,:3]-np.array(want)[:,:3]); o['t']=ppm((RR-np.array(want))[:,3])
    fit=x['source']=='fit'
    # the reprojection, by hand; for fits with the transformation reported
    D=np.array(c['dist'],float)*UNIT if c['dist'] else np.ones(1)
    LI=[m.intrinsics() for m in M]; LI=[(l,central(l,I)) for l,I in LI]
    def repro():
        v=mrcal.unproject(g,*LI[0],normalize=True)
        return np.array([[mrcal.project(np.ascontiguousarray(xf(RR[i] if fit else want[i],v*dd) if c['dist'] else v@(RR[i] if fit else want[i])[:3].T),*LI[i+1]) for dd in D] for i in range(n-1)])
    q1,_=quiet(repro)
    dd=q1-g
    if n==2:
        o['diff']=same(np.reshape(d,dd[0].shape),dd[0]) if d is not None else 10**9
        o['len']=same(dl.reshape(dd.shape[1:-1]),np.sqrt(np.sum(dd[0]**2,-1)))
    else:
        o['diff']=0; o['len']=same(dl.reshape(dd.shape[1:-1]),np.sqrt(np.mean(np.sum(dd**2,-1),0)))
    if fit:
        inside=np.broadcast_to(near,dl.shape)
        # fitted: nothing is left
        o['left']=ppm(dl[inside]) if np.count_nonzero(inside) else 0
    return o
def fit(c,x):
    gw,gh=c['gw'],c['gh']; pose=Rt(x['used']); R,t=pose[:3],pose[3]
    q0=np.array([[(10.*i,10.*j) for i in range(gw)] for j in range(gh)])
    v0=np.concatenate(((q0-q0.reshape(-1,2).mean(0))/60.,np.ones((gh,gw,1))),-1); v0/=np.linalg.norm(v0,axis=-1)[...,None]
    d=np.array((2.,5.,9.))[:c['ndist']]; nd=len(d)
    g=np.random.RandomState(gw*7+gh)
    # the points of camera 0 at all distances correspond to v1: they are constructed from there
    v1=np.empty_like(v0); 
    if c['inf']: p=v0.copy(); v1=p@R.T; lead=()
    else:
        # one distance for each ray, or several: R p + t is along v1
        v1=(v0*5)@R.T+t; v1/=np.linalg.norm(v1,axis=-1)[...,None]
        p=np.array([(v1*dd-t)@R for dd in d]); lead=(nd,)
    if c['lead']==0 and not c['inf']: p=p[0]; lead=()
    if c['inf'] and c['lead']: p=np.array([p]*nd); lead=(nd,)
    if c['lead']==2: p=p[None]; lead=(1,)+lead
    w=np.ones(lead+(gh,gw)) if c['weights']=='given' else None
    if w is not None: w*=g.uniform(.5,2,w.shape)
    G=np.array(c['grid']).reshape(gh,gw)
    for j in range(gh):
        for i in range(gw):
            if G[j,i]=='bad':
                p[...,j,i,:]=p[...,j,i,:]@np.array(((0.9,.43589,0),(-.43589,.9,0),(0,0,1)))
                if w is not None: w[...,j,i]=0
            if G[j,i]=='nan':
                k=c['nanat'] if w is not None else ('p0','v1')[c['nanat']=='v1']
                if k=='p0': p[...,j,i,(i+j)%3]=(np.nan,np.inf)[i%2]
                elif k=='v1': v1[j,i,(i+j)%3]=np.nan
                else: w[...,j,i]=(np.nan,np.inf)[i%2]
    kw=dict(atinfinity=bool(c['inf']))
    if w is not None: kw['weights']=w
    # points outside of the circle do not matter either
    off=np.sum((q0-np.array(c['center']))**2,-1)
    out=off>=c['radius']**2
    if not(c['defaults'] and not np.any(out)): kw.update(focus_center=np.array(c['center'],float),focus_radius=c['radius'])
    p[...,out,:]=p[...,out,:]*np.array((.8,1.3,1.)); 
    if c['inf']: p/=np.linalg.norm(p,axis=-1)[...,None]
    keep=[a.copy() for a in (q0,p,v1)]+([w.copy()] if w is not None else [])
    try: r,_=quiet(lambda: mrcal.implied_Rt10__from_unprojections(q0,p,v1,**kw))
    except Exception as e: return dict(fail=type(e).__name__,msg=str(e)[:200],pure=1)
    o=dict(pure=int(all(np.array_equal(a,b,equal_nan=True) for a,b in zip(keep,[q0,p,v1]+([w] if w is not None else [])))),Rshape=list(r.shape),finite=int(np.all(np.isfinite(r))))
    if r.shape==(4,3):
        o['R']=ppm(r[:3]-R); o['t']=ppm(r[3]-t); o['t0']=int(np.all(r[3]==0))
    return o
def pair(c,x):
    size=[list(c['size']),[c['size'][1]+20,c['size'][0]]]
    def one(p,i):
        s=list(size[i])
        if c['sizes']=='differ' and p==1 and i==c['which']: s[c['gw']%2]+=2
        return mrcal.cameramodel(intrinsics=lens(c['models'][p][i],2*p+i,size[i]),imagersize=s,Rt_cam_ref=Rt(c['poses'][p][i]))
    M=[[one(p,i) for i in (0,1)] for p in (0,1)]
    allm=M[0]+M[1]; before=state(allm)
    A=M if c['npairs']==2 else M[:1] if c['npairs']==1 else M+M[:1]
    kw=dict(gridn_width=c['gw'])
    if c['gh']: kw['gridn_height']=c['gh']
    if c['dist']: kw['distance']=c['dist'][0]*UNIT
    try: (dl,d,q0,f),_=quiet(lambda: mrcal.stereo_pair_diff(A,**kw))
    except Exception as e: return dict(fail=type(e).__name__,msg=str(e)[:200],pure=int(before==state(allm)))
    o=dict(pure=int(before==state(allm)),shape=list(dl.shape),diffshape=list(d.shape))
    gh,gw=x['shape']
    if dl.shape!=(gh,gw): return o
    g=grid(*c['size'],gw,gh); o['grid']=ppm(np.abs(g-q0)) if q0.shape==g.shape else 10**9
    LI=[[(m.intrinsics()[0],central(*m.intrinsics())) for m in P] for P in M]
    D=kw.get('distance',1.)
    def repro(q,p,i): return mrcal.project(np.ascontiguousarray(xf(Rt(x['used'][p][i]),D*mrcal.unproject(q,*LI[p][i],normalize=True))),*LI[p][1-i])
    (a,b),_=quiet(lambda:(repro(g,0,0),repro(g,1,0)))
    o['diff']=same(d,b-a); o['len']=same(dl,np.linalg.norm(b-a,axis=-1))
    g1=grid(*size[1],5,4); e=[]
    for p in (0,1):
        for i,q in ((0,g),(1,g1)):
            try: (u,v),_=quiet(lambda:(f(q,p,i),repro(q,p,i))); e.append(same(u,v))
            except Exception as ex: o['msg']=str(ex)[:200]; e.append(10**9)
    o['func']=max(e); o['pure']=int(o['pure'] and before==state(allm))
    return o
def res(c,x):
    if c['lens']=='any':
        l,I=lens(c['any'],2,[320,200]); q=np.array((211.,73.))+np.arange(2)*c['az']
    else:
        l='LENSMODEL_'+c['lens']; X,Z,Hh=c['tri']; f,g=c['f'],c['g']
        if c['lens'] in('PINHOLE','STEREOGRAPHIC'):
            # same focal length in both directions: any azimuth
            I=np.array((f,f,300.,200.)); r=f*X/Z*(2 if c['lens']=='STEREOGRAPHIC' else 1); az=c['az']*np.pi/6
            q=I[2:]+r*np.array((np.cos(az),np.sin(az)))
        else:
            lat=np.arctan2(X,Z)*(-1)**c['az']; other=.1*c['az']-.5
            if c['lens']=='LONLAT': I=np.array((f,g,300.,200.)); q=np.array((300+f*other,200+g*lat))
            else:                   I=np.array((g,f,300.,200.)); q=np.array((300+g*lat,200+f*other))
    m=mrcal.cameramodel(intrinsics=(l,I),imagersize=[600,400])
    N={0:(),1:(3,),2:(2,2),3:(1,)}[c['shape']]
    # different pixels in each slice; the last one is the one asked about
    Q=np.ascontiguousarray(np.broadcast_to(q,N+(2,))).copy()
    if N:
        F=Q.reshape(-1,2)
        for k in range(len(F)-1): F[k]=I[2:4]+np.array((20.+9*k,-13.+5*k))
    def oracle(q):
        v=mrcal.unproject(q,l,I,normalize=True); u=np.linalg.svd(v[None])[2][1:]
        h=1e-5
        A=np.array([(mrcal.project(v*np.cos(h)+a*np.sin(h),l,I)-mrcal.project(v*np.cos(h)-a*np.sin(h),l,I))/(2*h) for a in u]).T
        return np.linalg.svd(A,compute_uv=False)
    kw={} if c['mode']=='default' else dict(mode=c['mode']); before=state([m]); Q0=Q.copy()
    try: r,_=quiet(lambda: mrcal.model_resolution__deg_pixel(Q,m,**kw))
    except Exception as e: return dict(fail=type(e).__name__,msg=str(e)[:200],pure=1)
    r=np.asarray(r); o=dict(pure=int(before==state([m]) and np.array_equal(Q,Q0)),shapeok=int(r.shape==N))
    if r.shape!=N: return o
    def want(s):
        a,b=180/np.pi/s[0],180/np.pi/s[1]
        return dict(default=(a+b)/2,mean=(a+b)/2,min=a,max=b,eccentricity=b/a)[c['mode']]
    S=[oracle(k) for k in Q.reshape(-1,2)]
    if c['lens']!='any': S[-1]=[n/d for n,d in x['used']]
    w=np.array([want(s) for s in S])
    o['err']=ppm(r.ravel()/w-1)
    return o
_solved={}
def solved(seed,size):
    """a monocular calibration from noisy data"""
    k=(seed,tuple(size))
    if k in _solved: return _solved[k]
    g=np.random.RandomState(100+seed); W,H=size; n=7
    g0=np.random.RandomState(5)     # the boards are at one side of the imager
    m=mrcal.cameramodel(intrinsics=('LENSMODEL_OPENCV4',np.array((W*.9,W*.9,W/2,H/2,-.05,.02,.001,-.001))),imagersize=size)
    b=mrcal.ref_calibration_object(6,5,.1)
    rt=np.concatenate((g0.uniform(-.4,.4,(n,3)),g0.uniform(-.3,.3,(n,1))-.45,g0.uniform(-.3,.3,(n,1))-.1,g0.uniform(1.,2.,(n,1))),-1)
    q=np.array([mrcal.project(mrcal.transform_point_rt(r,b),*m.intrinsics()) for r in rt])
    obs=np.concatenate((q+g.randn(*q.shape)*.3,np.ones(q.shape[:-1]+(1,))),-1)
    p=dict(lensmodel='LENSMODEL_OPENCV4',intrinsics=m.intrinsics()[1][None].copy(),rt_cam_ref=None,rt_ref_frame=rt.copy(),points=None,observations_board=obs,
           indices_frame_camintrinsics_camextrinsics=np.array([(i,0,-1) for i in range(n)],np.int32),observations_point=None,indices_point_camintrinsics_camextrinsics=None,
           imagersizes=np.array([size],np.int32),calibration_object_spacing=.1,do_optimize_calobject_warp=False,do_apply_regularization=True,do_apply_outlier_rejection=False,verbose=False)
    mrcal.optimize(**p)
    _solved[k]=mrcal.cameramodel(optimization_inputs=p,icam_intrinsics=0)
    return _solved[k]
def unc(c,x):
    size=list(c['size']); M=[solved(i,size) for i in c['seeds']]; n=len(M); D=np.array(c['dist'],float)*UNIT*4 if c['dist'] else np.ones(1)
    g=grid(*size,c['gw'],x['shape'][-2]); inf=not c['dist']
    before=state(M)
    kw=dict(gridn_width=c['gw'])
    if c['gh']: kw['gridn_height']=c['gh']
    if c['dist']: kw['distance']=list(D)
    if c['radius']=='part': kw.update(focus_center=np.array((.3*size[0],.5*size[1])),focus_radius=.45*size[0])
    try: (dl,d,q0,R),err=quiet(lambda: mrcal.projection_diff(M,**kw))
    except Exception as e: return dict(fail=type(e).__name__,msg=str(e)[:200],pure=1)
    o=dict(pure=int(before==state(M)),warned=int('WARNING' in err),shape=list(dl.shape))
    if dl.shape!=tuple(x['shape']): return o
    LI=[m.intrinsics() for m in M]; DD=D[:,None,None,None]
    v=[mrcal.unproject(g,*li,normalize=True) for li in LI]
    fk={k:kw[k] for k in('focus_center','focus_radius') if k in kw}
    inside=np.ones(g.shape[:2],bool) if not fk else np.sum((g-fk['focus_center'])**2,-1)<fk['focus_radius']**2
    def cost(Rt10,i,w):
        """what the fit minimizes: squared angles, weighted, with Huber's loss"""
        p=v[0]*DD@Rt10[:3].T+Rt10[3]; p=p/np.linalg.norm(p,axis=-1)[...,None]
        x=np.sum((p-v[i])**2,-1)*w; x=x[np.broadcast_to(inside,x.shape)]; x=x[np.isfinite(x)]
        C=(5*np.pi/180)**2; z=(x/C)**2
        return C*C*np.sum(np.where(z<=1,z,2*np.sqrt(z)-1))
    def go():
        U=[mrcal.projection_uncertainty(v[i]*DD,M[i],atinfinity=inf,what='worstdirection-stdev') for i in range(n)]
        worst=[0,0]
        for i in range(1,n):
            w=1/(U[0]*U[i])**2
            best=[mrcal.implied_Rt10__from_unprojections(g,v[0]*DD,v[i],weights=ww,atinfinity=inf,**fk) for ww in (w,w,w,w,w,np.sqrt(w))]
            refs=[cost(b,i,w) for b in best[:5]]; ref=min(refs)
            if max(refs)>1.01*ref: continue     # no answer that can be repeated
            # the fit starts from a random place, and can end in a worse local minimum
            c0=cost(R.reshape(-1,4,3)[i-1],i,w); k=0
            while c0>1.01*ref and k<10:
                c0=min(c0,cost(mrcal.projection_diff(M,**kw)[3].reshape(-1,4,3)[i-1],i,w)); k+=1
            worst=[max(worst[0],c0/ref),max(worst[1],cost(best[5],i,w)/ref)]
        return worst
    (a,b),_=quiet(go)
    o['cost']=int(min(1000*a,1e9)); o['linear']=int(min(1000*b,1e9))
    return o
def run(case):
    c,x=case['c'],case['x']
    return dict(diff=diff,fit=fit,pair=pair,res=res,unc=unc)[c['kind']](c,x)
