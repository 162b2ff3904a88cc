"""Triangulates points with noise, and compares with the documented propagation, by differences."""
import numpy as np, mrcal, warnings, copy
from uncertainty import problem, xf, fd, u6, R_of
def pick_tri(method): return getattr(mrcal,'triangulate_'+method)
def tri(lens,I0,rt0,I1,rt1,q,method):
    """the point in the coordinates of camera 0"""
    v0=mrcal.unproject(q[0],lens,I0); v1=mrcal.unproject(q[1],lens,I1)
    R0,R1=R_of(rt0[:3]),R_of(rt1[:3]); R01=R0@R1.T; t01=rt0[3:]-R01@rt1[3:]
    if method=='lindstrom': return mrcal.triangulate_lindstrom(v0,v1,np.vstack((R01,t01)))
    return pick_tri(method)(v0,R01@v1,t01)
def run(case):
    c,u=case['c'],case['u']; p=problem(c,u); o={}
    cal=u['cal'] in('given','infer')
    try: b,x,J,fact=mrcal.optimizer_callback(**p)
    except Exception as e: return dict(skipped=str(e))
    J=J.toarray(); D=np.ones(J.shape[1]); mrcal.unpack_state(D,**p)
    zero=bool(np.any(np.all(J==0,axis=0)))
    s=np.linalg.svd(J,compute_uv=False) if not zero else np.zeros(1)
    cond=s[0]/s[-1] if s.size and s[-1]>0 and J.shape[0]>=J.shape[1] else np.inf
    o['solvable']='no' if zero else 'yes' if cond<1e5 else 'unclear'
    if cal and o['solvable']=='unclear': return dict(skipped='ill-conditioned')
    lens=p['lensmodel']; idx=lambda name,i: getattr(mrcal,'state_index_'+name)(i,**p)
    icam=[e if e!=-2 else ([q[2] for q in c['ob']+c['op'] if q[1]==i]+[-1])[0] for i,e in enumerate(case['icam'])]
    M=[mrcal.cameramodel(optimization_inputs=p,icam_intrinsics=i,icam_extrinsics=icam[i]) for i in range(c['ncam'])]
    pairs=[tuple(t) for t in u['pairs']]
    used=[i for t in pairs for i in t]
    bad=used[u['at']%len(used)]
    if u['fault']=='moved': M[bad].rt_cam_ref(M[bad].rt_cam_ref()+np.array((0,0,0,0,1e-3,0)))
    if u['fault']=='foreign':
        p2=copy.deepcopy(p); p2['observations_board'][0,0,0,0]+=1e-3
        m=mrcal.cameramodel(optimization_inputs=p2,icam_intrinsics=bad,icam_extrinsics=icam[bad])
        if len(set(used))>1: M[bad]=m
    if u['fault']=='bare': M[bad]=mrcal.cameramodel(intrinsics=M[bad].intrinsics(),imagersize=M[bad].imagersize(),rt_cam_ref=M[bad].rt_cam_ref())
    pose=[m.rt_cam_ref() for m in M]
    g=np.random.RandomState(17+c['nf']+7*len(pairs))
    def pixels(t):
        pt=np.array((g.uniform(-.4,.4),g.uniform(-.4,.4),g.uniform(4,6)))
        return np.array([mrcal.project(xf(pose[i],pt),lens,p['intrinsics'][i])+g.uniform(.5,2,2)*(-1)**k for k,i in enumerate(t)])
    m=len(pairs); nq=u['nq']; A=np.empty((m,2),dtype=object)
    for i,t in enumerate(pairs): A[i,0],A[i,1]=M[t[0]],M[t[1]]
    f=u['form']
    if f==1:   q=np.array([pixels(pairs[0]) for j in range(nq)]); models=A.reshape(m,1,2); shape=(m,nq); sl=[(pairs[i],q[j]) for i in range(m) for j in range(nq)]
    elif f==2: q=np.array([[pixels(t) for t in pairs] for j in range(nq)]); models=A; shape=(nq,m); sl=[(pairs[i],q[j,i]) for j in range(nq) for i in range(m)]
    elif m==1: q=pixels(pairs[0]); models=A[0] if f==0 else [M[i] for i in pairs[0]]; shape=(); sl=[(pairs[0],q)]
    else:      q=np.array([pixels(t) for t in pairs]); models=A if f==0 else [[M[i] for i in t] for t in pairs]; shape=(m,); sl=list(zip(pairs,q))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        P0=np.array([tri(lens,p['intrinsics'][t[0]],pose[t[0]],p['intrinsics'][t[1]],pose[t[1]],qq,u['method']) for t,qq in sl])
        if np.any(np.abs(P0)>50) or np.any(P0[:,2]<.3): return dict(skipped='far')
        kw=dict(q_calibration_stdev=dict(none=None,zero=0,given=.4,infer=-1)[u['cal']],q_observation_stdev=dict(none=None,zero=0,given=.7,negative=-1)[u['obs']],
                q_observation_stdev_correlation=u['corr']/100.,method=pick_tri(u['method']),stabilize_coords=bool(u['stab']))
        keep=[str(v) for v in M]; q0=q.copy()
        try: r=mrcal.triangulate(q,models,**kw)
        except Exception as e:
            o['fail']=type(e).__name__; o['msg']=str(e)[:200]; return o
        o['pure']=int(keep==[str(v) for v in M] and np.array_equal(q0,q))
        r=list(r) if isinstance(r,(tuple,list)) else [r]
        o['n']=len(r)-1; o['finite']=int(all(np.all(np.isfinite(a)) for a in r))
        kinds=(['cal'] if u['cal']!='none' else [])+(['obs'] if u['obs']!='none' else [])+(['joint'] if u['cal']!='none' and u['obs']!='none' else [])
        want=[shape+(3,)]+[shape+(3,3) if k=='obs' else shape+(3,)+shape+(3,) for k in kinds]
        o['shapes']=int([a.shape for a in r]==want)
        if case['refused'] or not o['finite'] or (cal and o['solvable']=='no'): return o
        o['p']=u6(np.max(np.abs(r[0].reshape(-1,3)-P0))/5)
        if not o['shapes']: return o
        N=len(sl); C=np.zeros((3*N,3*N)); Cs=np.zeros((3*N,3*N)); O=np.zeros((N,3,3)); o['cols']=[]
        if cal:
            nobs=2*c['W']*c['H']*len(c['ob'])+2*len(c['op'])
            s2=.16 if u['cal']=='given' else (x[:nobs]@x[:nobs])/(2*np.sum(p['observations_board'][...,2]>0)+2*np.sum(p['observations_point'][...,2]>0)-J.shape[1])
            ni=mrcal.num_intrinsics_optimization_params(**p); off=0 if c['core'] else 4
            F=np.zeros((3*N,J.shape[1]))
            for k,(t,qq) in enumerate(sl):
                I=[p['intrinsics'][i] for i in t]; rt=[pose[i] for i in t]; row=F[3*k:3*k+3]
                T=lambda I0,r0,I1,r1: tri(lens,I0,r0,I1,r1,qq,u['method'])
                for j in 0,1:
                    a=idx('intrinsics',t[j])
                    if a is not None and ni:
                        def f(v,j=j): I2=[w.copy() for w in I]; I2[j][off:off+ni]=v; return T(I2[0],rt[0],I2[1],rt[1])
                        row[:,a:a+ni]+=fd(f,I[j][off:off+ni],1e-5)
                    e=idx('extrinsics',icam[t[j]]) if icam[t[j]]>=0 else None
                    if e is not None:
                        def f(v,j=j): r2=list(rt); r2[j]=v; return T(I[0],r2[0],I[1],r2[1])
                        row[:,e:e+6]+=fd(f,rt[j],1e-6)
                if u['stab']:
                    # seen from the frames (if they are solved for), or from the reference
                    e=idx('extrinsics',icam[t[0]]) if icam[t[0]]>=0 else None
                    if e is not None: row[:,e:e+6]+=fd(lambda v: xf(rt[0],xf(v,P0[k],inv=True)),rt[0])
                    pr=xf(rt[0],P0[k],inv=True)
                    for i in range(c['nf']):
                        a=idx('frames',i)
                        if a is not None: row[:,a:a+6]+=fd(lambda v: xf(rt[0],xf(p['rt_ref_frame'][i],xf(v,pr,inv=True))),p['rt_ref_frame'][i])/c['nf']
            for t in pairs:
                k=[w[0] for w in sl].index(t); o['cols'].append([int(i) for i in np.nonzero(np.any(F[3*k:3*k+3]!=0,axis=0))[0]])
            F=F*D; inv=np.linalg.inv(J.T@J); V=inv@(J[:nobs].T@J[:nobs])@inv
            C=F@V@F.T*s2; Cs=F@inv@F.T*s2
        if u['obs']=='given':
            r2=(u['corr']/100.)**2; Q=.49*np.array(((1,0,r2,0),(0,1,0,r2),(r2,0,1,0),(0,r2,0,1)))
            for k,(t,qq) in enumerate(sl):
                G=fd(lambda v: tri(lens,p['intrinsics'][t[0]],pose[t[0]],p['intrinsics'][t[1]],pose[t[1]],v.reshape(2,2),u['method']),qq.ravel(),1e-5)
                O[k]=G@Q@G.T
        T=C.copy()
        for k in range(N): T[3*k:3*k+3,3*k:3*k+3]+=O[k]
        o['v']=[]
        for k,a in zip(kinds,r[1:]):
            ref,sc=dict(cal=(C,Cs),obs=(O,O),joint=(T,T+Cs))[k]; a=a.reshape(ref.shape)
            d=np.sqrt(np.abs(np.einsum('...ii->...i',ref+1e-3*sc))); dd=d[...,:,None]*d[...,None,:]
            l=a if k=='obs' else a[None]
            # as parts of the standard deviations of the two coordinates
            o['v'].append(dict(zero=int(not np.any(a)),err=u6(np.max(np.abs(a-ref)/np.maximum(dd,1e-4*np.max(dd)+1e-30))),
               psd=int(np.max(np.abs(l-np.swapaxes(l,-1,-2)))<=1e-9*np.max(np.abs(l)) and np.all(np.linalg.eigvalsh(l)>=-1e-7*np.max(np.abs(l))))))
        if len(kinds)==3:
            c1=r[1].reshape(3*N,3*N).copy(); c2=r[2].reshape(N,3,3)
            for k in range(N): c1[3*k:3*k+3,3*k:3*k+3]+=c2[k]
            o['sum']=int(np.max(np.abs(c1-r[3].reshape(3*N,3*N)))<=1e-12*max(np.max(np.abs(c1)),1e-30))
        else: o['sum']=1
    return o
