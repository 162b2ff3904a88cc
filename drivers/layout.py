"""Observes where the code puts every variable and every measurement."""
import numpy as np, mrcal
from mkproblem import *
PARTS=None
def N(x): return -1 if x is None else int(x)
def ilist(f,n): return [N(f(i)) for i in range(-1,n+1)]

def decode(vals, table):
    """for each value, the unique parameter that has it"""
    out=[]
    for v in vals:
        m=[o for o,w in table if abs(v-w)<=1e-11*max(1,abs(w))]
        out.append(list(m[0]) if len(m)==1 else [-1,len(m),0])
    return out

def counts(c,p):
    o={}
    g=lambda f: N(getattr(mrcal,f)(**p))
    o['n']=[g('num_states_intrinsics'),g('num_states_extrinsics'),g('num_states_frames'),g('num_states_points'),g('num_states_calobject_warp'),g('num_states')]
    o['nopt']=N(mrcal.num_intrinsics_optimization_params(**p))
    o['ii']=ilist(lambda i: mrcal.state_index_intrinsics(i,**p),c['ncam'])
    o['ie']=ilist(lambda i: mrcal.state_index_extrinsics(i,**p),c['next'])
    o['if']=ilist(lambda i: mrcal.state_index_frames(i,**p),c['nf'])
    o['ip']=ilist(lambda i: mrcal.state_index_points(i,**p),c['np'])
    o['iw']=g('state_index_calobject_warp')
    o['m']=[g('num_measurements_boards'),g('num_measurements_points'),g('num_measurements_points_triangulated'),g('num_measurements_regularization'),g('num_measurements')]
    o['imb']=[N(mrcal.measurement_index_boards(i,**p)) for i in range(max(1,len(c['ob'])))]
    o['imp']=[N(mrcal.measurement_index_points(i,**p)) for i in range(max(1,len(c['op'])))]
    o['imt']=[N(mrcal.measurement_index_points_triangulated(i,**p)) for i in range(max(1,len(c['tri'])))] 
    o['imr']=g('measurement_index_regularization')
    o['dec']=[]
    for i in range(sum(len(t)*(len(t)-1)//2 for t in c['tri'])):
        d=mrcal.decode_observation_indices_points_triangulated(i,**p)
        o['dec'].append([N(d[k]) for k in ('iobservation0','iobservation1','iobservation_point0','Nobservations_this_point','Nmeasurements_this_point','ipoint')])
    return o

def explicit(c,p):
    """the same, with the dimensions given explicitly instead of the arrays"""
    d=dict(Ncameras_intrinsics=c['ncam'],Ncameras_extrinsics=c['next'],Nframes=c['nf'],Npoints=c['np'],
           Npoints_fixed=c['npf'],Nobservations_board=len(c['ob']))
    d.update({k:p[k] for k in p if k.startswith('do_optimize')}); d['lensmodel']=p['lensmodel']
    o={}
    g=lambda f: N(getattr(mrcal,f)(**d))
    o['n']=[g('num_states_intrinsics'),g('num_states_extrinsics'),g('num_states_frames'),g('num_states_points'),g('num_states_calobject_warp'),g('num_states')]
    o['ii']=ilist(lambda i: mrcal.state_index_intrinsics(i,**d),c['ncam'])
    o['ie']=ilist(lambda i: mrcal.state_index_extrinsics(i,**d),c['next'])
    o['if']=ilist(lambda i: mrcal.state_index_frames(i,**d),c['nf'])
    o['ip']=ilist(lambda i: mrcal.state_index_points(i,**d),c['np'])
    o['iw']=g('state_index_calobject_warp')
    return o

def owners(c,p,o):
    """which parameter each element of the state vector is, found from the values"""
    table=params(p)
    n=o['n'][5]
    b=mrcal.optimizer_callback(**p,no_jacobian=True,no_factorization=True)[0]
    o['lenb']=len(b)
    u=b.copy(); mrcal.unpack_state(u,**p)
    o['own']=decode(u,table)
    # pack is the inverse of unpack, also for many states at once
    w=u.copy(); mrcal.pack_state(w,**p)
    o['rt']=int(np.allclose(w,b,rtol=1e-13,atol=1e-15))
    z=np.ascontiguousarray(np.arange(3*n).reshape(3,n)*0.37+0.11)
    zz=z.copy(); mrcal.pack_state(zz,**p)
    z1=np.array([z[i].copy() for i in range(3)])
    for i in range(3):
        r=z1[i].copy(); mrcal.pack_state(r,**p); z1[i]=r
    o['bcast']=int(np.array_equal(zz,z1))
    mrcal.unpack_state(zz,**p)
    o['rt2']=int(np.allclose(zz,z,rtol=1e-13,atol=1e-15))
    # scale of each element: unpack(1). In units of its group's documented scale
    s=np.ones(n); mrcal.unpack_state(s,**p)
    o['scale']=[float(x) for x in s]
    # ingest
    before={k:p[k].copy() for k in NAMES.values()}
    bb=b*1.0+(1+np.arange(n))*1e-3
    nb=bb.copy()
    mrcal.ingest_packed_state(nb,**p)
    o['inarg']=int(np.array_equal(nb,bb))
    after=params(p); bef=params({**p,**before})
    ub=bb.copy(); mrcal.unpack_state(ub,**p)
    o['chg']=[list(a[0]) for a,b0 in zip(after,bef) if a[1]!=b0[1]]
    o['inown']=decode(ub,after)
    b2=mrcal.optimizer_callback(**p,no_jacobian=True,no_factorization=True)[0]
    o['inrt']=int(np.allclose(b2,bb,rtol=1e-12,atol=1e-14))
    return o

SCALES={}
def scale_codes(c,own,scale):
    """compare the scale of each element to that of its peers: same (kind,class) same scale"""
    cls={}
    ok=1
    for o,s in zip(own,scale):
        k=o[0]
        if k==0: key=('i',min(o[2],4) if o[2]>=4 else o[2]//2)
        elif k in (1,2): key=(k,o[2]//3)
        else: key=(k,)
        if cls.setdefault(key,s)!=s: ok=0
        if not (s>0 and np.isfinite(s)): ok=0
    return ok

def meas(c,p,o):
    """which measurement each element of x is, found by perturbing the observations"""
    kw=dict(no_jacobian=True,no_factorization=True)
    x0=mrcal.optimizer_callback(**p,**kw)[1]
    nm=len(x0); o['lenx']=nm
    own=[None]*nm
    conflict=0
    def claim(i,w):
        nonlocal conflict
        if own[i] is not None and own[i]!=w: conflict+=1
        own[i]=w
    ob=p['observations_board']
    for xy in range(2):
        if not ob.size: break
        q=dict(p); q['observations_board']=ob.copy()
        d=np.arange(ob[...,0].size).reshape(ob[...,0].shape)+1.
        q['observations_board'][...,xy]+=d
        dx=mrcal.optimizer_callback(**q,**kw)[1]-x0
        for i in np.nonzero(dx)[0]:
            # x = weight*(projection-observation)
            m=[]
            for k in range(ob.shape[0]):
                e=np.abs(-d[k]*ob[k,...,2]-dx[i])<1e-7
                m+= [[0,k,int(y*ob.shape[2]+x),xy] for y,x in zip(*np.nonzero(e))]
            if len(m)!=1:
                # weights make this ambiguous; resolve individually
                mm=[]
                for cand in m:
                    q2=dict(p); q2['observations_board']=ob.copy()
                    q2['observations_board'][cand[1],cand[2]//ob.shape[2],cand[2]%ob.shape[2],xy]+=1.
                    if mrcal.optimizer_callback(**q2,**kw)[1][i]!=x0[i]: mm.append(cand)
                m=mm
            claim(i,m[0] if len(m)==1 else [-1,len(m)])
    op=p['observations_point']
    for xy in range(2):
        for k in range(op.shape[0]):
            q=dict(p); q['observations_point']=op.copy(); q['observations_point'][k,xy]+=1.
            for i in np.nonzero(mrcal.optimizer_callback(**q,**kw)[1]-x0)[0]: claim(i,[1,k,xy])
    if c['tri']:
        ot=p['observations_point_triangulated']; S=[set() for _ in range(nm)]
        who=[(s,k) for s,t in enumerate(c['tri']) for k in range(len(t))]
        for k in range(ot.shape[0]):
            q=dict(p); q['observations_point_triangulated']=ot.copy(); q['observations_point_triangulated'][k,:2]+=(3.,5.)
            for i in np.nonzero(mrcal.optimizer_callback(**q,**kw)[1]-x0)[0]: S[i].add(who[k])
        for i,s in enumerate(S):
            if s:
                s=sorted(s)
                claim(i,[2,s[0][0],s[0][1],s[1][1]] if len(s)==2 and s[0][0]==s[1][0] else [-1,len(s)])
    o['xconf']=conflict
    o['xown']=[w if w is not None else [9] for w in own]
    return o

def jac(c,p,o):
    q={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in p.items()}
    b,x,J,F=mrcal.optimizer_callback(**p)
    o['pure']=int(all(np.array_equal(q[k],p[k]) if isinstance(q[k],np.ndarray) else q[k]==p[k] for k in q))
    o['jshape']=[int(v) for v in J.shape]
    J=J.tocsr(copy=True)
    o['rows']=[sorted(int(v) for v in J.indices[J.indptr[i]:J.indptr[i+1]]) for i in range(J.shape[0])]
    o['fin']=int(np.all(np.isfinite(x)) and np.all(np.isfinite(J.data)) and np.all(np.isfinite(b)))
    b1,x1,J1,F1=mrcal.optimizer_callback(**p,no_jacobian=True,no_factorization=True)
    b2,x2,J2,F2=mrcal.optimizer_callback(**p,no_factorization=True)
    o['same']=int(np.array_equal(b,b1) and np.array_equal(x,x1) and np.array_equal(b,b2) and np.array_equal(x,x2)
                  and J1 is None and F1 is None and F2 is None and np.array_equal(J2.toarray(),J.toarray()))
    o['fac']=-1 if F is None else 1
    # actual dependency of each measurement on each state variable, and the gradient
    D=J.toarray(); n=len(b)
    dep_bad=[]; grad=0; alive=set()
    for j in range(n):
        e=1e-6*max(1.,abs(b[j]))
        xs=[]
        for sgn in (1,-1):
            r={k:(v.copy() if isinstance(v,np.ndarray) else v) for k,v in p.items()}
            bb=b.copy(); bb[j]+=sgn*e
            setstate(r,c,bb)
            xs.append(mrcal.optimizer_callback(**r,no_jacobian=True,no_factorization=True)[1])
        moved=set(int(i) for i in np.nonzero((xs[0]!=x)|(xs[1]!=x))[0])
        struct=set(i for i in range(len(x)) if j in o['rows'][i]) if len(o['rows'])<400 else set(int(i) for i in np.nonzero(D[:,j])[0])|moved
        alive|=moved
        for i in sorted(moved-struct)[:3]: dep_bad.append([i,j])
        g=(xs[0]-xs[1])/(2*e)
        sc=np.abs(g)+np.abs(D[:,j])
        err=np.abs(g-D[:,j])
        tol=1e-3*sc+1e-5*(1+np.abs(x))+1e-3*np.max(sc,initial=0)
        grad+=int(np.sum(err>tol))
    o['dep']=dep_bad[:5]; o['grad']=grad
    o['dead']=[i for i in range(len(x)) if i not in alive and any(j<o['n'][5]-o['n'][4] for j in o['rows'][i])]
    return o

def setstate(p,c,b):
    """put a packed state into the arrays, not relying on ingest_packed_state()"""
    u=b.copy(); mrcal.unpack_state(u,**p)
    i=0
    def take(a):
        nonlocal i
        a[...]=u[i:i+a.size].reshape(a.shape); i+=a.size
    lo=0 if c['core'] else 4; hi=4+c['nd'] if c['dist'] else 4
    if hi>lo: 
        for k in range(c['ncam']): take(p['intrinsics'][k,lo:hi])
    if c['ext']: take(p['rt_cam_ref'])
    if c['frames']: take(p['rt_ref_frame']); take(p['points'][:c['np']-c['npf']])
    if c['warp'] and len(c['ob']): take(p['calobject_warp'])
    assert i==len(u)

def run(case):
    c=case['c']; o={}
    want=case['want']
    p=build(c)
    o.update(counts(c,p))
    if 'explicit' in want: o['ex']=explicit(c,p)
    solvable=o['n'][5]>0 and o['m'][4]>0 and (len(c['ob'])+len(c['op'])+len(c['tri'])>0)
    o['solvable']=int(solvable)
    if not solvable: return o
    if 'owners' in want:
        owners(c,build(c),o)
        o['scok']=scale_codes(c,o['own'],o.pop('scale'))
    if 'meas' in want: meas(c,build(c),o)
    if 'jac' in want: jac(c,build(c),o)
    return o
