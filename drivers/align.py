"""Alignments of points and vectors, rotations to a vector, eigenvalues, quaternions."""
import numpy as np, mrcal
from pose import mat,padded
SC=dict(one=1.,thousands=1000.,tenth=.1,tiny=2.**-23)
def r4(x): 
    x=np.asarray(x,float)
    if not np.all(np.isfinite(x)): raise ValueError('not finite')
    return np.clip(np.rint(x),-2e9,2e9).astype(int).tolist()
def lay(a,how):
    if how=='strided': return padded(a)
    if how=='fortran': return np.asfortranarray(a)
    return np.ascontiguousarray(a)
def lead(a,c): return a[None] if c['lead'] else a
def call(f,args,**kw):
    was=[a.tobytes() for a in args]
    y=f(*args,**kw); ys=y if isinstance(y,tuple) else (y,)
    return y,int(was==[a.tobytes() for a in args] and not any(np.shares_memory(a,b) for a in args for b in ys if isinstance(b,np.ndarray)))
def align(c):
    S=c['s']; k=len(S); s=SC[c['scale']]; pts=c['kind']=='points'
    A=np.array([x['a'] for x in S],float).reshape(k,-1,3)*s; B=np.array([x['b'] for x in S],float).reshape(k,-1,3)*c['u']*s; W=np.array(c['w'],float)
    if k==1: A,B=(lead(A[0],c),lead(B[0],c)) if c['lead'] else (A[0],B[0])
    else:
        A,B=lead(A,c),lead(B,c)
        if not c['share']: W=np.array([W]*k)
    how=c['lay']
    A=lay(A,'dense' if how in('strided1','stridedw') else how); B=lay(B,'strided' if how=='strided1' else 'dense' if how=='stridedw' else how); W=lay(W,'strided' if how=='stridedw' and len(c['w'])>1 else how)
    f=mrcal.align_procrustes_points_Rt01 if pts else mrcal.align_procrustes_vectors_R01
    kw={}; args=[A,B]
    if c['given']: args.append(W)
    try: y,pure=call(f,args)
    except Exception as e: return dict(fail=repr(e)[:150])
    o=dict(pure=pure,shape=int(y.shape==A.shape[:-2]+((4,3) if pts else (3,3))))
    if not o['shape']: return o
    y=y.reshape((k,)+y.shape[-2:]); o['r']=[]
    n=sum(t*t for t in c['q'])
    for m in y:
        if np.all(m==0): o['r'].append(dict(zero=1)); continue
        d=dict(zero=0,R=r4(m[:3]*1e4),exactR=int(np.max(np.abs(m[:3]-mat(c['q'])))<1e-7))
        if pts: d['t']=r4(m[3]/s*1e4)
        o['r'].append(d)
    return o
def stack(x,c): 
    x=np.array(x,float)
    return lead(x[0] if len(x)==1 else x,c)
def run(case):
    c=case['c']; kd=c['kind']
    if kd in('points','vectors'): return align(c)
    if kd=='toz':
        v=lay(stack(c['v'],c)*SC[c['scale']],'dense'); k=len(c['v'])
        try: R,pure=call(mrcal.R_aligned_to_vector,[v])
        except Exception as e: return dict(fail=repr(e)[:150])
        return dict(pure=pure,shape=int(R.shape==v.shape+(3,)),r=r4(R.reshape(k,3,3)*1e4) if R.size==9*k else 0)
    if kd in('eig','worst'):
        M=stack([m['M'] for m in c['m']],c); k=len(c['m']); d=c['m'][0]['d']['n']
        try: y,pure=call(mrcal.sorted_eig if kd=='eig' else mrcal.worst_direction_stdev,[M])
        except Exception as e: return dict(fail=repr(e)[:150])
        o=dict(pure=pure)
        if kd=='worst':
            o['shape']=int(np.shape(y)==M.shape[:-2]); y=np.asarray(y).reshape(-1); o['r']=[int(round(t*1000)) if np.isfinite(t) else -1 for t in y]
        else:
            l,v=y; o['shape']=int(l.shape==M.shape[:-1] and v.shape==M.shape)
            if np.iscomplexobj(l): l,v=(l.real,v.real) if np.max(np.abs(l.imag))<1e-6 else (l*np.nan,v)
            l=l.reshape(k,d); v=v.reshape(k,d,d); o['r']=[dict(l=r4(a*1000),v=r4(b*1e4)) for a,b in zip(l,v)]
        return o
    R=stack([mat(q) for q in c['q']],c); k=len(c['q']); Ri=padded(R) if c['lay']=='strided' else R
    kw={}
    if c['out']: kw['out']=np.full(R.shape[:-2]+(4,),7.)
    try:
        q,pure=call(mrcal.quat_from_R,[Ri],**kw)
        Q=stack([np.array(x,float)/np.sqrt(sum(t*t for t in x)) for x in c['q']],c); Qi=padded(Q) if c['lay']=='strided' else Q
        kw={}
        if c['out']: kw['out']=np.full(R.shape,7.)
        R2,pure2=call(mrcal.R_from_quat,[Qi],**kw)
        B=mrcal.R_from_quat(np.array(q))
    except Exception as e: return dict(fail=repr(e)[:150])
    ok=q.shape==R.shape[:-2]+(4,) and R2.shape==R.shape and B.shape==R.shape
    if not ok: return dict(pure=pure&pure2,shape=0)
    return dict(pure=pure&pure2,shape=1,r=[dict(q=r4(a*1e4),R=r4(b*1e4),back=r4(x*1e4)) for a,b,x in zip(q.reshape(k,4),R2.reshape(k,3,3),B.reshape(k,3,3))])
