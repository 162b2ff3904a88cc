"""The life of a CHOLMOD_factorization object: matrices given, questions asked."""
import re, numpy as np, mrcal, scipy.sparse as sp
def build(m):
    n=m['n']; rows=m['rows']; f=m['form']
    ind=np.array([e[0] for r in rows for e in r],np.int32); dat=np.array([e[1] for r in rows for e in r],float)
    ptr=np.array(np.cumsum([0]+[len(r) for r in rows]),np.int32)
    if f=='none': return None
    J=(sp.csr_array if f=='csr_array' else sp.csr_matrix)((dat,ind,ptr),shape=(len(rows),n))
    if f=='csc': return sp.csc_matrix(J)
    if f=='coo': return sp.coo_matrix(J)
    if f=='dense': return J.toarray()
    if f=='f32': J.data=J.data.astype(np.float32)
    if f=='int': J.data=J.data.astype(np.int64)
    if f=='i64': J.indices=J.indices.astype(np.int64)
    if f=='swapped': J.data=J.data.astype('>f8')
    return J
def solve(F,op,A,n,held):
    X=np.array(op['x'],float)[:,:n]
    f=op['form']; k=dict(vector=1,one=1,rows=3,cube=6,none=0).get(f,2); X=X[:k]
    B=X@A if n else np.zeros((k,0))
    b={'vector':lambda: B[0],'one':lambda: B[None,:1],'rows':lambda: B,'cube':lambda: B.reshape(2,3,n),'none':lambda: np.zeros((0,n)),
       'strided':lambda: np.repeat(B,2,axis=1)[:,::2] if n>1 else np.repeat(np.vstack((B,B)),2,axis=0)[::2],'f32':lambda: B.astype(np.float32),'int':lambda: B.astype(int),'list':lambda: B.tolist(),
       'swapped':lambda: B.astype('>f8'),'short':lambda: np.ones((2,n-1)) if n>1 else np.ones((2,n+1)),'long':lambda: np.ones((2,n+1)),'empty':lambda: np.zeros((2,0)) if n else np.zeros((2,3)),'scalar':lambda: np.array(3.),
       'fortran':lambda: np.asfortranarray(B) if n>1 else 3.}[f]()
    was=b.tobytes() if isinstance(b,np.ndarray) else None
    S=op['sys']; q=lambda v,s: F.solve_xt_JtJ_bt(v,sys=s)
    try:
        if S=='default': y=F.solve_xt_JtJ_bt(b)
        elif S=='chain': y=q(b,'P')
        else: y=F.solve_xt_JtJ_bt(bt=b,sys=S)
    except Exception as e: return dict(refused=1,why=str(e)[:80])
    if not isinstance(b,np.ndarray) or not held: return dict(refused=0)
    o=dict(refused=0,shape=int(y.shape==b.shape and y.dtype==float),pure=int(b.tobytes()==was and (b.size==0 or not np.shares_memory(y,b))))
    if not o['shape'] or b.size==0 or n==0: return o
    if S!='chain':
        o['x']=np.clip(np.rint(y.reshape(-1,n)*1000),-2e9,2e9).astype(int).tolist() if np.all(np.isfinite(y)) else [[0.5]*n]
        return o
    # LDL' = P A P'
    near=lambda a,c,e=1e-7: bool(np.all(np.isfinite(a)) and np.max(np.abs(np.asarray(a)-c))<=e*max(1,np.max(np.abs(c))))
    P=q(np.eye(n),'P').T; o['perm']=int(np.all((P==0)|(P==1)) and np.all(P.sum(0)==1) and np.all(P.sum(1)==1) and near(q(np.eye(n),'CHOLMOD_Pt'),P))
    D=1/q(np.ones(n),'D'); L=np.linalg.inv(q(np.eye(n),'L').T)
    o['unit']=int(near(np.triu(L,1),0) and near(np.diag(L),1))
    o['diag']=int(bool(np.all(D>0)) and near(q(np.eye(n),'CHOLMOD_D'),np.diag(1/D)))
    x=X.reshape(-1,n)[:int(np.prod(b.shape[:-1]))].reshape(b.shape); Px=x@P.T; LtPx=Px@L
    Pb=q(b,'P'); u=q(Pb,'L')
    o['chain']=int(near(L@np.diag(D)@L.T,P@A@P.T) and near(Pb,b@P.T) and near(q(Pb,'LDLt'),Px) and near(u,LtPx*D) and near(q(u,'D'),LtPx) and near(q(Pb,'LD'),LtPx)
                   and near(q(q(u,'D'),'Lt'),Px) and near(q(u,'DLt'),Px) and near(q(q(u,'CHOLMOD_DLt'),'Pt'),x))
    return o
def run(case):
    c=case['c']; C=mrcal.CHOLMOD_factorization; r=[]; F=None
    if c['first']=='bare': F=C()
    G=[np.array(g,float) for g in case['gram']]; st=case['st']
    for k,op in enumerate(c['ops']):
        if op['op']=='init':
            J=build(c['mats'][op['m']-1]); keep=None
            try:
                if F is None:
                    F=C.__new__(C); F.__init__(J)
                else: F.__init__(J)
                o=dict(refused=0)
            except Exception as e: o=dict(refused=1,why=str(e)[:80])
            if op['touch'] and sp.issparse(J): J.data[...]=77
        elif op['op']=='clear': 
            try: F.__init__(); o=dict(refused=0)
            except Exception as e: o=dict(refused=1)
        elif op['op']=='about':
            m=re.search(r'N=(\d+)',str(F)); o=dict(held=int(m.group(1)) if m else -1)
            try:
                rc=F.rcond(); n=o['held']
                if n>0: D=1/F.solve_xt_JtJ_bt(np.ones(n),sys='D'); o['rcond']='right' if abs(rc-D.min()/D.max())<1e-9 else 'wrong'
                else: o['rcond']='empty'
            except Exception as e: o['rcond']='refused'
        else:
            s=st[k]; n=c['mats'][s-1]['n'] if s else 3
            o=solve(F,op,G[s-1] if s else np.eye(3),n,s>0)
        r.append(o)
    return dict(r=r)
