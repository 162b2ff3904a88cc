"""Projects and unprojects the directions of MCProjection."""
import numpy as np, mrcal
from pose import lat, close
def padded(a):
    b=np.full((3,)+np.shape(a),7e77); b[1]=a; return b[1]
def empty(sh): return padded(np.full(sh,np.nan))
def spread(a):
    """a copy with gaps between the slices"""
    b=np.full((2*len(a)+1,)+a.shape[1:],7e77); b[1::2]=a; return b[1::2]
A8=4/np.pi
def ctrl(s,i,j,xy): return ((i*(3+xy)+j*(5-2*xy)+i*j*(1+xy)+s)%9-4)/64
def camera(c):
    m=c['m']; r=lambda x:x[0]/x[1]
    f=[r(x) for x in c['f']]; cc=[r(x) for x in c['c']]; k=[r(x) for x in c['k']]
    if m in ('LONLAT','LATLON','CAHVORE0'): f=[x*A8 for x in f]
    if m=='SPLINED':
        o,Nx,Ny,s=c['sp']
        k=[ctrl(s,i,j,xy) for j in range(Ny) for i in range(Nx) for xy in (0,1)]
        return 'LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=180'%(o,Nx,Ny), np.array(f+cc+k)
    if m in('CAHVOR','CAHVORX'): k[0]/=A8; k[1]/=A8; return 'LENSMODEL_CAHVOR',np.array(f+cc+k)
    if m=='CAHVOREG': return 'LENSMODEL_CAHVORE_linearity=0.37', np.array(f+cc+[.05,-.03,.02,.01,-.005,0,0,0])
    if m.startswith('CAHVORE'): return 'LENSMODEL_CAHVORE_linearity='+{'0':'0.0','1':'1.0','5':'0.5'}[m[-1]], np.array(f+cc+[0]*8)
    return 'LENSMODEL_'+m, np.array(f+cc+k)
def fd(f,x,h):
    J=[]
    for i in range(x.size):
        e=np.zeros(x.size); e[i]=h
        J.append((8*(f(x+e)-f(x-e))-(f(x+2*e)-f(x-2*e)))/(12*h))
    return np.moveaxis(np.array(J),0,-1)
def run(c):
    cam=c['cam']; lm,intr=camera(cam); v=np.array(c['v'],float); den=np.array([x[1] for x in c['q']])
    L=lambda q: lat(q*den,1,1e-10)
    o=dict(q=[],pf=[],grad=[],bcast=[],out=[],pure=[],ugrad=[],ub=[])
    v_,i_=v.copy(),intr.copy()
    o['sc']=int(close(mrcal.project(v*3.1,lm,intr),mrcal.project(v,lm,intr),1e-8))
    for s in (1,2.5,1/3): o['q'].append(L(mrcal.project(v*s,lm,intr)))
    q,dv,di=mrcal.project(v,lm,intr,get_gradients=True); o['q'].append(L(q))
    if not(np.array_equal(v,v_) and np.array_equal(intr,i_)): o['pure'].append('project')
    fn={'PINHOLE':'pinhole','STEREOGRAPHIC':'stereographic','LONLAT':'lonlat','LATLON':'latlon'}.get(cam['m'])
    if fn:
        F=getattr(mrcal,'project_'+fn); U=getattr(mrcal,'unproject_'+fn)
        o['pf'].append(L(F(v,intr))); a,g=F(v,intr,get_gradients=True); o['pf'].append(L(a))
        if not close(g,dv): o['grad'].append('project_'+fn)
        o['pf'].append(L(F(v)*intr[:2]+intr[2:]))        # default intrinsics are the identity
        w=empty((2,)); F(padded(v),intr,out=w); o['pf'].append(L(w))
    h=2e-3 if not cam['m']=='SPLINED' else 1e-5
    tol=2e-6 if cam['m']!='SPLINED' else 1e-4
    cut=(cam['m']=='LONLAT' and v[0]==0 and v[2]<0) or (cam['m']=='LATLON' and v[1]==0 and v[2]<0)
    if not cut and not close(dv,fd(lambda x: mrcal.project(x,lm,intr),v,h*np.max(np.abs(v))),tol): o['grad'].append('dq_dv')
    J=fd(lambda x: mrcal.project(v,lm,x),intr,1e-5); s=max(1,np.abs(J).max())
    if np.abs(di-J).max()>1e-6*s: o['grad'].append('dq_dintrinsics')
    if cam['m']=='SPLINED':
        o['nzx']=[int(k)-4 for k in np.nonzero(np.abs(di[0,4:])>1e-9)[0]+4]; o['nzy']=[int(k)-5 for k in np.nonzero(np.abs(di[1,4:])>1e-9)[0]+4]
    # broadcasting, output arrays
    V=np.array([v,2*v,v+0.]); I2=np.array([[intr],[intr*1.01]])
    Q=mrcal.project(V,lm,I2); q1=mrcal.project(v,lm,intr*1.01)
    if Q.shape!=(2,3,2) or not all(close(Q[0,k],q) and close(Q[1,k],q1) for k in range(3)): o['bcast'].append('project')
    Qg=mrcal.project(V,lm,I2,get_gradients=True)
    _,dv1,di1=mrcal.project(v,lm,intr*1.01,get_gradients=True)
    if Qg[1].shape!=(2,3,2,3) or Qg[2].shape!=(2,3,2,len(intr)) or not (close(Qg[0],Q) and close(Qg[1][1,0],dv1) and close(Qg[2][1,2],di1) and close(Qg[2][0,0],di) and close(Qg[1][0,1],dv/2)): o['bcast'].append('project_grad')
    w=empty((2,)); r=mrcal.project(padded(v),lm,padded(intr),out=w)
    if not close(w,q) or r is not w: o['out'].append('project')
    ws=(empty((2,)),empty((2,3)),empty((2,len(intr)))); mrcal.project(v,lm,intr,get_gradients=True,out=ws)
    if not (close(ws[0],q) and close(ws[1],dv) and close(ws[2],di)): o['out'].append('project_grad')
    w=spread(np.full((2,3,2),np.nan)); mrcal.project(spread(V),lm,spread(I2),out=w)
    if not close(w,Q): o['out'].append('project_spread')
    if mrcal.project(np.zeros((0,3)),lm,intr).shape!=(0,2): o['bcast'].append('project_empty')
    # unproject
    n=np.sqrt(v@v)
    q_=q.copy()
    u=mrcal.unproject(q,lm,intr)
    ok=bool(np.all(np.isfinite(u)))
    o['uq']=1; o['un']=1
    if ok:
        o['uq']=int(close(mrcal.project(u,lm,intr),q,1e-6))
        mu=np.sqrt(u@u)
        o['u']=lat(u/mu*n,1,1e-6)
        un=mrcal.unproject(q,lm,intr,normalize=True)
        o['un']=int(close(un,u/mu,1e-8))
        U_=np.array([q,q_]); B=mrcal.unproject(U_,lm,I2)
        b1=mrcal.unproject(q,lm,intr*1.01)
        if B.shape!=(2,2,3) or not close(B[0,0]/np.sqrt(B[0,0]@B[0,0]),u/mu,1e-6): o['ub'].append('broadcast')
        if np.all(np.isfinite(b1)) and not close(B[1,1],b1,1e-6): o['ub'].append('broadcast1')
        w=empty((3,)); mrcal.unproject(padded(q),lm,padded(intr),out=w)
        if not close(w,u,1e-9): o['ub'].append('out')
        if mrcal.unproject(np.zeros((0,2)),lm,intr).shape!=(0,3): o['ub'].append('empty')
        well=np.linalg.svd(dv)[1][1]>1e-3*np.linalg.svd(dv)[1][0]
        for nm in (False,True):
            g=mrcal.unproject(q,lm,intr,normalize=nm,get_gradients=True)
            if not close(g[0]/np.sqrt(g[0]@g[0]),u/mu,1e-6): o['ugrad'].append('value%d'%nm)
            if nm and not close(g[0]@g[0],1.,1e-9): o['ugrad'].append('unit')
            if nm and not (np.abs(g[0]@g[1]).max()<=1e-7*max(1,np.abs(g[1]).max())): o['ugrad'].append('orthogonal')
            f=lambda a,b: mrcal.unproject(a,lm,b,normalize=nm,get_gradients=True)[0]
            # gradients consistent with project(): constant-q directions
            pv,pi=mrcal.project(g[0],lm,intr,get_gradients=True)[1:]
            if well:
                if not close(pv@g[1],np.eye(2),1e-6): o['ugrad'].append('dq%d'%nm)
                nE=-3 if 'CAHVORE' in lm else None   # the effect of a moving center depends on the range
                if np.abs(pv@g[2]+pi)[:,:nE].max()>1e-6*max(1,np.abs(pi).max()): o['ugrad'].append('di%d'%nm)
            ws=tuple(empty(a.shape) for a in g); mrcal.unproject(q,lm,intr,normalize=nm,get_gradients=True,out=ws)
            if not all(close(a,b,1e-8) for a,b in zip(ws,g)): o['ub'].append('out_grad%d'%nm)
            gb=mrcal.unproject(U_,lm,I2,normalize=nm,get_gradients=True)
            if gb[1].shape!=(2,2,3,2) or gb[2].shape!=(2,2,3,len(intr)) or not all(close(gb[k][0,1],g[k],1e-6) for k in range(3)): o['ub'].append('broadcast_grad%d'%nm)
        if fn:
            u2=U(q,intr); g2,d2=U(q,intr,get_gradients=True)
            if not close(u2/np.sqrt(u2@u2),u/mu,1e-8) or not close(g2,u2,1e-12): o['ugrad'].append(fn)
            if not close(d2,fd(lambda x:U(x,intr),q,1e-2*intr[0]/100),1e-5): o['ugrad'].append(fn+'_gradient')
            u3=U((q-intr[2:])/intr[:2])
            if not close(u3,u2,1e-9): o['ugrad'].append(fn+'_default')
    for k in ('grad','bcast','out','pure','ugrad','ub'): o[k]=sorted(set(o[k]))
    return o
