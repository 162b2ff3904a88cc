"""Replays behaviours of MCPose: sequences of compositions and inversions of poses."""
import numpy as np, numpysane as nps, mrcal, copy
QG=[(1,0,0,0),(1,1,0,0),(0,0,1,0),(1,1,1,1),(1,2,3,4),(3,-1,0,2),(20,1,0,-1),(1,0,12,2),(1,0,0,0),(1,-1,2,0)]
TG=[((0,0,0),1),((1,-2,3),1),((4,0,-1),1),((0,0,0),1),((-3,5,2),1),((7,1,0),2),((1,1,1),1),((-1,0,2),1),((5,-6,7),1),((2,2,-9),3)]
PTS=np.array([[1,0,0],[0,-2,5],[3,4,-7],[0,0,0]],float)
def mat(q):
    a,b,c,d=q; n=a*a+b*b+c*c+d*d
    return np.array([[a*a+b*b-c*c-d*d,2*(b*c-a*d),2*(b*d+a*c)],[2*(b*c+a*d),a*a-b*b+c*c-d*d,2*(c*d-a*b)],[2*(b*d-a*c),2*(c*d+a*b),a*a-b*b-c*c+d*d]],float)/n
def rvec(q,alt):
    v=np.array(q[1:],float); m=np.sqrt(v@v)
    if m==0: return np.zeros(3)
    th=2*np.arctan2(m,q[0])
    if alt: th-=2*np.pi
    return v/m*th
RtG=[np.vstack((mat(q),np.array(t[0],float)/t[1])) for q,t in zip(QG,TG)]
def rtG(alt): return [np.hstack((rvec(q,alt),np.array(t[0],float)/t[1])) for q,t in zip(QG,TG)]
def lat(x,s,tol=1e-9):
    """integers, after scaling"""
    x=np.asarray(x)
    y=x*s; r=np.round(y); mx=max(1.,float(np.max(np.abs(y))),s)
    if not np.all(np.isfinite(y)) or np.any(np.abs(y-r)>tol*mx+1e-8): return 'off lattice '+repr(x.tolist())
    return [[int(b) for b in a] for a in r] if r.ndim==2 else [int(a) for a in r]
def padded(a):
    """a non-contiguous copy"""
    a=np.asarray(a); b=np.full(tuple(2*s+1 for s in a.shape),7e77); sl=tuple(slice(1,None,2) for s in a.shape)
    c=b[sl]; c[...]=a; return c
def empty(shape): return padded(np.full(shape,9.9))
def close(a,b,t=1e-9): return np.shape(a)==np.shape(b) and np.all(np.isfinite(a)) and np.max(np.abs(np.asarray(a)-b),initial=0)<=t*max(1,np.max(np.abs(b),initial=0))
class Obs:
    def __init__(self): self.out=[];self.pure=[];self.bcast=[];self.grad=[]
O=None
def toR(y,kind):
    if kind=='r': return mrcal.R_from_r(y)
    if kind=='rt': return mrcal.Rt_from_rt(y)
    return y
def numgrad(f,args,k,kind):
    x=args[k]; sh=x.shape; J=[]
    h=1e-3
    for i in range(x.size):
        e=np.zeros(x.size); e[i]=h; e=e.reshape(sh)
        def at(m):
            p=list(args); p[k]=x+m*e; return toR(f(*p),kind).ravel()
        J.append((8*(at(1)-at(-1))-(at(2)-at(-2)))/(12*h))
    return np.array(J).T
def chain(y,kind,J):
    """derivative of the matrix form of y"""
    if kind in ('v','R'): return J.reshape(y.size,-1)
    if kind=='r': return mrcal.R_from_r(y,get_gradients=True)[1].reshape(9,3)@J.reshape(3,-1)
    D=np.zeros((12,6)); D[:9,:3]=mrcal.R_from_r(y[:3].copy(),get_gradients=True)[1].reshape(9,3); D[9:,3:]=np.eye(3)
    return D@J.reshape(6,-1)
def call(name,args,kind,gradargs=None,inplace=(),**kw):
    """one function, in all the ways it can be called. kind: what the result is"""
    f=getattr(mrcal,name); tag=name+''.join('_'+k for k in kw if kw[k] and k!='get_gradients')
    cp=[a.copy() for a in args]
    y=f(*args,**kw)
    if not all(np.array_equal(a,b) for a,b in zip(args,cp)): O.pure.append(tag)
    # a given output array, not contiguous
    o=empty(y.shape); r=f(*[padded(a) for a in args],out=o,**kw)
    if not (close(o,y,1e-13)): O.out.append(tag+'_out')
    if r is not o: O.out.append(tag+'_returns_out')
    for k in inplace:
        b=[a.copy() for a in args]; f(*b,out=b[k],**kw)
        if not close(b[k],y,1e-13): O.out.append(tag+'_inplace%d'%k)
        b=[padded(a) for a in args]; f(*b,out=b[k],**kw)
        if not close(b[k],y,1e-13): O.out.append(tag+'_inplace%d_strided'%k)
    # broadcasting: the first argument gets a dimension of 2, the last one (3,1)
    b=[a for a in args]
    z=np.array(args[0])*1.; z2=f(z*0+args[0][...] if False else z, *args[1:],**kw)
    b[0]=np.array([args[0],args[0]]);
    if len(args)>1: b[-1]=np.array([[args[-1]]]*3)
    w=f(*b,**kw)
    ex=(3,2) if len(args)>1 else (2,)
    if w.shape!=ex+y.shape or not all(close(w[i],y,1e-13) for i in np.ndindex(*ex)): O.bcast.append(tag)
    if gradargs is not None:
        g=f(*args,get_gradients=True,**kw)
        if not close(g[0],y,1e-12): O.grad.append(tag+'_value')
        fl=lambda *a: f(*a,**kw)
        J0=[chain(y,kind,G) for G in g[1:]]
        for k,J in zip(gradargs,J0):
            if not close(J,numgrad(fl,args,k,kind),2e-7): O.grad.append('%s_d%d'%(tag,k))
        outs=tuple(empty(a.shape) for a in g)
        f(*[padded(a) for a in args],get_gradients=True,out=outs,**kw)
        for k,(a,b) in enumerate(zip(outs,g)):
            if not close(a,b,1e-12): O.grad.append('%s_out%d'%(tag,k))
        g2=f(*b_(args),get_gradients=True,**kw)
        for k,(a,b) in enumerate(zip(g2,g)):
            if a.shape!=(2,)+b.shape or not close(a[1],b,1e-12): O.bcast.append('%s_grad%d'%(tag,k))
    return y
def b_(args): return [np.array([args[0],args[0]])]+list(args[1:])

def run(c):
    global O; O=Obs()
    alt=(c['start']+len(c['ops']))%2
    rts=rtG(alt)
    k=c['start']-1
    Rt=RtG[k].copy(); rt=rts[k].copy(); r=rts[k][:3].copy()
    for kind,i0,i1,g in c['ops']:
        g-=1; h=(g+1)%len(QG)
        if kind in (1,2):
            fl=dict(inverted0=bool(i0),inverted1=bool(i1))
            pick=lambda P,G: (P,G) if kind==1 else (G,P)
            Rt2=call('compose_Rt',pick(Rt,RtG[g]),'R',inplace=(0,1),**fl)
            rt2=call('compose_rt',pick(rt,rts[g]),'rt',gradargs=(0,1),inplace=(0,1),**fl)
            r2 =call('compose_r', pick(r,rts[g][:3]),'r',gradargs=(0,1),inplace=(0,1),**fl)
            if not i0 and not i1:
                z=np.zeros(3); z6=np.zeros(6)
                for n,a,b in (('compose_r_tinyr0_gradientr0',(r,),mrcal.compose_r(z,r,get_gradients=True)[1]),
                              ('compose_r_tinyr1_gradientr1',(r,),mrcal.compose_r(r,z,get_gradients=True)[2]),
                              ('compose_rt_tinyrt0_gradientrt0',(rt,),mrcal.compose_rt(z6,rt,get_gradients=True)[1]),
                              ('compose_rt_tinyrt1_gradientrt1',(rt,),mrcal.compose_rt(rt,z6,get_gradients=True)[2])):
                    m=np.sqrt(a[0][:3]@a[0][:3])
                    if m<np.pi-1e-2 and not close(getattr(mrcal,n)(*a),b,1e-7): O.grad.append(n)
        elif kind==3:
            Rt2=call('invert_Rt',(Rt,),'R',inplace=(0,))
            rt2=call('invert_rt',(rt,),'rt',gradargs=(0,),inplace=(0,))
            r2=-r
        else:
            Rt2=mrcal.compose_Rt(RtG[g],Rt,RtG[h]); rt2=mrcal.compose_rt(rts[g],rt,rts[h]); r2=mrcal.compose_r(rts[g][:3],r,rts[h][:3])
            o=empty((4,3)); mrcal.compose_Rt(RtG[g],Rt,RtG[h],out=o)
            if not close(o,Rt2,1e-13): O.out.append('compose_Rt_n')
            o=empty((6,)); mrcal.compose_rt(rts[g],rt,rts[h],out=o)
            if not close(o,rt2,1e-13): O.out.append('compose_rt_n')
            o=empty((3,)); mrcal.compose_r(rts[g][:3],r,rts[h][:3],out=o)
            if not close(o,r2,1e-13): O.out.append('compose_r_n')
        Rt,rt,r=Rt2,rt2,r2
    n=sum(x*x for x in c['q']); d=c['d']
    o={}
    U=lambda A: dict(R=lat(A[:3],n),t=lat(A[3],d))
    o['Rt']=U(Rt)
    o['rt']=U(call('Rt_from_rt',(rt,),'R'))
    o['r']=lat(call('R_from_r',(r,),'R',gradargs=(0,)),n)
    # conversions
    rr=call('r_from_R',(Rt[:3].copy(),),'r'); m=np.sqrt(rr@rr); o['rmag']=int(m<=np.pi+1e-6)
    if not close(mrcal.R_from_r(rr),Rt[:3],1e-9 if m<np.pi-1e-6 else 1e-7): O.grad.append('r_from_R_value')
    rt1=call('rt_from_Rt',(Rt,),'rt')
    if not close(mrcal.Rt_from_rt(rt1),Rt,1e-9 if m<np.pi-1e-6 else 1e-7): O.grad.append('rt_from_Rt_value')
    if m<np.pi-1e-2:
        r_,dr=mrcal.r_from_R(Rt[:3].copy(),get_gradients=True); _,dR=mrcal.R_from_r(r_,get_gradients=True)
        if not close(dr.reshape(3,9)@dR.reshape(9,3),np.eye(3),1e-6): O.grad.append('r_from_R')
        rt_,dr2=mrcal.rt_from_Rt(Rt,get_gradients=True)
        if not close(rt_,rt1) or not close(dr2,dr): O.grad.append('rt_from_Rt')
    Rt_,dR2=mrcal.Rt_from_rt(rt,get_gradients=True); R_,dR3=mrcal.R_from_r(rt[:3].copy(),get_gradients=True)
    if not close(Rt_[:3],R_) or not close(Rt_[3],rt[3:]) or not close(dR2,dR3): O.grad.append('Rt_from_rt')
    qt=call('qt_from_Rt',(Rt,),'R'); o['q']=lat(qt[:4],np.sqrt(n),1e-7); o['qtt']=lat(qt[4:],d)
    o['fromqt']=U(call('Rt_from_qt',(qt,),'R'))
    iRt=call('invert_Rt',(Rt,),'R',inplace=(0,)); irt=call('invert_rt',(rt,),'rt',gradargs=(0,),inplace=(0,)); iR=call('invert_R',(Rt[:3].copy(),),'R',inplace=(0,))
    # the translation of the inverse has the denominator the spec reduces to: scale from the exact value
    V=lambda A: dict(R=lat(A[:3],n),t=red(A[3],n*d))
    o['invRt']=V(iRt); o['invrt']=V(mrcal.Rt_from_rt(irt)); o['invR']=lat(iR,n)
    o['pt']=[]
    R=Rt[:3].copy()
    for x in PTS:
        s=n*d; a={}
        for inv,sx in ((False,''),(True,'i')):
            a['T'+sx]=lat(call('transform_point_Rt',(Rt,x),'v',gradargs=(0,1),inverted=inv,inplace=(1,)),s)
            a['rt'+sx]=lat(call('transform_point_rt',(rt,x),'v',gradargs=(0,1),inverted=inv,inplace=(1,)),s)
            a['R'+sx]=lat(call('rotate_point_R',(R,x),'v',gradargs=(0,1),inverted=inv,inplace=(1,)),s)
            a['r'+sx]=lat(call('rotate_point_r',(r,x),'v',gradargs=(0,1),inverted=inv,inplace=(1,)),s)
        o['pt'].append(a)
    for k in ('out','pure','bcast','grad'): o[k]=sorted(set(getattr(O,k)))
    return o
def red(v,s):
    a=lat(v,s)
    if isinstance(a,str): return a
    import math
    g=math.gcd(*[abs(x) for x in a],s)
    return [x//g for x in a]
