"""image_transformation_map(), pinhole_model_for_reprojection(), scale_focal__best_pinhole_fit(), transform_image(), mrcal-reproject-points"""
import os, sys, io, types, tempfile, shutil, contextlib, warnings, numpy as np
from diff import Rt, lens, state, UNIT
from formats import tool
import mrcal
try: import matplotlib.path
except ImportError:
    # only whether points are inside of a polygon is asked of it
    class Path:
        def __init__(self,v): self.v=np.array(v,float)
        def contains_points(self,p):
            x,y=p[...,0],p[...,1]; r=np.zeros(len(p),bool); v=self.v
            for a,b in zip(v,np.roll(v,-1,0)):
                with np.errstate(all='ignore'): r^=((a[1]>y)!=(b[1]>y))&(x<(b[0]-a[0])*(y-a[1])/(b[1]-a[1])+a[0])
            return r
    m=types.ModuleType('matplotlib'); m.path=types.ModuleType('matplotlib.path'); m.path.Path=Path
    sys.modules['matplotlib']=m; sys.modules['matplotlib.path']=m.path
def pin(p): return 'LENSMODEL_PINHOLE',np.array((p['f'],p['g'],p['x2']/2,p['y2']/2),float)
def warpmap(c,x):
    W,H=60,40; w,h=c['w'],c['h']; r=[v/2 for v in c['rect']]
    reg=np.array(((r[0],r[1]),(r[2],r[1]),(r[2],r[3]),(r[0],r[3]),(r[0],r[1])))
    def mk(kind,p,size,pose,i,**k): return mrcal.cameramodel(intrinsics=pin(p) if c['exact'] else lens(kind,i,size),imagersize=size,Rt_cam_ref=Rt(pose),**k)
    F=mk(c['from'],c['pinfrom'],[W,H],c['posefrom'],0,valid_intrinsics_region=reg if c['mask'] else None)
    T=mk(c['to'],c['pinto'],[w,h],c['poseto'],1)
    kw={}
    if c['intronly']: kw['intrinsics_only']=True
    if c['hasdist']: kw['distance']=c['dist']*UNIT
    if c['hasn']: kw['plane_n']=np.array(c['n'],float)
    if c['hasd']: kw['plane_d']=c['d']*UNIT
    km=dict(kw,mask_valid_intrinsics_region_from=True) if c['mask'] else kw
    was=state((F,T))
    try: M=mrcal.image_transformation_map(F,T,**km)
    except Exception as e: return dict(fail=str(e)[:100])
    o=dict(shape=list(M.shape),float32=int(M.dtype==np.float32),pure=int(state((F,T))==was))
    if list(M.shape)!=[h,w,2]: return o
    M=M.astype(float)
    if c['mask']:
        U=mrcal.image_transformation_map(F,T,**kw).astype(float)
        ins=(U[...,0]>r[0]+.01)&(U[...,0]<r[2]-.01)&(U[...,1]>r[1]+.01)&(U[...,1]<r[3]-.01)
        out=~((U[...,0]>r[0]-.01)&(U[...,0]<r[2]+.01)&(U[...,1]>r[1]-.01)&(U[...,1]<r[3]+.01))
        o['maskok']=int(np.all(M[out]==-1) and np.all(np.abs(M[ins]-U[ins])<2e-3)); M=U
    # what the pixel sees
    g=np.array([[(i,j) for i in range(w)] for j in range(h)],float)
    v=mrcal.unproject(g,*T.intrinsics(),normalize=True); R=Rt(x['used'])
    ok=np.abs(np.linalg.norm(v,axis=-1)-1)<1e-6            # the lens has a direction for the pixel
    with np.errstate(all='ignore'):
        if x['mode']=='distance': p=v*c['dist']*UNIT@R[:3].T+R[3]
        elif x['mode']=='plane':
            k=(c['d']*UNIT-np.dot(c['n'],R[3]))/((v@R[:3].T)@np.array(c['n'],float)); ok=(k>1e-3)&(k<1e4)
            p=(v*k[...,None])@R[:3].T+R[3]
        else: p=v@R[:3].T
        p=p/np.linalg.norm(p,axis=-1)[...,None]
        # where the projection into the input camera is meaningful
        ok&=np.isfinite(p).all(-1)&(p[...,2]>.3)
        p=np.where(ok[...,None],p,(0,0,1))
        q=mrcal.project(p,*F.intrinsics())
    e=np.max(np.abs(M-q)/np.maximum(1,np.abs(q)/100),-1)[ok]
    o['err']=int(min(1e9,np.max(e,initial=0)*1e6)) if np.all(np.isfinite(e)) else 10**9
    if c['exact']: o['map']=[[int(max(-2e9,min(2e9,round(1000*a)))) if np.isfinite(a) else 2000000000 for a in m] for m in M.reshape(-1,2)]
    return o
def pinhole(c,x):
    w,h=c['w'],c['h']; size=[w,h]
    if c['lens']=='PINHOLE': li=pin(c['pin'])
    else:
        l,I=lens(c['lens'],0,size); I=I.copy(); I[:4]=pin(c['pin'])[1]; li=(l,I)
    m=mrcal.cameramodel(intrinsics=li,imagersize=size,Rt_cam_ref=Rt(c['pose']))
    was=state([m]); P=np.array(c['points'],float)/2
    fit=c['fit']
    if fit=='none': fit=None
    elif fit=='points': fit=P if c['lead']==0 or c['direct']==1 else P[None] if c['lead']==1 else (P[0] if len(P)==1 else P[:,None,:])
    elif fit=='badshape': fit=np.zeros((3,3))
    pts=dict(corners=[(0,0),(0,h-1),(w-1,h-1),(w-1,0)]).get(c['fit']) if c['fit']=='corners' else [(0,(h-1)/2),(w-1,(h-1)/2)] if c['fit']=='centers-horizontal' else [((w-1)/2,0),((w-1)/2,h-1)] if c['fit']=='centers-vertical' else P
    def fits(I):
        """every point is inside of the imager, one is on the edge"""
        q=mrcal.project(mrcal.unproject(np.array(pts,float),*li),'LENSMODEL_PINHOLE',np.array(I[:4]))
        d=np.min(np.minimum(q,np.array((w-1,h-1))-q),-1)
        return int(np.all(d>-1e-4) and np.min(d)<1e-4)
    I0=li[1][:4]
    if c['direct']==1:
        try: s=mrcal.scale_focal__best_pinhole_fit(m,fit)
        except Exception as e: return dict(fail=str(e)[:100])
        if c['scalen']: return dict(fail='nothing given twice')
        return dict(pure=int(state([m])==was),scale=int(np.clip(s*1e6,-2e9,2e9)) if np.isfinite(s) else -1,fits=fits(np.append(I0[:2]*s,I0[2:])) if fit is not None else 1)
    kw={}
    if c['scalen']: kw['scale_focal']=c['scalen']/4
    s=c['sn']/c['sd'] if c['sn'] else 1
    if c['sn']: kw['scale_image']=s
    if fit is not None: kw['fit']=fit
    try: r=mrcal.pinhole_model_for_reprojection(m,**kw)
    except Exception as e: return dict(fail=str(e)[:100])
    l,I=r.intrinsics(); k=I[:2]/I0[:2]/s
    J=np.append(I0[:2]*k,I0[2:])
    return dict(pure=int(state([m])==was),lens=l,n=len(I),pose=int(np.max(np.abs(r.Rt_cam_ref()-m.Rt_cam_ref()))<1e-12),size=[int(v) for v in r.imagersize()],
                center=[int(round(v*1e6)) if np.isfinite(v) else 10**9 for v in I[2:4]],aspect=int(abs(k[0]/k[1]-1)<1e-9),scale=int(np.clip(k[0]*1e6,-2e9,2e9)) if np.isfinite(k[0]) else -1,fits=fits(J) if fit is not None else 1)
def image(c,x):
    import cv2
    im=np.array(c['pix'],c['dtype']).reshape((c['h'],c['w'],3) if c['ch']==3 else (c['h'],c['w']))
    M=(np.array(c['map'],float)/2).astype(np.float32).reshape(c['mh'],c['mw'],2)
    a,b=im,M
    if c['bad']=='image': a=im.tolist()
    if c['bad']=='map': b=M.tolist()
    if c['bad']=='maptype': b=M.astype(np.int32)
    kw={}
    if c['nearest']: kw['interpolation']=cv2.INTER_NEAREST
    if c['border']=='replicate': kw['borderMode']=cv2.BORDER_REPLICATE
    if c['value']: kw['borderValue']=c['value']
    shape=(c['mh'],c['mw'],3) if c['ch']==3 else (c['mh'],c['mw'])
    out=np.full(shape,9,c['dtype']) if c['out'] else None
    if c['out']: kw['out']=out
    w0,w1=im.copy(),M.copy()
    try: r=mrcal.transform_image(a,b,**kw)
    except Exception as e: return dict(fail=str(e)[:100])
    return dict(pure=int(np.array_equal(im,w0) and np.array_equal(M,w1)),shape=list(r.shape),type=str(r.dtype),outok=int(out is None or np.array_equal(r,out)),pix=[int(round(100*float(v))) for v in r.ravel()])
def points(c,x):
    size=[600,400]
    F=mrcal.cameramodel(intrinsics=lens(c['from'],0,size),imagersize=size,Rt_cam_ref=Rt(c['posefrom']))
    T=mrcal.cameramodel(intrinsics=lens(c['to'],1,size),imagersize=size,Rt_cam_ref=Rt(c['poseto']))
    q=np.array(c['pts'],float)+.25
    d=tempfile.mkdtemp(prefix='vwarp-')
    try:
        f,t=d+'/from.cameramodel',d+'/to.cameramodel'; F.write(f); T.write(t); F,T=mrcal.cameramodel(f),mrcal.cameramodel(t)
        s=''.join(('# x y\n' if c['comments'] and i==0 else '')+('# more\n' if c['comments']==2 and i==1 else '')+'%f %f\n'%tuple(p) for i,p in enumerate(q))
        r=tool('mrcal-reproject-points',(['--intrinsics-only'] if c['intronly'] else [])+[f,t],stdin=s)
    finally: shutil.rmtree(d,ignore_errors=True)
    code,out=r[0],r[1]
    if code: return dict(fail=str(r)[:200])
    if isinstance(out,bytes): out=out.decode()
    L=out.strip().split('\n'); D=[l for l in L if not l.startswith('#')]; C=[l for l in L if l.startswith('#')]
    o=dict(pure=1,n=len(D),header=int('# x y' in C),warned=int(any('WARNING' in l for l in C)))
    v=mrcal.unproject(q,*F.intrinsics())@Rt(x['used'])[:3].T
    e=mrcal.project(v,*T.intrinsics())
    if len(D)==len(q):
        g=np.array([[float(a) for a in l.split()] for l in D]); z=np.abs(g-e)/np.maximum(1,np.abs(e)*1e-2); z=z[v[:,2]>.2*np.linalg.norm(v,axis=-1)]
        o['err']=int(min(1e9,np.max(z,initial=0)*1e6)) if np.all(np.isfinite(z)) else 10**9
    return o
def run(case):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return dict(map=warpmap,pin=pinhole,image=image,points=points)[case['c']['kind']](case['c'],case['x'])
