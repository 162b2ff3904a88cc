"""match_feature()"""
import numpy as np, mrcal, cv2
METHODS=dict(default=None,sqdiff=cv2.TM_SQDIFF,ccorr=cv2.TM_CCORR,ccorr_normed=cv2.TM_CCORR_NORMED,sqdiff_normed=cv2.TM_SQDIFF_NORMED,ccoeff=cv2.TM_CCOEFF,ccoeff_normed=cv2.TM_CCOEFF_NORMED)
A2=dict(same=((2,0),(0,2)),twice=((4,0),(0,4)),half=((1,0),(0,1)),turn=((0,-2),(2,0)),flip=((-2,0),(0,2)),shear=((2,2),(0,2)),wide=((4,0),(0,2)))
def image(rows,c,k):
    a=np.array(rows)*4; t=(np.uint8,np.float32,np.uint8)[c['float']]
    a=a.astype(t); h,w=a.shape
    if c['layout']==1: b=np.full((h,w+3),77,t); b[:,:w]=a; a=b[:,:w]
    if c['layout']==2: a=np.asfortranarray(a)
    if c['layout']==3: b=np.full((h*2,w),77,t); b[::2]=a; a=b[::2]
    return a
def run(case):
    c=case['c']; i0=image(c['im0'],c,0); i1=image(c['im1'],c,1); f=c['fault']
    q0=np.array(c['q0'])/4.; b=np.array(c['b'])/2.; A=np.array(A2[c['map']])/2.
    H=np.eye(3); H[:2,:2]=A; H[:2,2]=b; H*=c['times']
    kw=dict(q1_estimate=q0+b) if c['how'] else dict(H10=H)
    if f=='both': kw=dict(q1_estimate=q0+b,H10=H)
    if f=='neither': kw={}
    ts=c['size'][0] if c['scalar'] else tuple(c['size'])
    if f=='size0': ts=(3,0)
    if f=='size3': ts=(3,3,3)
    if f=='sizef': ts=(3.,3)
    if f=='color0': i0=np.stack((i0,)*3,-1)
    if f=='color1': i1=np.stack((i1,)*3,-1)
    m=METHODS[c['method']]
    if not (m is None and c['scalar']): kw['method']=m
    if c['show']: kw.update(visualize=True,return_plot_args=True)
    was=[x.copy() for x in (i0,i1,q0,H)]
    try: r=mrcal.match_feature(i0,i1,q0,search_radius1=c['radius'],template_size1=ts,**kw)
    except Exception as e: return dict(refused=1,why=str(e)[:90],pure=int(all(np.array_equal(x,y) for x,y in zip(was,(i0,i1,q0,H)))))
    o=dict(refused=0,pure=int(all(np.array_equal(x,y) for x,y in zip(was,(i0,i1,q0,H)))),none=int(r[0] is None),finite=1,diag=1,plot=1,top=1,q=[0,0],z9=[0]*9)
    d=r[1]; z=np.array(d['matchoutput_image'],float); n=c['size'][0]*c['size'][1]
    if z.ndim!=2 or not np.all(np.isfinite(z)): z=np.zeros((1,1))
    scale=dict(default=6000,ccorr_normed=6000,sqdiff_normed=6000,ccoeff_normed=6000,sqdiff=1,ccorr=1,ccoeff=n)[c['method']]
    o['z']=np.clip(np.rint(z*scale),-1e9,1e9).astype(int).tolist()
    y,x=np.unravel_index((np.argmin if 'sqdiff' in c['method'] else np.argmax)(z),z.shape)
    if 0<y<z.shape[0]-1 and 0<x<z.shape[1]-1:
        w=(z[y-1:y+2,x-1:x+2]-z[y,x]).ravel(); w*=10000/max(1e-9,np.abs(w).max()); o['z9']=np.rint(w).astype(int).tolist()
    q=r[0]
    if q is not None:
        o['finite']=int(q.shape==(2,) and bool(np.all(np.isfinite(q))))
        if o['finite']: o['q']=np.clip(np.rint(q*1000),-1e8,1e8).astype(int).tolist()
        at=d.get('matchoutput_optimum_subpixel_at'); sh=d.get('qshift_image1_matchoutput'); top=d.get('matchoutput_optimum_subpixel')
        o['diag']=int(at is not None and sh is not None and top is not None and not np.any(np.abs(at+sh-q)>1e-4))
        if o['diag'] and o['finite'] and np.all(np.abs(at-(x,y))<=1.5) and 0<y<z.shape[0]-1 and 0<x<z.shape[1]-1:
            u,v=np.meshgrid((-1,0,1),(-1,0,1)); u=u.ravel(); v=v.ravel()
            k=np.linalg.lstsq(np.stack((u*0+1,u,v,u*u,u*v,v*v),-1).astype(float),z[y-1:y+2,x-1:x+2].ravel(),rcond=None)[0]; dx,dy=at-(x,y)
            e=k@(1,dx,dy,dx*dx,dx*dy,dy*dy); o['top']=int(abs(e-top)<=1e-4*(1e-3+np.ptp(z)))
    if c['show']:
        if len(r)!=4: o['plot']=0
        elif q is None: o['plot']=int(r[2] is None and r[3] is None)
        else: o['plot']=int(len(r[2])==3 and len(r[2][1][0])==c['size'][1] and r[2][0][0].shape==(z.shape[0]+c['size'][1]-1,z.shape[1]+c['size'][0]-1) and isinstance(r[3],dict))
    elif len(r)!=2: o['plot']=0
    return o
