"""Stereo: rectified systems, disparities, maps."""
import numpy as np, mrcal
from pose import mat, rvec, QG, TG, lat
def rt_of(R,t):
    """a pose from a matrix, without the code under test"""
    q=np.array((1+R[0,0]+R[1,1]+R[2,2],1+R[0,0]-R[1,1]-R[2,2],1-R[0,0]+R[1,1]-R[2,2],1-R[0,0]-R[1,1]+R[2,2])); k=int(np.argmax(q))
    if k==0: q=(q[0],R[2,1]-R[1,2],R[0,2]-R[2,0],R[1,0]-R[0,1])
    elif k==1: q=(R[2,1]-R[1,2],q[1],R[0,1]+R[1,0],R[0,2]+R[2,0])
    elif k==2: q=(R[0,2]-R[2,0],R[0,1]+R[1,0],q[2],R[1,2]+R[2,1])
    else: q=(R[1,0]-R[0,1],R[0,2]+R[2,0],R[1,2]+R[2,1],q[3])
    q=np.array(q)/np.sqrt(np.dot(q,q)); q=q if q[0]>=0 else -q
    return np.hstack((rvec(q,0),t))
def rodrigues(r):
    th=np.sqrt(r@r)
    if th==0: return np.eye(3)
    a=r/th; K=np.array(((0,-a[2],a[1]),(a[2],0,-a[0]),(-a[1],a[0],0)))
    return np.eye(3)+np.sin(th)*K+(1-np.cos(th))*K@K
def project(lens,I,v):
    x,y,z=v[...,0],v[...,1],v[...,2]; f,c=I[:2],I[2:4]; n=np.sqrt(x*x+y*y+z*z)
    if lens in ('pinhole','cahvore'): u=(x/z,y/z)
    elif lens=='latlon': u=(np.arcsin(x/n),np.arctan2(y,z))
    elif lens=='lonlat': u=(np.arctan2(x,z),np.arcsin(y/n))
    else: u=(2*x/(n+z),2*y/(n+z))
    return np.stack(u,axis=-1)*f+c
def rays(lens,I,q):
    u=(q-I[2:4])/I[:2]; a,b=u[...,0],u[...,1]
    return np.stack((np.sin(a),np.cos(a)*np.sin(b),np.cos(a)*np.cos(b)) if lens=='latlon' else (a,b,np.ones_like(a)),axis=-1)
NAME=dict(pinhole='LENSMODEL_PINHOLE',latlon='LENSMODEL_LATLON',lonlat='LENSMODEL_LONLAT',stereographic='LENSMODEL_STEREOGRAPHIC',cahvore='LENSMODEL_CAHVORE_linearity=1.00')
SHORT={NAME[k]:k for k in NAME}
def geometry(c):
    """(R,t) from ref to the frame W, and to both cameras"""
    W=mat(QG[c['g']-1]),np.array(TG[c['g']-1][0],float)/TG[c['g']-1][1]
    return W
def cameras(cc):
    c=cc['c']; R,t=geometry(c); out=[]
    for i,(q,o) in enumerate(((c['q0'],0),(cc['q1'],c['b']))):
        A=mat(q).T                               # from W to the camera
        out.append((A@R,A@(t-np.array((o,0,0)))))
    return out
def model(lens,I,size,R,t,E=0):
    I=np.array(I,float)
    if lens=='cahvore': I=np.hstack((I,np.zeros(5),(E,0,0)))
    return mrcal.cameramodel(intrinsics=(NAME[lens],I),imagersize=size,rt_cam_ref=rt_of(R,t))
I0=np.array((700.,800,300,250)); I1=np.array((500.,550,330,200))
def system(cc):
    c=cc['c']; C=cameras(cc); 
    m=[model(c['lens0'],I0,(640,480),*C[0],E=.01*(c['E']==1)),model(c['lens1'],I1,(600,500),*C[1],E=.01*(c['E']==2))]
    view=np.array(cc['view'],float); o=dict(have=int(round(1000*np.degrees(np.arctan2(*view)))),ok=0)
    kw=dict(az_fov_deg=c['azfov'],el_fov_deg=c['elfov'])
    if not c['defaults']:
        kw.update(el0_deg=c['el0'],az_edge_margin_deg=c['margin'],pixels_per_deg_az=c['ppdaz']/4,pixels_per_deg_el=c['ppdel']/4,rectification_model=c['rect'])
        if not c['auto']: kw['az0_deg']=c['az0']
    try: (a,b),meta=mrcal.rectified_system(m,return_metadata=True,**kw)
    except Exception as e: o['why']=str(e)[:200]; return o
    o['ok']=1
    n,d=cc['n'],cc['d']
    for k,x in enumerate((a,b)):
        rt=x.rt_cam_ref(); o['R%d'%k]=lat(rodrigues(rt[:3]),n,1e-7); o['t%d'%k]=lat(rt[3:],n*d,1e-7)
    a2,b2=mrcal.rectified_system(m,**kw)
    I=a.intrinsics()[1]
    o['same']=int(all(np.array_equal(x.intrinsics()[1],I) and x.intrinsics()[0]==a.intrinsics()[0] and tuple(x.imagersize())==tuple(a.imagersize()) for x in (b,a2,b2)) and np.array_equal(a.rt_cam_ref(),a2.rt_cam_ref()) and np.array_equal(b.rt_cam_ref(),b2.rt_cam_ref()))
    o['lens']=a.intrinsics()[0]; N=np.array(a.imagersize()); o['size']=[int(x) for x in N]; f,cen=I[:2],I[2:]
    lb=meta['baseline']; o['baseline']=int(round(lb)) if abs(lb-round(lb))<1e-8 else 'off %r'%lb
    azel=np.array((meta['az0_deg'],meta['el0_deg'])); fov=np.array((meta['az_fov_deg'],meta['el_fov_deg'])); ppd=np.array((meta['pixels_per_deg_az'],meta['pixels_per_deg_el']))
    o['meta']=[int(round(1000*x)) for x in (*fov,*azel)]
    pin=c['rect']=='LENSMODEL_PINHOLE'; T=np.tan(np.radians(azel))
    if pin:
        p2=f/np.cos(np.radians(azel))**2*np.pi/180
        o['center']=o['meta'][2:] if np.all(np.abs((N-1)/2-cen-T*f)<=.2501) else ['off',repr(((N-1)/2-cen-T*f).tolist())]
        l,r=-cen/f,2*T+cen/f
        o['fov']=[int(x) for x in (np.abs(np.degrees(np.arctan(r)-np.arctan(l))-fov)<1e-5)]
        o['metappd']=int(np.all(np.abs(ppd/p2-1)<1e-9))
    else:
        p2=f*np.pi/180
        o['center']=[int(round(1000*x)) for x in np.degrees(((N-1)/2-cen)/f)]
        o['fov']=[int(x) for x in (np.abs(np.degrees(N/f)-fov)<1e-8)]
        o['metappd']=int(np.all(np.abs(ppd/p2-1)<1e-9))
    o['ppd']=[int(round(1e4*x)) for x in p2]
    # the resolution of camera 0 where the rectified system looks
    R0=C[0][0]@rodrigues(a.rt_cam_ref()[:3]).T
    def at(ae):
        x,y=ae
        v=np.array((np.tan(x),np.tan(y),1)) if pin else np.array((np.sin(x),np.cos(x)*np.sin(y),np.cos(x)*np.cos(y)))
        return project(c['lens0'],I0,R0@v)
    x0=np.radians(azel); h=1e-5; z=(R0@(np.array((T[0],T[1],1)) if pin else np.array((np.sin(x0[0]),np.cos(x0[0])*np.sin(x0[1]),np.cos(x0[0])*np.cos(x0[1])))))
    z=z/np.sqrt(z@z); o['res']=[1,1]
    singular=(c['lens0'] in ('pinhole','cahvore') and abs(z[2])<.05) or (c['lens0']=='latlon' and abs(z[0])>.97) or (c['lens0']=='lonlat' and abs(z[1])>.97) or (c['lens0']=='stereographic' and z[2]<-.95)
    if not singular:
        for k in (0,1):
            s=c['ppdel' if k else 'ppdaz']
            if s>0: continue
            e=np.zeros(2); e[k]=h; dq=at(x0+e)-at(x0-e)
            dq=dq-np.round(dq/(2*np.pi*I0[:2]))*2*np.pi*I0[:2]*(c['lens0'] in ('latlon','lonlat'))
            want=-s/4*np.sqrt(dq@dq)/(2*h)*np.pi/180
            o['res'][k]=int(abs(p2[k]/want-1)<1e-4) if pin else int(abs(N[k]-want*fov[k])<.5+1e-3*want)
    r=mrcal.rectified_resolution(m[0],az_fov_deg=fov[0],el_fov_deg=fov[1],az0_deg=azel[0],el0_deg=azel[1],R_cam0_rect0=R0,rectification_model=c['rect'],**({} if c['defaults'] else dict(pixels_per_deg_az=c['ppdaz']/4,pixels_per_deg_el=c['ppdel']/4)))
    o['rr']=int(np.all(np.abs(np.array(r)/ppd-1)<1e-6))
    return o
def pair(c,I,size):
    R,t=geometry(c)
    return [model(SHORT[c['rect']],I,size,R,t-np.array((o,0,0))) for o in (0,c['b'])]
def limits(c,k,name,frac):
    kind,v=c[k]
    if kind=='none': return {}
    if kind=='quarter': return {'disparity_'+name:v/4}
    return {('disparity_' if kind=='px' else 'disparity_scaled_')+name: v if kind=='px' or not frac else v/c['s']}
def dense(c):
    rect=SHORT[c['rect']]; z=1 if rect=='pinhole' else 20
    I=np.array((c['f']*z,c['fy']*z,c['cx'],c['cy']),float); ms=pair(c,I,(4,3))
    D=np.array(c['D']); dt=np.dtype(c['dtype'])
    if dt.kind=='u': D=np.maximum(D,0)
    frac=c['frac'] and dt.kind=='f'
    d=(D/c['s'] if frac else D).astype(dt); s=1 if frac else c['s']; kw=dict(disparity_scale=s) if s!=1 else {}
    lim={**limits(c,'min','min',frac),**limits(c,'max','max',frac)}
    q=np.stack(np.meshgrid(np.arange(4.),np.arange(3.)),axis=-1); q=np.ascontiguousarray(q); u=rays(rect,I,q); u/=np.sqrt(np.sum(u*u,axis=-1))[...,None]
    f=c['form']; d0,q0=d.copy(),q.copy(); r=p=None
    if f in ('unproject','spunproject') and lim: f='dense' if f=='unproject' else 'sparse'
    if f=='row' and rect!='latlon': f='sparse'
    if f=='dense': r=mrcal.stereo_range(d,ms,**kw,**lim)
    elif f=='sparse': r=mrcal.stereo_range(d,ms,qrect0=q,**kw,**lim)
    elif f=='row': r=mrcal.stereo_range(d,ms,qrect0=q[1],**kw,**lim)
    elif f in ('one','scalar'):
        r=np.array([[mrcal.stereo_range(d[i,j] if f=='one' else float(d[i,j]),ms,qrect0=q[i,j],**kw,**lim) for j in range(4)] for i in range(3)])
    elif f=='unproject': p=mrcal.stereo_unproject(d,ms,**kw)
    elif f=='spunproject': p=mrcal.stereo_unproject(d,ms,qrect0=q,**kw)
    else: p=mrcal.stereo_unproject(None,ms,ranges=mrcal.stereo_range(d,ms,**kw,**lim))
    o=dict(pure=int(np.array_equal(d,d0) and np.array_equal(q,q0)),D=D.tolist())
    o['shape']=int(p.shape==(3,4,3) if p is not None else r.shape==(3,4))
    if p is None: p=r[...,None]*u
    o['p']=[]
    for i in range(3):
        o['p'].append([])
        for j in range(4):
            x=p[i,j]
            if not np.any(x): o['p'][-1].append(0); continue
            if rect=='pinhole': y=lat(x,float(D[i,j]),1e-8)
            else:
                a,b=project('latlon',I,x),project('latlon',I,x-np.array((c['b'],0,0))); y=lat(np.array((a[1],a[0],(a[0]-b[0])*c['s'])),1,1e-6)
                if abs(b[1]-i)>1e-6: y='row'
            o['p'][-1].append(y)
    return o
def sparse(c):
    rect=SHORT[c['rect']]; I=np.array((c['f'],c['fy'],c['cx'],c['cy']),float); ms=pair(c,I,(200,200)); P=np.array(c['pts'],float)
    q0,q1=project(rect,I,P),project(rect,I,P-np.array((c['b'],0,0)))
    d=(q0-q1)[:,0]*c['s']
    if c['special']!='none': d[0]=dict(nan=np.nan,inf=np.inf,zero=0.,neg=-d[0])[c['special']]
    kw=dict(disparity_scale=c['s']) if c['s']!=1 else {}
    a,b=d.copy(),q0.copy(); f=c['form']
    if f=='grid': d,q0=d.reshape(2,2),q0.reshape(2,2,2)
    if f=='each': 
        p=np.array([mrcal.stereo_unproject(float(x),ms,qrect0=y,**kw) for x,y in zip(d,q0)]); r=np.array([mrcal.stereo_range(float(x),ms,qrect0=y,**kw) for x,y in zip(d,q0)])
    else: p=mrcal.stereo_unproject(d,ms,qrect0=q0,**kw); r=mrcal.stereo_range(d,ms,qrect0=q0,**kw)
    o=dict(shape=int(p.shape==d.shape+(3,) and r.shape==d.shape),pure=int(np.array_equal(d.ravel(),a,equal_nan=True) and np.array_equal(q0.reshape(-1,2),b)))
    o['p']=lat(p.reshape(-1,3),1,1e-7); o['r2']=lat(r.ravel()**2,1,1e-7)
    return o
def maps(cc):
    c=cc['c']; C=cameras(cc); rect=SHORT[c['rect']]
    I=[np.array((70.,80,30,25)),np.array((50.,55,33,20))]; L=[c['lens0'],c['lens1']]
    m=[model(L[i],I[i],(64,48),*C[i]) for i in (0,1)]
    ms=mrcal.rectified_system(m,az_fov_deg=c['azfov'],el_fov_deg=c['elfov'],az0_deg=0,el0_deg=c['el0'],pixels_per_deg_az=c['ppd']/4,pixels_per_deg_el=c['ppd']/4,rectification_model=c['rect'])
    M=mrcal.rectification_maps(m,ms); W,H=ms[0].imagersize(); Ir=ms[0].intrinsics()[1]
    o=dict(shape=int(M.shape==(2,H,W,2) and M.dtype==np.float32),off=0)
    v=rays(rect,Ir,np.stack(np.meshgrid(np.arange(float(W)),np.arange(float(H))),axis=-1)); v/=np.sqrt(np.sum(v*v,axis=-1))[...,None]
    Rr=rodrigues(ms[0].rt_cam_ref()[:3])
    for i in (0,1):
        x=v@(C[i][0]@Rr.T).T; q=project(L[i],I[i],x)
        ok=dict(pinhole=x[...,2]>.1,stereographic=x[...,2]>-.9,latlon=(np.abs(x[...,0])<.99)&((x[...,2]>0)|(np.abs(x[...,1])>.01)),lonlat=(np.abs(x[...,1])<.99)&((x[...,2]>0)|(np.abs(x[...,0])>.01)))[L[i]]
        o['off']+=int(np.sum(ok&~(np.max(np.abs(M[i]-q),axis=-1)<1e-3+1e-6*np.max(np.abs(q),axis=-1))))
    # points seen by both rectified cameras
    P=np.array(c['pts'],float); q=[]
    R=rodrigues(ms[0].rt_cam_ref()[:3]); t=ms[0].rt_cam_ref()[3:]
    for x in ms:
        A,b=rodrigues(x.rt_cam_ref()[:3]),x.rt_cam_ref()[3:]
        q.append(project(rect,Ir,((P-t)@R)@A.T+b))
    o['rows']=int(np.max(np.abs((q[0]-q[1])[:,1]))<1e-7 and np.min((q[0]-q[1])[:,0])>0)
    o['p']=lat(mrcal.stereo_unproject((q[0]-q[1])[:,0].copy(),ms,qrect0=q[0]),1,1e-6)
    return o
def reject(c):
    R,t=geometry(c); I=np.array((100.,110,3,4)); I2=I.copy(); b=c['b']; h=c['how']; api=c['api']; size=(5,4); size2=(5,5) if h=='imagersize' else size
    if h=='intrinsics': I2[c['g']%4]+=1
    off=np.array((-b if h=='left' else b,.1 if h=='down' else 0,-.1 if h=='forward' else 0),float)
    R1=rodrigues(np.array(((.02,0,0),(0,.02,0),(0,0,-.02))[c['g']%3]))@R if h=='rotation' else R
    t1=(R1@R.T)@t-off
    L='stereographic' if h=='lens' else ('latlon','pinhole')[c['g']%2]
    ms=[model(L,I,size,R,t),model(L,I2,size2,R1,t1)]
    if h=='three': ms.append(ms[1])
    if h=='one': ms=ms[:1]
    d=np.full((5,5) if h=='shape' else (4,5),3,dtype=np.int16); kw={}
    if h in ('both','neither'): api='unproject'
    elif h in ('shape',) and api in ('maps','sparse'): api='range'
    elif h in ('min','max','emptyrange') and api!='sparse': api='range'
    if h=='min': kw=dict(disparity_min=0,disparity_scaled_min=1)
    if h=='max': kw=dict(disparity_max=20,disparity_scaled_max=30)
    if h=='emptyrange': kw=dict(disparity_min=9,disparity_max=8)
    try:
        if api=='range': mrcal.stereo_range(d,ms,**kw)
        elif api=='sparse': mrcal.stereo_range(np.array((2.,)),ms,qrect0=np.array(((1.,1.),)),**kw)
        elif api=='unproject': mrcal.stereo_unproject(None if h=='neither' else d,ms,ranges=d.astype(float) if h=='both' else None)
        else: mrcal.rectification_maps([model('pinhole',I,size,R,t),model('pinhole',I,size,R1,t1)],ms)
    except (NameError,AttributeError,SystemError) as e: return dict(rejected=0,why=repr(e))
    except Exception as e: return dict(rejected=1)
    return dict(rejected=0)
def run(cc):
    c=cc['c']; k=c['kind']
    try: return system(cc) if k=='system' else dense(c) if k=='dense' else sparse(c) if k=='sparse' else maps(cc) if k=='maps' else reject(c)
    except Exception as e: 
        import traceback; return dict(exc=traceback.format_exc()[-500:])
