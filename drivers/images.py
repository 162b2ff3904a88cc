"""load_image(), save_image(), apply_color_map() with files written and read independently"""
import os, struct, tempfile, zlib, shutil, numpy as np, mrcal
def png_write(f,pix,w,h,depth,ctype,nch,filt,palette=()):
    bits=depth*nch; bpp=max(1,bits//8); rows=[]; pix=list(pix); per=w*nch
    for y in range(h):
        v=pix[y*per:(y+1)*per]
        if depth==16: rows.append(b''.join(struct.pack('>H',x) for x in v))
        elif depth==8: rows.append(bytes(v))
        else:
            s=''.join(format(x,'0%db'%depth) for x in v); s+='0'*(-len(s)%8)
            rows.append(bytes(int(s[i:i+8],2) for i in range(0,len(s),8)))
    raw=b''; prev=bytes(len(rows[0]))
    for y,r in enumerate(rows):
        t=filt if filt<5 else y%5
        raw+=bytes([t])+bytes((r[i]-pred(t,r,prev,i,bpp))&255 for i in range(len(r))); prev=r
    def chunk(t,d): return struct.pack('>I',len(d))+t+d+struct.pack('>I',zlib.crc32(t+d))
    z=zlib.compress(raw)
    return b'\x89PNG\r\n\x1a\n'+chunk(b'IHDR',struct.pack('>IIBBBBB',w,h,depth,ctype,0,0,0))+(chunk(b'PLTE',bytes(palette)) if len(palette) else b'')+chunk(b'IDAT',z[:len(z)//2])+chunk(b'IDAT',z[len(z)//2:])+chunk(b'IEND',b'')
def pred(t,r,prev,i,bpp):
    a=r[i-bpp] if i>=bpp else 0; b=prev[i]; c=prev[i-bpp] if i>=bpp else 0
    if t==0: return 0
    if t==1: return a
    if t==2: return b
    if t==3: return (a+b)//2
    p=a+b-c; pa,pb,pc=abs(p-a),abs(p-b),abs(p-c)
    return a if pa<=pb and pa<=pc else b if pb<=pc else c
def png_read(b):
    assert b[:8]==b'\x89PNG\r\n\x1a\n'
    i=8; z=b''
    while i<len(b):
        n=struct.unpack('>I',b[i:i+4])[0]; t=b[i+4:i+8]; d=b[i+8:i+8+n]; i+=12+n
        if t==b'IHDR': w,h,depth,ctype,_,_,inter=struct.unpack('>IIBBBBB',d)
        if t==b'IDAT': z+=d
    nch={0:1,2:3,4:2,6:4}[ctype]; assert inter==0 and depth in(8,16)
    raw=zlib.decompress(z); bpp=nch*depth//8; n=w*bpp; prev=bytes(n); out=[]
    assert len(raw)==h*(n+1)
    for y in range(h):
        t=raw[y*(n+1)]; r=bytearray(raw[y*(n+1)+1:(y+1)*(n+1)])
        for k in range(n): r[k]=(r[k]+pred(t,r,prev,k,bpp))&255
        prev=bytes(r); out+=list(prev) if depth==8 else [prev[k]*256+prev[k+1] for k in range(0,n,2)]
    return dict(fmt='png',w=w,h=h,depth=depth,channels=nch,pix=out)
def pnm_read(b):
    tok=[]; i=0
    while len(tok)<4:
        while b[i:i+1].isspace(): i+=1
        if b[i:i+1]==b'#':
            while b[i:i+1]!=b'\n': i+=1
            continue
        j=i
        while not b[j:j+1].isspace(): j+=1
        tok.append(b[i:j]); i=j
    i+=1; fmt=tok[0].decode(); w,h,top=map(int,tok[1:]); nch={'P5':1,'P6':3}[fmt]; d=b[i:]
    depth=16 if top==65535 else 8 if top==255 else -1
    if len(d)!=w*h*nch*depth//8: return dict(fmt=fmt+' of the wrong length',w=w,h=h,depth=depth,channels=nch,pix=[])
    pix=list(d) if depth==8 else [d[k]*256+d[k+1] for k in range(0,len(d),2)]
    return dict(fmt=fmt,w=w,h=h,depth=depth,channels=nch,pix=pix)
def jpg_read(name,b):
    import cv2
    i=2
    while True:
        assert b[i]==0xff
        m=b[i+1]; n=struct.unpack('>H',b[i+2:i+4])[0]
        if 0xc0<=m<=0xcf and m not in(0xc4,0xc8,0xcc): break
        i+=2+n
    depth,h,w,nch=struct.unpack('>BHHB',b[i+4:i+10])
    im=cv2.imdecode(np.frombuffer(b,np.uint8),cv2.IMREAD_UNCHANGED)
    if im.ndim==3: im=im[...,::-1]
    return dict(fmt='jpg',w=w,h=h,depth=depth,channels=nch,pix=im.ravel().tolist())
def lay(a,layout,pad):
    """the same numbers, elsewhere in memory"""
    h,w=a.shape[:2]; junk=99
    if layout in('dense',): return a
    if layout=='padded':
        p=pad*(2 if a.dtype==np.uint16 else 1); n=w*int(np.prod(a.shape[2:],dtype=int))*a.itemsize
        if a.itemsize>2: p=a.itemsize*pad
        buf=np.full(h*(n+p)+8,junk,np.uint8); st=(n+p,)+a.strides[1:]
        v=np.ndarray(a.shape,a.dtype,buf,0,(n+p,int(np.prod(a.shape[2:],dtype=int))*a.itemsize)+((a.itemsize,) if a.ndim>2 else ()))
        v[...]=a; return v
    if layout=='reversed': return np.ascontiguousarray(a[::-1])[::-1]
    if layout=='repeated': return np.broadcast_to(a[:1].copy(),a.shape) if h else a
    if layout=='everyother':
        b=np.full((2*h,)+a.shape[1:],junk,a.dtype); b[::2]=a; return b[::2]
    if layout=='inside':
        b=np.full((h+2,w+2)+a.shape[2:],junk,a.dtype); b[1:-1,1:-1]=a; return b[1:-1,1:-1]
    b=np.full((h,2*w)+a.shape[2:],junk,a.dtype); b[:,::2]=a; return b[:,::2]
def array(c):
    h,w=c['h'],c['w']; wh=c['what']
    if wh in('u8','u16'): return np.array(c['pix'],np.uint16).astype(np.uint8 if wh=='u8' else np.uint16).reshape(h,w)
    if wh=='bgr': return np.array(c['pix'],np.uint8).reshape(h,w,3)
    z=lambda *s,t=np.uint8: np.zeros(s,t)
    return dict(i32=z(h,w,t=np.int32),f64=z(h,w,t=float),u8x4=z(h,w,4),u8x1=z(h,w,1),u16x3=z(h,w,3,t=np.uint16),list=[[1,2],[3,4]],u8x1d=z(w),
                bool=z(h,w,t=bool),i8=z(h,w,t=np.int8),bgrcolumns=z(h,w,3)[...,::-1])[wh]
def what(im):
    if im.dtype==np.uint8 and im.ndim==2: return 'u8'
    if im.dtype==np.uint16 and im.ndim==2: return 'u16'
    return 'bgr' if im.dtype==np.uint8 and im.ndim==3 and im.shape[2]==3 else 'other'
def swapped(pix): return [(x&255)*256+(x>>8) for x in pix]
def save(c):
    name=('' if c['short'] else 'a')+c['suffix']
    if c['dir']=='missing': name='nodir/'+name
    elif c['before']: open(name,'wb').write(b'something else')
    a=array(c)
    if c['what'] in('u8','u16','bgr'): a=lay(a,c['layout'],c['pad'])
    was=np.array(a)
    o=dict(ok=1)
    try: mrcal.save_image(name,a)
    except Exception as e: o=dict(ok=0,msg=str(e)[:100])
    o['pure']=int(np.array_equal(np.array(a),was))
    if not o['ok']:
        o['kept']=int(c['dir']!='missing' and c['before']==1 and os.path.exists(name) and open(name,'rb').read()==b'something else')
        return o
    b=open(name,'rb').read()
    try: o['file']=png_read(b) if b[:4]==b'\x89PNG' else jpg_read(name,b) if b[:2]==b'\xff\xd8' else pnm_read(b)
    except Exception as e: o['file']=dict(fmt='unreadable '+str(e)[:60],w=0,h=0,depth=0,channels=0,pix=[])
    if c['what']=='u16': o['swapped']=int(o['file']['pix']==swapped(c['pix']))
    try:
        im=mrcal.load_image(name); o['back']=dict(what=what(im),w=im.shape[1],h=im.shape[0],pix=im.ravel().tolist())
    except Exception as e: o['loadfail']=str(e)[:100]
    return o
def load(c):
    t=c['type']; w,h=c['w'],c['h']; name='a.'+('png' if c['container']=='png' else 'pgm' if t!='rgb8' else 'ppm')
    if c['container']=='png':
        depth={'gray1':1,'gray2':2,'gray4':4,'gray16':16,'rgb16':16}.get(t,8)
        ctype=3 if t=='palette' else {'g':0,'r':2}[t[0]] if t in('gray1','gray2','gray4','gray8','gray16','rgb8','rgb16') else {'graya8':4,'rgba8':6}[t]
        nch={0:1,2:3,3:1,4:2,6:4}[ctype]
        b=png_write(name,c['pix'],w,h,depth,ctype,nch,c['filter'],c['palette'])
    else:
        b=b'P%d\n'%(6 if t=='rgb8' else 5)+(b'# made by hand\n' if c['comment'] else b'')+b'%d %d\n%d\n'%(w,h,65535 if t=='gray16' else 255)
        b+=b''.join(struct.pack('>H',x) for x in c['pix']) if t=='gray16' else bytes(c['pix'])
    k=c['broken']
    if k=='empty': b=b''
    if k=='garbage': b=bytes(range(40,140))
    if k=='truncated': b=b[:b.index(b'IDAT')+6]
    if k=='directory': os.mkdir(name)
    elif k!='missing': open(name,'wb').write(b)
    r=c['req']
    kw=dict(bits_per_pixel=r[0],channels=r[1])
    a=()
    if c['how']==1: a=tuple(r); kw={}
    if c['how']==2 and r==[0,0]: kw={}
    try: im=mrcal.load_image(name,*a,**kw)
    except Exception as e: return dict(ok=0,msg=str(e)[:100])
    o=dict(ok=1,what=what(im),w=im.shape[1],h=im.shape[0],pix=im.ravel().tolist(),swapped=0)
    if t=='gray16' and c['container']=='pnm':
        s=np.array(swapped(c['pix']),float)
        if o['what']=='u8' and s.max()>s.min(): s=np.floor(.5+(s-s.min())*255/(s.max()-s.min()))
        elif o['what']=='u8': s[:]=o['pix'][0]
        o['swapped']=int(np.max(np.abs(s-np.array(o['pix'])))<=1)
    return o
WIDE=dict(int8=(-100,8),uint8=(20,8),int16=(-27000,2200),uint16=(6000,2200),int32=(-1800000000,140000000),uint32=(400000000,140000000),int64=(-12<<59,1<<59),uint64=(2<<59,1<<59),float32=(-1e30,1e29),float64=(-1e300,1e299))
def cmap(c):
    d=np.dtype(c['dtype']); flt=d.kind=='f'
    if c['range']=='full':
        i=(-3.4e38,3.4e38) if flt else (int(np.iinfo(d).min),int(np.iinfo(d).max))
        at=lambda k: i[0]+k*(i[1]-i[0])/24 if flt else i[0]+k*(i[1]-i[0])//24
    elif c['range']=='wide': at=lambda k: WIDE[c['dtype']][0]+k*WIDE[c['dtype']][1]
    else: at=lambda k: (c['base']+k*c['step'])*(.25 if flt else 1)
    a=np.array([at(k) for k in c['k']],dtype=d).reshape(c['h'],c['w'])
    one=c['shape'] in('0','1')
    a=a[:,np.arange(c['w']).repeat(2)][:,::2] if c['rowapart'] else a if one else lay(a,c['layout'],c['pad'])
    kw={}
    if c['lo']=='given': kw['a_min']=at(0)
    if c['hi']=='given': kw['a_max']=at(24)
    if not c['defaults']: kw.update(zip(('function_red','function_green','function_blue'),c['formulae']))
    x=a
    if c['shape']=='1': x=a[0]
    if c['shape']=='0': x=np.array(a[0,0])
    if c['shape']=='3': x=np.stack((a,a[::-1]))
    was=x.copy(); shape=x.shape+(3,); out=None; around=1; pads=[]
    if c['out']!='none':
        z=np.full(shape,7,np.uint8)
        if c['out']=='dense' or len(shape)<3: out=z
        elif c['out']=='reversed': out=z[...,::-1,:,:]
        else:
            n=shape[-2]*3+c['pad']; buf=np.full(shape[:-2]+(n,),77,np.uint8)
            out=np.ndarray(shape,np.uint8,buf,0,tuple(buf.strides[:-1])+(3,1)); pads=[buf]
        kw['out']=out
    try: r=mrcal.apply_color_map(x,**kw)
    except Exception as e: return dict(ok=0,msg=str(e)[:100])
    o=dict(ok=1,pure=int(np.array_equal(x,was)),shapeok=int(r.shape==shape and r.dtype==np.uint8),outok=int(out is None or np.array_equal(r,out)),
           around=int(all(np.all(b[...,-c['pad']:]==77) for b in pads)))
    if o['shapeok'] and c['shape']=='3':
        if not np.array_equal(r[0],r[1][::-1]): o['shapeok']=0
        r=r[0]
    # arrays below 2 dimensions
    o['lead1']=int(r.dtype==np.uint8 and r.shape==(1,)*(2-len(x.shape))+shape)
    o['pix']=r.ravel().tolist()
    return o
def run(case):
    c=case['c']
    tmp=tempfile.mkdtemp(prefix='vimg-'); cwd=os.getcwd(); os.chdir(tmp)
    try: return dict(save=save,load=load,map=cmap)[c['kind']](c)
    finally: os.chdir(cwd); shutil.rmtree(tmp,ignore_errors=True)
