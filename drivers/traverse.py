"""mrcal.traverse_sensor_links() and the python implementation of it."""
import numpy as np, mrcal
class Mine(Exception): pass
def run(c):
    return globals()['do_'+c.get('what','links')](c)
def array(m,lay):
    N=len(m)
    if lay=='f': return np.array(m,dtype=np.uint16,order='F')
    if lay=='strided':
        A=np.full((2*N,3*N),7,dtype=np.uint16); a=A[::2,::3]; a[:]=m; return a
    if lay=='offset':
        A=np.full((N+3,N+2),7,dtype=np.uint16); a=A[2:2+N,1:1+N]; a[:]=m; return a
    a=np.array(m,dtype=np.uint16).reshape(N,N)
    if lay=='readonly': a.setflags(write=False)
    return a
def do_links(r):
    m=r['m']; c=r['c']; N=len(m); calls=[]
    def cb(to,frm):
        calls.append([int(to),int(frm)])
        k=len(calls)-1
        if k>=c['k']:
            if c['cb']=='raise': raise Mine()
            if c['cb']=='false': return False
        return {'true':True,'zero':0,'object':'x','raise':True,'false':True}.get(c['cb'])
    a=array(m,c['lay']); b=a.copy(); f=c['fault']; mine=0; truth=0
    if   f=='dtype': a=a.astype(np.int32)
    elif f=='float': a=a.astype(float)
    elif f=='rect':  a=np.zeros((N,N+1),dtype=np.uint16); a[:,:N]=m
    elif f=='flat':  a=a.ravel()
    elif f=='cube':  a=a[None]
    elif f=='empty': a=np.zeros((0,0),dtype=np.uint16)
    b=a.copy()
    try:
        if c['impl']=='py':
            from mrcal.calibration import _traverse_sensor_links_python
            x=_traverse_sensor_links_python(Nsensors=N,callback__neighbors=lambda i:[j for j in range(N) if j!=i and m[i][j]],
                                            callback__cost_edge=lambda i,j:65536-m[i][j],callback__sensor_link=cb)
        elif f=='missing': x=mrcal.traverse_sensor_links(connectivity_matrix=a)
        elif f=='none':    x=mrcal.traverse_sensor_links(connectivity_matrix=None,callback_sensor_link=cb)
        else:              x=mrcal.traverse_sensor_links(connectivity_matrix=a,callback_sensor_link=3 if f=='notcallable' else cb)
        ok=1; truth=int(bool(x))
    except Mine: ok=0; mine=1
    except Exception: ok=0
    return dict(ok=ok,mine=mine,truth=truth,calls=calls,same=int(np.array_equal(a,b)))
