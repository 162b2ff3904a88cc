"""Writes the files of MCModelFile, and reads them with the python reader and the C readers"""
import os, io, json, subprocess, numpy as np, mrcal, warnings
import model as M
from lens import crun
warnings.simplefilter('ignore')
POSE={0:M.RT[0],1:M.RT[1],2:M.RT[2],3:M.RT[3]}
POSE[5]=POSE[1]+1e-12; POSE[6]=POSE[1]+1e-6
def num(x,exp):
    if isinstance(x,str): return x
    s='%.15g'%x
    if exp and x!=0: s='%.15e'%x
    return s
_opt={}
def optbytes(o):
    if o not in _opt:
        from mrcal.cameramodel import _serialize_optimization_inputs
        _opt[o]=_serialize_optimization_inputs(M.opt(o))
    return repr(_opt[o])
def lst(v,lay,i=False):
    exp=lay=='exponents' and not i
    b='()' if lay=='parens' else '[]'
    return b[0]+', '.join(num(x,exp) for x in v)+(',' if lay in ('nocomma','parens') or len(v)==1 else '')+b[1]
def val(e,lay):
    k,v=e['k'],e['v']; q='"' if lay=='doublequotes' else "'"
    if k in('lensmodel','distortion_model','lens_model'):
        return q+{6:'LENSMODEL_OPENCV44',7:'DISTORTION_OPENCV4'}.get(v,M.LENS[v][0] if v<6 else '')+q
    if k in('intrinsics','Intrinsics'):
        if v<10: return '[%d]'%v
        x=list(M.LENS[v//10][1]) if v<60 else list(M.LENS[2][1])+[1,2]; w=v%10
        if w==2: x=x[:-1]
        if w==3: x=x+[1.]
        if w==4: x[1]="'x'"
        if w==5 and k=='intrinsics': x[1]='nan'
        return lst(x,lay)
    if k in('rt_cam_ref','extrinsics'):
        if v==7: return lst(POSE[1][:5],lay)
        if v==8: return lst([0,1,"'x'",1,1,1],lay)
        return lst(POSE[v],lay)
    if k=='imagersize':
        return lst({1:(1024,768),2:(640,480),3:(640,),4:(0,480),5:(640,0),6:(-640,480),7:(640.5,480),8:(640,480,3)}[v],lay,True)
    if k=='valid_intrinsics_region':
        return '['+', '.join(lst(r,lay) for r in M.REGOBS[v])+']'
    if k=='optimization_inputs': return optbytes(v) if v<3 else "'abc'"
    if k.startswith('icam'): return str(v) if v!=9 else '1.5'
    return ['0.5','3','-1.5e-3',"'string with } and ] # inside'",'[]','[[1,2],[3,[4.5]],]',"b'bytes'",'0','"x"'][v]
def text(c):
    lay=c['lay']; q='"' if lay=='doublequotes' else "'"
    if lay=='empty': return ''
    items=[q+e['k']+q+(' : ' if lay=='parens' else ':')+val(e,lay) for e in c['es']]
    if lay=='noclosebracket': items[-1]=items[-1][:-1]
    if lay=='oneline': return '{'+','.join(items)+',}'
    if lay=='comments': return '# a comment {\n#another: [\n{ # here\n'+''.join('   # before "\n'+i+' # after ]\n # and\n ,#x\n' for i in items)+'# end\n}\n# behind }\n'
    if lay=='crlf': return '{\r\n'+',\r\n'.join(items)+'\r\n}\r\n'
    s='{\n'+(',\n' if lay!='missingcomma' else '\n').join(items)+('\n' if lay=='nocomma' else ',\n')+'}\n'
    if lay=='missingcomma': s='{\n'+'\n'.join(items)+'\n}\n'
    if lay=='noclose': s=s.rstrip()[:-1]
    if lay=='noopen': s=s[1:]
    if lay=='garbage': s=s+'x\n'
    if lay in('page','page2'):
        n=len(s)+2; P=4096
        m=(n+P-1)//P*P
        pad='#'*(m-n+1)+'\n'
        s=pad+s if lay=='page2' else s+pad
        assert len(s)%P==0
    return s
def pyread(f):
    try: m=mrcal.cameramodel(f)
    except Exception: return dict(ok=False)
    x=M.observe(m)[0]
    return dict(ok=True,lens=x['lens'],pose=x['pose'][0] if len(set(x['pose']))==1 else -7,size=x['size'],reg=x['reg'],opt=x['opt'],ii=x['ii'],ie=x['ie'])
def creadout(d):
    if not d['ok']: return dict(ok=False)
    i=np.array(d['intrinsics'])
    lens=next((k for k in range(1,6) if len(M.LENS[k][1])==len(i) and M.LENS[k][0]==d['name'] and np.allclose(M.LENS[k][1],i,rtol=3e-10,atol=0)),-7)
    rt=np.array(d['rt'])
    pose=next((k for k in range(4) if np.max(np.abs(rt-M.RT[k]))<(2e-6 if k==1 else 1e-9)),-7)
    return dict(ok=True,lens=lens,pose=pose,size={(1024,768):1,(640,480):2}.get(tuple(d['imagersize']),-7))
def run(c):
    s=text(c); fn='m.cameramodel'
    with open(fn,'w',newline='') as f: f.write(s)
    # the python reader's poses are compared loosely: pose 6 is 1e-6 off
    old=M.FORMS; M.FORMS={k:[M.form(k,i) for i in range(4)] for k in M.KINDS}
    o={}; o['py']=pyread(fn)
    if o['py']['ok'] and o['py']['pose']==-7:
        rt=mrcal.cameramodel(fn).rt_cam_ref()
        if np.max(np.abs(rt-M.RT[1]))<2e-6: o['py']['pose']=1
    a=pyread(open(fn)); o['pyfile']=int(a==o['py'] or (a.get('pose')==-7 and dict(a,pose=1)==o['py']))
    C={}
    for m,k in(('read','file'),('strz','strz'),('strn','strn')): C[k]=creadout(crun(m,fn)[0])
    # a buffer that is too small; then one of the size asked for
    z=crun('into',fn,'3')[0]; guard=z['guard']; C['need']=z['N'] if not z['ok'] else -1
    y=crun('into',fn,str(max(z['N'],4)))[0]; guard&=y['guard']; C['into']=creadout(y)
    C['guard']=guard
    if C['file']['ok']:
        w=crun('write',fn,'w.cameramodel')[0]
        C['again']=creadout(crun('read','w.cameramodel')[0]) if w['written'] else dict(ok=False)
        o['pyagain']=pyread('w.cameramodel')
        if o['pyagain']['ok'] and o['pyagain']['pose']==-7 and np.max(np.abs(mrcal.cameramodel('w.cameramodel').rt_cam_ref()-M.RT[1]))<2e-6: o['pyagain']['pose']=1
    o['c']=C
    return o
