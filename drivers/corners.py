"""Image names, corner files, and the tools that edit them."""
import copy
import numpy as np, mrcal
def run(c): return globals()['do_'+c['what']](c)
def do_names(c):
    f=c['files']; g=copy.deepcopy(f)
    try: m=mrcal.mapping_file_framenocameraindex(*g)
    except Exception as e: return dict(ok=0,m=[],same=int(f==g))
    return dict(ok=1,m=sorted([k,int(v[0]),int(v[1])] for k,v in m.items()),same=int(f==g))
import os, io, tempfile, shutil, stat
def tok(v): return {-1:'-1.5',-2:'-',-3:'abc'}.get(v) or ('%d'%(v//4) if v%4==0 else '%g'%(v/4))
def text(a):
    L=['# filename x y'+(' '+('weight' if a['kind']=='weight' else 'level') if a['wcol'] else '')]
    sep={0:' ',1:'  \t',2:' ',3:' '}[a['fmt']]
    for i,im in enumerate(a['imgs']):
        if a['fmt']==2: L+=['# '+im['name'],'  ## 1 2 3']
        for j,r in enumerate(im['rows']):
            L.append(('  ' if a['fmt']==1 else '')+sep.join([im['name']]+[tok(t) for t in r]))
            if a['fmt']==3 and j==1: L.append('# in the middle')
    return '\n'.join(L)+('' if a['fmt']==1 else '\n')
def q(x,n):
    v=x*n
    return int(round(v)) if abs(v)<1e8 and abs(v-round(v))<1e-9 else -999999
def do_corners(c):
    a=c['a']; T=os.path.realpath(tempfile.mkdtemp(prefix='vc-')); old=os.getcwd(); path=os.environ['PATH']
    try:
        W=os.path.join(T,'T'); os.makedirs(W+'/sub'); os.makedirs(W+'/else'); os.makedirs(W+'/bin'); os.chdir(W)
        txt=text(a)
        for im in a['imgs']:
            if im['b'] in a['exists'] and im['d']!='/data/':
                p=im['name']
                if os.path.dirname(p): os.makedirs(os.path.dirname(p),exist_ok=True)
                open(p,'w').close()
        src=a['src']; o=dict(cache='',again=0,ran=0)
        with open(W+'/bin/mrgingham','w') as f: f.write('#!/bin/sh\ntouch "%s/ran"\ncat "%s/det"\nexit %d\n'%(W,W,a['rc']))
        os.chmod(W+'/bin/mrgingham',0o755); os.environ['PATH']=W+'/bin:'+path
        f={'obj':io.StringIO(txt),'fobj':None,'cwd':'corners.vnl','sub':'sub/corners.vnl','abs':W+'/else/corners.vnl','nofile':'sub/none.vnl','dir':'sub','detect':'sub/corners.vnl'}[src]
        if src=='fobj':
            open(W+'/c','w').write(txt); f=open(W+'/c')
        elif src in ('cwd','sub','abs'): open(f,'w').write(txt)
        if src in ('detect','nofile'): open(W+'/det','w').write(txt)
        g=['*'.join(s) for s in a['globs']]
        kw=dict(W=a['W'],H=a['H'],globs_per_camera=g,corners_cache_vnl=f,exclude_images=set(a['excl']),weight_column_kind=None if a['kind']=='none' else a['kind'],jobs=-1 if src=='nofile' else a['jobs'])
        if a['min']>=0: kw['Npoint_observations_per_board_min']=a['min']
        if a['prefix']: kw['image_path_prefix']=a['prefix']
        if a['imgdir']: kw['image_directory']=a['imgdir']
        def call():
            r=mrcal.compute_chessboard_corners(**kw)
            ob,ix,pa=r
            n=len(pa)
            assert ob.shape==(n,a['H'],a['W'],3) and ix.shape==(n,2)
            return dict(ok=1,idx=[[int(x) for x in i] for i in ix],paths=[os.path.normpath(p).replace(T+'/T','/T') for p in pa],
                        obs=[[[0,0,-64] if p[2]==-1 else [q(p[0],4),q(p[1],4),q(p[2],64)] for p in b.reshape(-1,3)] for b in ob])
        import contextlib
        with contextlib.redirect_stderr(io.StringIO()):
            try: o.update(call())
            except AssertionError: o.update(ok=1,idx=[],paths=[],obs=[])
            except Exception as e: o.update(ok=0,idx=[],paths=[],obs=[])
            o['ran']=int(os.path.exists('ran'))
            if src=='detect':
                o['cache']='none' if not os.path.exists(f) else 'same' if open(f).read()==txt else 'different'
                if o['ok']:
                    with open(W+'/bin/mrgingham','w') as fd: fd.write('#!/bin/sh\nexit 1\n')
                    try: r=call(); o['again']=int(all(r[k]==o[k] for k in ('ok','idx','paths','obs')))
                    except Exception: pass
        return o
    finally:
        os.chdir(old); os.environ['PATH']=path; shutil.rmtree(T,ignore_errors=True)
import sys, runpy, subprocess, contextlib
def untok(s):
    if s=='-': return -2
    v=float(s)
    return -1 if v==-1.5 else q(v,4)
def do_tools(c):
    a=c['a']; B=os.environ['MRCAL_BUILD']
    leg={0:'# filename x y level',1:'# filename x y',2:'# filename x y weight'}[a['legend']]
    txt='## a comment\n'+leg+'\n'+''.join(''.join(' '.join([im['name']]+[tok(t) for t in r])+'\n' for r in im['rows']) for im in a['imgs'])
    num=lambda v: '%g'%(v/4)
    if a['tool']=='rotate':
        cmd=['bash',B+'/mrcal-rotate-corners','--gridn',str(a['n'])]
        for k in ('r90','r180','r270'):
            for r in a[k]: cmd+=['--'+k[1:],r]
        p=subprocess.run(cmd,input=txt.encode(),stdout=subprocess.PIPE,stderr=subprocess.DEVNULL)
        rc=p.returncode; out=p.stdout.decode()
    else:
        argv=['mrcal-cull-corners']
        if a['mode'] in ('left','two'): argv+=['--cull-left-of',num(a['v'])]
        if a['mode']=='rad': argv+=['--cull-rad-off-center='+num(a['v'])]
        if a['mode'] in ('board','two'): argv+=['--cull-rad-off-center-board',num(a['v'])]
        if a['mode']=='random': argv+=['--cull-random-observations-ratio',num(a['v'])]
        if a['W']: argv+=['--object-width-n',str(a['W'])]
        if a['H']: argv+=['--object-height-n',str(a['H'])]
        if a['where']: argv+=['--where']+[' '+num(x) for x in a['where']]
        if a['size']: argv+=['--imagersize']+[str(x) for x in a['size']]
        for r in a['re']: argv+=['--filename',r]
        old=sys.argv,sys.stdin; so=io.StringIO(); rc=0
        sys.argv=argv; sys.stdin=io.StringIO(txt)
        try:
            with contextlib.redirect_stdout(so),contextlib.redirect_stderr(io.StringIO()):
                try: runpy.run_path(B+'/mrcal-cull-corners',run_name='__main__')
                except SystemExit as e: rc=e.code if isinstance(e.code,int) else 0 if e.code is None else 1
                except Exception as e: rc=99
        finally: sys.argv,sys.stdin=old
        out=so.getvalue()
    o=dict(rc=rc,legend=0,out=[])
    if rc: return o
    for l in out.split('\n'):
        if l=='# filename x y level': o['legend']=1
        if not l.strip() or l.lstrip()[0]=='#': continue
        f=l.split()
        if not o['out'] or o['out'][-1]['name']!=f[0]: o['out'].append(dict(name=f[0],rows=[]))
        row=[untok(t) for t in f[1:]]
        if a['tool']=='random' and row[2]==-2: row=[0,0,-2]
        o['out'][-1]['rows'].append(row)
    return o
