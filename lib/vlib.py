"""Shared machinery of the checks: build /repo's working tree, run TLC, run drivers
against the freshly built code, and report verdicts/evidence."""
import os, sys, json, hashlib, subprocess, shutil, time, fcntl, re, random, tempfile, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
SPEC  = os.path.join(VERIF, 'spec')
NCPU  = os.cpu_count() or 1
PY    = '/usr/bin/python3'
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class Machinery(Exception):
    pass
class Unevaluable(Machinery):
    pass

# ------------------------------------------------------------------ build
_SKIP_EXT = ('.o', '.d', '.so', '.a', '.pyc', '.tmp')
def _files():
    try:
        out = subprocess.run(['git','-c','safe.directory=*','-C',REPO,'ls-files','-co','--exclude-standard','-z'],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
        fl = [f for f in out.decode().split('\0') if f]
    except Exception:
        fl = []
    if not fl:
        for d,dirs,fs in os.walk(REPO):
            dirs[:] = [x for x in dirs if x not in ('.git','__pycache__')]
            for f in fs:
                if f.endswith(_SKIP_EXT) or '.so.' in f or 'GENERATED' in f: continue
                fl.append(os.path.relpath(os.path.join(d,f),REPO))
    return sorted(set(f for f in fl if os.path.lexists(os.path.join(REPO,f)) and not os.path.isdir(os.path.join(REPO,f))))

def build():
    """Build a copy of /repo's current working tree. Returns its directory."""
    fl = _files()
    h = hashlib.sha256()
    for f in fl:
        p = os.path.join(REPO,f)
        h.update(f.encode()+b'\0')
        if os.path.islink(p): h.update(b'L'+os.readlink(p).encode())
        else:
            h.update(b'X' if os.access(p,os.X_OK) else b'F')
            with open(p,'rb') as fp: h.update(hashlib.sha256(fp.read()).digest())
    key = h.hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, key)
    with open(os.path.join(BUILD,'lock'),'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d,'.done')):
            os.utime(d)
            return d
        if os.path.isdir(d): shutil.rmtree(d)
        # drop old builds
        old = sorted((x for x in os.listdir(BUILD) if re.fullmatch('[0-9a-f]{24}',x)),
                     key=lambda x: os.path.getmtime(os.path.join(BUILD,x)))
        for x in old[:-3]: shutil.rmtree(os.path.join(BUILD,x), ignore_errors=True)
        for f in fl:
            src,dst = os.path.join(REPO,f), os.path.join(d,f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if os.path.islink(src): os.symlink(os.readlink(src), dst)
            else: shutil.copy2(src, dst)
        env = dict(os.environ, CPATH='/usr/include/suitesparse', LC_ALL='C.UTF-8',
                   PATH='/usr/bin:/bin:/usr/sbin:/sbin', PYTHONDONTWRITEBYTECODE='1')
        for v in ('MAKEFLAGS','MFLAGS','CFLAGS','LDFLAGS'): env.pop(v,None)
        env.setdefault('HOME','/root')
        r = subprocess.run(['make','-j%d'%NCPU,'NM=nm'], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode(errors='replace')[-4000:])
            raise Machinery('building the working tree failed')
        open(os.path.join(d,'.done'),'w').close()
    return d

def cprog(ctx, name):
    """Compile drivers/<name>.c against the fresh build. Returns the executable."""
    d=os.path.join(ctx.builddir,'vcprog'); os.makedirs(d,exist_ok=True)
    src=os.path.join(VERIF,'drivers',name+'.c'); exe=os.path.join(d,name+'-'+hashlib.sha256(open(src,'rb').read()).hexdigest()[:12])
    if not os.path.exists(exe):
        tmp=exe+'.%d'%os.getpid()
        r=subprocess.run(['gcc','-O1','-g','-Wall','-Wno-missing-braces','-I',ctx.builddir,'-I/usr/include/suitesparse','-o',tmp,src,'-L',ctx.builddir,'-lmrcal','-Wl,-rpath,'+ctx.builddir,'-lm'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if r.returncode: raise Machinery('cannot compile %s: %s'%(name,r.stdout.decode(errors='replace')[-3000:]))
        os.rename(tmp,exe)
    return exe

# ------------------------------------------------------------------ TLC
class TLC:
    def __init__(self): self.raw=''; self.cases=[]; self.bad=[]; self.states=0; self.distinct=0; self.depth=0; self.ok=False; self.coverage={}

def tlc(module, cfg, env=None, workers=None, extra=(), timeout=840, heap='6g', workdir=None, expect_violation=False):
    """Run TLC. cfg is the text of the .cfg file. Lines printed by the spec as
    'CASE <json>' / 'BAD <json>' / 'NOTE <json>' are collected."""
    own = workdir is None
    if own: workdir = tempfile.mkdtemp(prefix='vtlc-')
    try:
        cfgf = os.path.join(workdir, module+'.cfg')
        with open(cfgf,'w') as f: f.write(cfg)
        e = dict(os.environ); e.update(env or {})
        cmd = ['java','-XX:+UseParallelGC','-Xmx'+heap,'-Xss64m','-DTLA-Library='+SPEC,'-cp',TLAJARS,'tlc2.TLC',
               '-workers',str(workers or NCPU),'-metadir',os.path.join(workdir,'meta'),
               '-noGenerateSpecTE','-config',cfgf,*extra, os.path.join(SPEC,module+'.tla')]
        r = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = r.stdout.decode(errors='replace')
    finally:
        if own: shutil.rmtree(workdir, ignore_errors=True)
    t = TLC(); t.raw = out
    rest=[]
    for line in out.split('\n'):
        if line.startswith('"CASE '): t.cases.append(json.loads(json.loads(line)[5:]))
        elif line.startswith('"BAD '): t.bad.append(json.loads(json.loads(line)[4:]))
        else: rest.append(line)
    t.rest='\n'.join(rest)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', t.rest)
    if m: t.states,t.distinct = int(m[1]),int(m[2])
    m = re.search(r'(?:The number of states generated: |Progress: )(\d+)', t.rest)
    if m and not t.states: t.states=t.distinct=int(m[1])
    m = re.search(r'depth of the complete state graph search is (\d+)', t.rest)
    if m: t.depth=int(m[1])
    t.rc = r.returncode
    t.ok = (r.returncode == 0)
    if not t.ok and not expect_violation:
        i = t.rest.find('Error:')
        static='arsing or semantic analysis failed' in t.rest or '*** Errors' in t.rest
        if module.endswith('Trace') and not static and r.returncode in (75,76,12): raise Unevaluable('TLC cannot evaluate %s: %s'%(module,t.rest[i:i+1500]))
        sys.stderr.write((t.rest[-3000:] if static else t.rest[i if i>=0 else -6000:][:6000])+'\n')
        raise Machinery('TLC failed on %s (rc=%d)'%(module,r.returncode))
    return t

def consts(**kw):
    def v(x):
        if isinstance(x,bool): return 'TRUE' if x else 'FALSE'
        if isinstance(x,str): return x
        if isinstance(x,(set,frozenset,list,tuple)): return '{'+','.join(v(y) for y in x)+'}'
        return str(x)
    return 'CONSTANTS\n'+''.join('  %s = %s\n'%(k,v(x)) for k,x in kw.items())

def tstr(s): return '"%s"'%s

# ------------------------------------------------------------------ drivers
def run_driver(ctx, driver, cases, nproc=None, timeout=600, env=None, max_crashes=8, percase=60):
    """Run drivers/<driver>.py:run(case) for every case, against the fresh build, in
    nproc processes. A case whose process dies is reported as {'crash': signal}."""
    if not cases: return []
    bd = ctx.builddir
    nproc = min(nproc or NCPU, len(cases))
    tmp = tempfile.mkdtemp(prefix='vdrv-')
    res = [None]*len(cases)
    try:
        e = dict(os.environ); e.update({'PYTHONPATH':bd+':'+os.path.join(VERIF,'lib'), 'PYTHONDONTWRITEBYTECODE':'1','OMP_NUM_THREADS':'1',
                  'OPENBLAS_NUM_THREADS':'1','MRCAL_BUILD':bd,'VERIF_DIR':VERIF,'PYTHONHASHSEED':'0','PYTHONWARNINGS':'ignore','LC_ALL':'C.UTF-8'})
        e.update(env or {})
        t0=time.time()
        chunks = [list(range(k,len(cases),nproc)) for k in range(nproc)]
        procs={}
        crashes=[0]
        def start(k, idx):
            inf,outf = os.path.join(tmp,'in%d'%k), os.path.join(tmp,'out%d'%k)
            with open(inf,'w') as f:
                for i in idx: f.write(json.dumps([i,cases[i]])+'\n')
            if os.path.exists(outf): os.remove(outf)
            sd=os.path.join(tmp,'w%d'%k)
            shutil.rmtree(sd,ignore_errors=True); os.makedirs(sd)
            p = subprocess.Popen([PY,os.path.join(VERIF,'lib','drvmain.py'),os.path.join(VERIF,'drivers',driver+'.py'),inf,outf,str(percase)],
                                 cwd=sd, env=dict(e,TMPDIR=sd), stdout=open(os.path.join(tmp,'log%d'%k),'wb'), stderr=subprocess.STDOUT, start_new_session=True)
            procs[k]=(p,idx)
        for k,idx in enumerate(chunks): start(k,idx)
        while procs:
            for k in list(procs):
                p,idx = procs[k]
                rc = p.poll()
                if rc is None:
                    outf=os.path.join(tmp,'out%d'%k)
                    try: age=time.time()-os.path.getmtime(outf)
                    except OSError: age=0
                    if age > percase*1.5+5:
                        os.killpg(p.pid, signal.SIGKILL); p.wait(); continue
                    if time.time()-t0 > timeout:
                        os.killpg(p.pid, signal.SIGKILL); p.wait()
                        raise Machinery('driver %s did not finish within %d s'%(driver,timeout))
                    continue
                outf=os.path.join(tmp,'out%d'%k)
                begun=None
                if os.path.exists(outf):
                    for line in open(outf):
                        try: a=json.loads(line)
                        except ValueError: continue
                        if a[0]=='b': begun=a[1]
                        else:
                            res[a[1]]=a[2]
                            if begun==a[1]: begun=None
                del procs[k]
                left=[i for i in idx if res[i] is None]
                if rc!=0 and begun is None and left==idx:
                    raise Machinery('driver %s could not start: %s'%(driver,open(os.path.join(tmp,'log%d'%k),errors='replace').read()[-3000:]))
                if left:
                    crashes[0]+=1
                    if begun is None: begun=left[0]
                    res[begun]={'crash': rc, 'log': open(os.path.join(tmp,'log%d'%k),errors='replace').read()[-600:]}
                    left=[i for i in left if i!=begun]
                    if crashes[0]>max_crashes:
                        for i in left: res[i]={'skipped':1}
                    elif left: start(k,left)
            time.sleep(0.02)
    finally:
        for p,_ in list(procs.values()) if 'procs' in dir() else []:
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
        shutil.rmtree(tmp, ignore_errors=True)
    return res

def validate(ctx, module, records, cfg_extra='', env=None, chunk=20000, **kw):
    """Code->spec: have TLC judge each record with the spec. The module reads the
    records from IOEnv.TRACE and prints BAD [i, clauses] for each rejected one."""
    bad=[]; odd=[0]
    def judge(o,part):
        fd,fn=tempfile.mkstemp(prefix='vtrace-',suffix='.ndjson'); os.close(fd)
        try:
            with open(fn,'w') as f:
                for r in part: f.write(json.dumps(r)+'\n')
            try: t=tlc(module, 'INIT TInit\nNEXT TNext\nINVARIANT TJudge\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TDone\n'+cfg_extra, env=dict(env or {},TRACE=fn), **kw)
            except Unevaluable:
                # an observation of a form that the specification has no value for. Isolate it
                if len(part)==1:
                    odd[0]+=1; bad.append((o,['observation_has_no_place_in_the_specification'],{})); return
                if odd[0]>=3: return
                h=len(part)//2
                judge(o,part[:h]); judge(o+h,part[h:]); return
        finally: os.remove(fn)
        ctx.tlc_states+=t.distinct; ctx.tlc_trans+=t.states
        if t.distinct < len(part): raise Machinery('%s judged %d of %d records'%(module,t.distinct,len(part)))
        for b in t.bad: bad.append((o+b['i']-1, b['clauses'], b))
    for o in range(0,len(records),chunk): judge(o,records[o:o+chunk])
    ctx.traces += len(records)
    bad.sort(key=lambda b:b[0])
    return bad

def standard(ctx, mc, driver, trace, mcconsts, cap=20000, rule=None, prepare=None, key=None, env=None, timeout=840, percase=60, nsample=3, sig=None):
    """Model-check <mc>, replay the cases it exports, have <trace> judge what was observed."""
    t=ctx.mc(mc,consts(**mcconsts)+"INIT Init\nNEXT Next\nINVARIANTS Laws Export\nCHECK_DEADLOCK FALSE\n",timeout=timeout)
    cases=[]; seen=set()
    for c in t.cases:
        k=json.dumps(c,sort_keys=True)
        if k not in seen: seen.add(k); cases.append((k,c))
    cases=[c for _,c in sorted(cases,key=lambda x:x[0])]
    ctx.rng.shuffle(cases); cases=cases[:cap]
    if prepare: cases=prepare(cases)
    obs=run_driver(ctx,driver,cases,env=env,timeout=timeout,percase=percase)
    ctx.log('%d cases observed'%len(cases))
    recs=[dict(c=c,o=o) for c,o in zip(cases,obs) if not o.get('skipped')]
    ctx.evals+=len(recs); ctx.nontrivial+=len({str(r['c']) for r in recs}); ctx.sample(*recs[:nsample])
    if rule: ctx.rule=rule
    for i,cl,_ in validate(ctx,trace,recs,timeout=timeout):
        for x in cl: ctx.violation(x,recs[i]['c'],recs[i]['o'],key(x,recs[i]['c'],recs[i]['o']) if key else None)
    return recs

# ------------------------------------------------------------------ check context
class Ctx:
    def __init__(self, prop, tier):
        self.prop=prop; self.tier=tier; self.quick = tier=='quick'
        self.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        self.rng=random.Random('%s/%d'%(prop,self.seed))
        self.t0=time.time()
        self.tlc_states=0; self.tlc_trans=0; self.traces=0
        self.samples=[]; self.evals=0; self.nontrivial=0
        self.violations=[]; self.known=[]
        self.notes=[]
        self._builddir=None
        self.findings=load_findings()
    @property
    def builddir(self):
        if self._builddir is None: self._builddir=build()
        return self._builddir
    def log(self,*a):
        print('[%s %5.1fs]'%(self.prop,time.time()-self.t0),*a); sys.stdout.flush()
    def mc(self, module, cfg, **kw):
        """Model-check the design; a violated invariant here is an error of the spec."""
        t=tlc(module,cfg,**kw)
        self.tlc_states+=t.distinct; self.tlc_trans+=t.states
        self.log('TLC %s: %d states, %d distinct, %d cases'%(module,t.states,t.distinct,len(t.cases)))
        return t
    def sample(self,*recs,n=6):
        for r in recs:
            if len(self.samples)<n: self.samples.append(r if len(json.dumps(r))<3000 else json.dumps(r)[:3000])
    def violation(self, clause, case, obs=None, key=None):
        """key: identifies the specific failing input, matched with known-findings.json"""
        for f in self.findings:
            if f['property']==self.prop and f.get('clause') in (None,clause) and key is not None and f['key']==key:
                self.known.append((f,clause)); return
        self.violations.append(dict(clause=clause, case=case, observed=obs, key=key))
    def finish(self):
        seen=set()
        for f,c in self.known:
            if f['key'] in seen: continue
            seen.add(f['key'])
            print('KNOWN-FINDING: property=%s %s'%(self.prop,f['what']))
        ev=dict(property=self.prop,tier=self.tier if self.tier in ('quick','thorough') else 'quick',seed=self.seed,level=LEVELS.get(self.prop,'model_checking'),
                coverage=dict(states=self.tlc_states,transitions=self.tlc_trans,
                              traces_validated_against_impl=self.traces,
                              distinct_nontrivial=self.nontrivial,
                              rule=self.rule if hasattr(self,'rule') else 'distinct cases whose observation is not an outright rejection',
                              samples=self.samples[:6]),
                violations=len(self.violations),
                wall_s=round(time.time()-self.t0,1))
        write_evidence(self.prop,ev)
        if self.violations:
            rd=os.path.join(VERIF,'evidence','replay'); os.makedirs(rd,exist_ok=True)
            fn=os.path.join(rd,'%s-%s-%d.json'%(self.prop,self.tier,self.seed))
            with open(fn,'w') as f: json.dump(self.violations[:50],f,indent=1)
            cnt={}
            for v in self.violations: cnt[v['clause']]=cnt.get(v['clause'],0)+1
            print('  clauses broken:',cnt)
            for v in self.violations[:4]:
                print('  clause %s: case %s observed %s'%(v['clause'],json.dumps(v['case'])[:260],json.dumps(v['observed'])[:260]))
            print('  (%d violating observations in total)'%len(self.violations))
            print('VIOLATION property=%s replay=%s'%(self.prop,fn))
            return 1
        print('OK property=%s tier=%s states=%d traces=%d evaluations=%d wall=%.1fs'%(self.prop,self.tier,self.tlc_states,self.traces,self.evals,time.time()-self.t0))
        return 0

def write_evidence(prop,ev):
    d=os.path.join(VERIF,'evidence'); os.makedirs(d,exist_ok=True)
    with open(os.path.join(d,prop+'.json'),'w') as f: json.dump(ev,f,indent=1)

def load_findings():
    try: return json.load(open(os.path.join(VERIF,'known-findings.json')))['findings']
    except FileNotFoundError: return []

try:
    LEVELS={c['property']:c['level'] for c in json.load(open(os.path.join(VERIF,'MANIFEST.json')))['checks']}
except Exception: LEVELS={}
