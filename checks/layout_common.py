import vlib, random
MODELS={'PINHOLE':('LENSMODEL_PINHOLE',0,[0,0,0]),'OPENCV4':('LENSMODEL_OPENCV4',4,[0,0,0]),'OPENCV5':('LENSMODEL_OPENCV5',5,[0,0,0]),
 'OPENCV8':('LENSMODEL_OPENCV8',8,[0,0,0]),'OPENCV12':('LENSMODEL_OPENCV12',12,[0,0,0]),'CAHVOR':('LENSMODEL_CAHVOR',5,[0,0,0]),
 'STEREOGRAPHIC':('LENSMODEL_STEREOGRAPHIC',0,[0,0,0]),'CAHVORE':('LENSMODEL_CAHVORE_linearity=0.37',8,[0,0,0]),
 'SPL3':('LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=120',60,[3,6,5]),
 'SPL2':('LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=5_Ny=4_fov_x_deg=120',40,[2,5,4])}
def mc(ctx, stride):
    if ctx.quick: k=dict(Models='{"PINHOLE","SPL2"}',MaxCam=2,MaxExt=1,MaxOb=2,MaxNp=1,MaxOp=1,MaxTri=1,Dims='{32}')
    else:         k=dict(Models='{"PINHOLE","OPENCV4","SPL2"}',MaxCam=2,MaxExt=2,MaxOb=2,MaxNp=2,MaxOp=2,MaxTri=1,Dims='{32}')
    t=ctx.mc('MCLayout',vlib.consts(Stride=stride,Seed=ctx.seed,**k)+
        "INIT Init\nNEXT Next\nCONSTRAINT ValidC\nINVARIANTS Inv Export\nPROPERTY LockProp\nVIEW View\nCHECK_DEADLOCK FALSE\n")
    seen=set(); out=[]
    for c in t.cases:
        s=repr(sorted(c.items(),key=str))
        if s not in seen: seen.add(s); out.append(c)
    out.sort(key=lambda c: repr(sorted(c.items(),key=str)))
    return out
def random_cases(ctx,n,big=1):
    """larger problems than the exhaustive exploration reaches, same record format"""
    R=ctx.rng; out=[]
    for _ in range(n):
        m,nd,sp=MODELS[R.choice(sorted(MODELS))]
        c=dict(model=m,ncore=4,nd=nd,sp=sp)
        c['ncam']=R.randint(1,4); c['next']=R.choice([0,max(0,c['ncam']-1),c['ncam'],R.randint(0,5)])
        for f in ('core','dist','ext','frames','warp','reg'): c[f]=int(R.random()<0.7)
        c['unity']=int(R.random()<0.4)
        c['W'],c['H']=R.choice([(2,2),(3,2),(2,3),(4,3)])
        cam=lambda: [R.randrange(c['ncam']),R.randrange(-1,c['next'])]
        c['nf']=R.choice([0,0,1,2,3,5]); c['ob']=[]
        for f in range(c['nf']):
            k=R.randint(1,c['ncam'])
            ces=sorted(R.randrange(-1,c['next']) for _ in range(k))
            for ci,ce in zip(sorted(R.choices(range(c['ncam']),k=k)),ces): c['ob'].append([f,ci,ce])
        c['np']=R.choice([0,0,1,2,4,6]); c['npf']=R.randint(0,c['np']) if R.random()<.6 else 0
        c['op']=[]
        for i in range(c['np']):
            for _ in range(R.randint(1,3)): c['op'].append([i]+cam())
        c['tri']=[]
        if c['next']>=1 and m!=MODELS['CAHVORE'][0] and R.random()<0.4:
            c.update(core=0,dist=0,ext=1)
            for _ in range(R.randint(1,4)):
                k=R.randint(2,min(4,c['next']+1))
                ces=R.sample(range(-1,c['next']),k)
                c['tri'].append([[R.randrange(c['ncam']),e] for e in ces])
        out.append(c)
    return out
def go(ctx, want, nq, nt, stride_q, stride_t, rq, rt):
    cases=mc(ctx, stride_q if ctx.quick else stride_t)
    ctx.rng.shuffle(cases)
    cases=cases[:nq if ctx.quick else nt]+random_cases(ctx, rq if ctx.quick else rt)
    if 'jac' in want:
        for c in cases:
            if ctx.rng.random()<.5:
                f=ctx.rng.choice([.1,.3,.6])
                c['out']=[[0,i,k] for i in range(len(c['ob'])) for k in range(c['W']*c['H']) if ctx.rng.random()<f]+[[1,i,0] for i in range(len(c['op'])) if ctx.rng.random()<f]
    obs=vlib.run_driver(ctx,'layout',[dict(c=c,want=want) for c in cases],timeout=700)
    recs=[]
    for c,o in zip(cases,obs):
        if o.get('skipped'): continue
        recs.append(dict(c=c,o=o))
        ctx.evals+=1; ctx.nontrivial+=int(bool(o.get('solvable')))
    ctx.rule='distinct problem descriptions, enumerated by TLC from MCLayout or drawn at random, that mrcal can evaluate (has state, has measurements)'
    ctx.sample(*recs[:2],*recs[-2:])
    ctx.log('observed %d problems'%len(recs))
    for i,clauses,_ in vlib.validate(ctx,'LayoutTrace',recs,env=dict(PROP=ctx.prop)):
        for cl in clauses: ctx.violation(cl,recs[i]['c'],recs[i]['o'])
