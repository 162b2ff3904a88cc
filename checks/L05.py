import vlib, json
def main(ctx):
    q=ctx.quick
    a=ctx.mc('MCSolve',vlib.consts(N=60 if q else 300,Depth=3 if q else 4,Stride=5 if q else 19,Seed=ctx.seed)+"INIT Init\nNEXT Next\nINVARIANTS Laws Export\nCHECK_DEADLOCK FALSE\n",timeout=840 if q else 3000)
    b=ctx.mc('MCSolveAny',vlib.consts(N=1500 if q else 12000,Seed=ctx.seed)+"INIT Init\nNEXT Next\nINVARIANTS Laws ExportAny\nCHECK_DEADLOCK FALSE\n")
    cases=[]
    for t,cap in ((a,2000 if q else 20000),(b,10000)):
        c=sorted(t.cases,key=lambda x:json.dumps(x,sort_keys=True)); ctx.rng.shuffle(c); cases+=c[:cap]
    obs=vlib.run_driver(ctx,'solve',cases,timeout=700 if q else 3400)
    recs=[dict(c=c,o=o) for c,o in zip(cases,obs) if not o.get('skipped')]
    f=[a.get('failed') for r in recs for a in r['o'].get('after',[])]
    ctx.log('%d histories observed: %d calls, %d not made because ill-posed, %d failed'%(len(recs),len(f),f.count('ill-posed'),len([x for x in f if x and x!='ill-posed'])))
    ctx.evals=len(recs); ctx.nontrivial=len({str(r['c']) for r in recs}); ctx.sample(*recs[:2],*recs[-1:])
    ctx.rule='distinct histories of optimizations'
    for i,cl,_ in vlib.validate(ctx,'SolveTrace',recs,timeout=700 if q else 3000):
        for x in cl: ctx.violation(x,recs[i]['c'],recs[i]['o'])
