import vlib
def main(ctx):
    t=ctx.mc('MCProjection',vlib.consts(Stride=1 if ctx.quick else 3,Seed=ctx.seed,Deep=not ctx.quick)+"INIT Init\nNEXT Next\nINVARIANTS Laws Export\nCHECK_DEADLOCK FALSE\n",timeout=1500)
    cases=t.cases; ctx.rng.shuffle(cases); cases=cases[:20000]
    obs=vlib.run_driver(ctx,'projection',cases)
    recs=[dict(c=c,o=o) for c,o in zip(cases,obs) if not o.get('skipped')]
    ctx.evals=len(recs); ctx.nontrivial=len({str(r['c']) for r in recs}); ctx.sample(*recs[:4])
    ctx.rule='distinct (camera, direction) pairs enumerated by TLC'
    for i,cl,_ in vlib.validate(ctx,'ProjectionTrace',recs):
        for x in cl: ctx.violation(x,recs[i]['c'],recs[i]['o'])
