import vlib
def main(ctx):
    k=dict(MaxOps=2,MaxSize=60000) if ctx.quick else dict(MaxOps=3,MaxSize=60000)
    t=ctx.mc('MCPose',vlib.consts(Stride=97 if ctx.quick else 211,Seed=ctx.seed,**k)+"INIT Init\nNEXT Next\nINVARIANTS Laws Export\nCHECK_DEADLOCK FALSE\n")
    cases=t.cases; ctx.rng.shuffle(cases); cases=cases[:600 if ctx.quick else 6000]
    # all the behaviours of length <= 1 are always replayed
    obs=vlib.run_driver(ctx,'pose',cases)
    recs=[dict(c=c,o=o) for c,o in zip(cases,obs) if not o.get('skipped')]
    ctx.evals=len(recs); ctx.nontrivial=len({str(r['c']) for r in recs}); ctx.sample(*recs[:3])
    ctx.rule='distinct sequences of pose operations, each replayed in all pose representations'
    for i,cl,_ in vlib.validate(ctx,'PoseTrace',recs):
        for x in cl: ctx.violation(x,recs[i]['c'],recs[i]['o'])
