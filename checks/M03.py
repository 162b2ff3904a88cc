import vlib
def main(ctx):
    e={'CMODEL':vlib.cprog(ctx,'cmodel')}; q=ctx.quick
    vlib.standard(ctx,'MCModelFile','modelfile','ModelFileTrace',dict(Edits=2 if q else 3,Stride=11 if q else 101,Seed=ctx.seed),cap=4000 if q else 40000,env=e,
      rule='distinct file contents and layouts, each read by the python reader and by the C readers',timeout=840 if q else 3400)
