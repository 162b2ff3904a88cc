import vlib
def main(ctx):
    e={'CMODEL':vlib.cprog(ctx,'cmodel')}
    vlib.standard(ctx,'MCLens','lens','LensTrace',dict(Stride=3 if ctx.quick else 1,Seed=ctx.seed,Muts=2),cap=7000 if ctx.quick else 40000,env=e,
      rule='distinct lens-model names, well-formed and with mistakes, generated by TLC from the grammar')
