import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCUncertainty','uncertainty','UncertaintyTrace',dict(N=10000 if q else 80000,Seed=ctx.seed),cap=10000 if q else 80000,timeout=800 if q else 3400,percase=60,
      rule='distinct problems and questions that have a definite answer')
