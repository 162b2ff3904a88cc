import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCSeeding','seeding','SeedingTrace',dict(N=3000 if q else 30000,Seed=ctx.seed),cap=3000 if q else 30000,timeout=800 if q else 3400,percase=40,
      rule='distinct rigs, sets of views, forms of the arguments')
