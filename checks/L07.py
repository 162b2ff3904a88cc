import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCRegularization','regularization','RegularizationTrace',dict(N=5000 if q else 15000,Seed=ctx.seed),cap=5000 if q else 15000,timeout=800 if q else 3400,percase=40,
      rule='distinct problems (lens, parameters, cameras, locks)')
