import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCTriNoise','trinoise','TriNoiseTrace',dict(N=20000 if q else 80000,Seed=ctx.seed),cap=20000 if q else 80000,timeout=800 if q else 3400,percase=60,
      rule='distinct problems, pairs of cameras and kinds of noise that have a definite answer')
