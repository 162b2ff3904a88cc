import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCAlign','align','AlignTrace',dict(N=8000 if q else 120000,Seed=ctx.seed),cap=8000 if q else 100000,timeout=800 if q else 3400,percase=60,
      rule='distinct stacks of alignments (points, weights, motions, singularities, layouts in memory, scales), vectors, symmetric matrices, quaternions')
