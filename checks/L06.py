import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCResidual','residual','ResidualTrace',dict(N=1200 if q else 12000,Seed=ctx.seed),cap=20000,timeout=840 if q else 3400,
      rule='distinct problems (rig, poses, weights, board, lens, locks)')
