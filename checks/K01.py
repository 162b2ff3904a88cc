import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCSynthetic','synthetic','SyntheticTrace',dict(N=6000 if q else 60000,Seed=ctx.seed),cap=6000 if q else 60000,timeout=800 if q else 3400,percase=60,
      rule='distinct solutions made perfect (boards, points, rejected and weighted observations, noise), and boards made up (cameras, requirements of visibility and obliqueness, ranges of poses)')
