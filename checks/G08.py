import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCTriangulation','triangulation','TriangulationTrace',dict(N=12000 if q else 60000,Seed=ctx.seed),cap=12000 if q else 50000,timeout=800 if q else 3400,percase=40,
      rule='distinct pairs of rays or models')
