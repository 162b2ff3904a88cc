import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCTraverse','traverse','TraverseTrace',dict(Edits=2 if q else 3,Stride=13 if q else 37,Seed=ctx.seed),cap=18000 if q else 60000,timeout=800 if q else 3400,percase=20,
      rule='distinct graphs of sensors and ways to call')
