import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCCornerTools','corners','CornerToolsTrace',dict(Edits=2 if q else 3,Stride=41 if q else 60,Seed=ctx.seed),cap=4000 if q else 60000,timeout=800 if q else 3400,percase=20,
      rule='distinct corner files and invocations of the tools')
