import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCCorners','corners','CornersTrace',dict(Edits=2 if q else 3,Stride=97 if q else 1200,Seed=ctx.seed),cap=6000 if q else 60000,timeout=800 if q else 3400,percase=20,
      rule='distinct corner files and ways to read them')
