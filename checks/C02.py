import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCNames','corners','NamesTrace',dict(Edits=2 if q else 3,Stride=7 if q else 41,Seed=ctx.seed),cap=6000 if q else 60000,timeout=800 if q else 3400,percase=20,
      rule='distinct lists of image names')
