import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCMatch','match','MatchTrace',dict(N=6000 if q else 60000,Seed=ctx.seed),cap=6000 if q else 60000,timeout=800 if q else 3400,percase=60,
      rule='distinct pairs of images, pixels, homographies, template sizes, search radii, comparison functions, memory layouts, and bad arguments')
