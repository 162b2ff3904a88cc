import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCDiff','diff','DiffTrace',dict(N=6000 if q else 40000,Seed=ctx.seed),cap=6000 if q else 40000,timeout=800 if q else 3400,percase=60,
      rule='distinct comparisons: sets of models, sources of the transformation, distances, grids, fits, pairs and resolutions')
