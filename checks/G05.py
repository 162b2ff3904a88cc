import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCPolygon','polygon','PolygonTrace',dict(N=7000 if q else 60000,Seed=ctx.seed),cap=6000 if q else 30000,timeout=800 if q else 3400,percase=40,
      rule='distinct polygons, forms of the arguments')
