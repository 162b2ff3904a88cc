import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCStereo','stereo','StereoTrace',dict(N=40000 if q else 400000,Seed=ctx.seed),cap=40000 if q else 400000,timeout=800 if q else 3400,percase=20,
      rule='distinct geometries, options, disparities')
