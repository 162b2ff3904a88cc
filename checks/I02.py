import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCWarp','warp','WarpTrace',dict(N=24000 if q else 250000,Seed=ctx.seed),cap=24000 if q else 250000,timeout=800 if q else 3400,percase=60,
      rule='distinct maps between cameras (lenses, poses, modes, planes, masks), pinhole models made to fit, images mapped, and lists of points reprojected')
