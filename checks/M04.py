import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCFormats','formats','FormatsTrace',dict(N=7000 if q else 60000,Seed=ctx.seed),cap=7000 if q else 50000,timeout=800 if q else 3400,percase=20,
      rule='distinct cameras, files and edits, lists of files')
