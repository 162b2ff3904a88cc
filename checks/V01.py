import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCArgs','args','ArgsTrace',dict(Edits=2,Stride=11 if q else 3,Seed=ctx.seed),cap=20000 if q else 60000,timeout=800 if q else 3400,percase=20,
      rule='distinct descriptions of problems, well-formed and malformed')
