import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCModel','model','ModelTrace',dict(Depth=5,Fan=4 if q else 6,Seed=ctx.seed),cap=8000 if q else 30000,
      rule='distinct sequences of operations on two camera models, every getter of both observed after every operation',timeout=840 if q else 3000)
