import vlib
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCFactor','factor','FactorTrace',dict(N=10000 if q else 120000,Seed=ctx.seed),cap=10000 if q else 100000,timeout=800 if q else 3400,percase=60,
      rule='distinct lives of a factorization: matrices given (shapes, sparsity, singular, of unsupported types), questions asked (shapes, systems, unsupported arrays)')
