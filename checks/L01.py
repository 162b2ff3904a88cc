import layout_common
def main(ctx): layout_common.go(ctx,['explicit','owners'],2500,30000,23,37,1200,15000)
