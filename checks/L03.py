import layout_common
def main(ctx): layout_common.go(ctx,['owners'],2500,30000,31,43,1200,15000)
