import layout_common
def main(ctx): layout_common.go(ctx,['meas'],2000,25000,29,41,1000,12000)
