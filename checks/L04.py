import layout_common
def main(ctx): layout_common.go(ctx,['jac'],900,9000,37,53,500,6000)
