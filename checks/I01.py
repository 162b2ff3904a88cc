import vlib
def key(clause,case,obs):
    c=case['c']
    # 16-bit .pgm files are written and read with the least significant byte of each number first
    if clause=='pixels_of_file' and c['kind']=='save' and c['ext']=='.pgm' and c['what']=='u16' and obs.get('swapped')==1: return 'pgm16-byte-order'
    if clause=='pixels_of_image' and c['kind']=='load' and c['container']=='pnm' and c['type']=='gray16' and obs.get('swapped')==1: return 'pgm16-byte-order'
    # an array of 0 or 1 dimensions comes back with 2, in front of those of the colors
    if clause=='shape_of_colors' and c['kind']=='map' and c['shape'] in('0','1') and obs.get('lead1')==1: return 'color-map-below-2d'
def main(ctx):
    q=ctx.quick
    vlib.standard(ctx,'MCImages','images','ImagesTrace',dict(N=20000 if q else 120000,Seed=ctx.seed),cap=20000 if q else 100000,timeout=800 if q else 3400,percase=60,key=key,
      rule='distinct images written (kinds of arrays, layouts in memory, file formats), files read (types, requests), and arrays color-coded (types of numbers, ranges, formulae, layouts)')
