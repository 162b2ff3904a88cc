----------------------------- MODULE ImagesTrace -----------------------------
EXTENDS Images, Judge
Lossy(c) == c.ext = ".jpg"
Near(a,b,tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : AbsI(a[i] - b[i]) <= tol
VSave(c,o) ==
  IF SaveRefused(c) THEN Bad("unwritable_image_accepted", o.ok = 0) \cup Bad("refused_image_destroys_the_file", c.before = 1 /\ c.dir = "there" => o.kept = 1)
  ELSE IF o.ok = 0 THEN {"image_not_written"} ELSE
    Bad("image_modified", o.pure = 1)
    \cup (LET f == Stored(c) IN
      Bad("format_of_file", o.file.fmt = f.fmt /\ o.file.w = f.w /\ o.file.h = f.h /\ o.file.depth = f.depth /\ o.file.channels = f.channels)
      \cup (IF o.file.fmt # f.fmt THEN {} ELSE IF Lossy(c) THEN Bad("pixels_of_file", Near(o.file.pix,f.pix,8)) ELSE Bad("pixels_of_file", o.file.pix = f.pix)))
    \cup (IF Has(o,"loadfail") THEN {"written_image_not_readable"} ELSE
         Bad("image_read_back_format", o.back.what = c.what /\ o.back.w = c.w /\ o.back.h = c.h)
         \cup Bad("image_read_back", Near(o.back.pix,c.pix,IF Lossy(c) THEN 8 ELSE 0)))
VLoad(c,o) ==
  IF LoadRefused(c,c.req) THEN Bad("unreadable_image_accepted", o.ok = 0)
  ELSE IF o.ok = 0 THEN {"image_not_read"} ELSE
    LET t == Target(c,c.req) IN
    Bad("type_of_image", o.what = (CASE t = <<8,1>> -> "u8" [] t = <<16,1>> -> "u16" [] OTHER -> "bgr") /\ o.w = c.w /\ o.h = c.h)
    \cup (IF NativeOf(c.type) = <<16,1>> /\ t = <<8,1>> /\ Constant(c.pix) THEN Bad("constant_image_not_constant", Len(o.pix) = Len(c.pix) /\ \A i \in DOMAIN o.pix : o.pix[i] = o.pix[1])
          ELSE LET e == Expected(c,c.req) IN Bad("pixels_of_image", Len(o.pix) = Len(e) /\ \A i \in DOMAIN e : Agree(c,c.req,i,o.pix[i],e[i])))
VMap(c,o) ==
  IF MapRefused(c) THEN Bad("bad_color_map_accepted", o.ok = 0)
  ELSE IF o.ok = 0 THEN {"not_colored"} ELSE
    Bad("array_modified", o.pure = 1) \cup Bad("shape_of_colors", o.shapeok = 1) \cup Bad("given_output_array_unused", o.outok = 1) \cup Bad("wrote_elsewhere", o.around = 1)
    \cup (IF o.shapeok = 0 /\ o.lead1 = 0 THEN {} ELSE Bad("colors", Colored(c,o.pix)))
V(r) == LET o == r.o c == r.c.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  CASE c.kind = "save" -> VSave(c,o) [] c.kind = "load" -> VLoad(c,o) [] OTHER -> VMap(c,o)
TJudge == Report(V(Recs[pos]))
=============================================================================
