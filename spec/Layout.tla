------------------------------- MODULE Layout -------------------------------
(* Geometry of inserted items: where text, underlines, borders and images   *)
(* are drawn.  All results are in 1/10000 point.                            *)
EXTENDS Pdft

E4(h) == h * 100
FS(F, it, v) == Frac(v * it.z, F.fonts[it.f].upem)     \* font units -> 1/10000 pt at the item's size

TextX(F, it) ==
  LET tw == TextWidth(F, it.f, it.kk, it.s, it.z) IN
  CASE Bit(it.al, AlRight) -> E4(it.x) + E4(it.w) - tw
    [] Bit(it.al, AlCenter) -> E4(it.x) + E4(it.w) \div 2 - tw \div 2
    [] OTHER -> E4(it.x)
TextY(F, it) ==
  LET asc == FS(F, it, F.fonts[it.f].typoa)
      desc == FS(F, it, F.fonts[it.f].typod)
  IN  CASE Bit(it.al, AlBottom) -> E4(it.top) - E4(it.y) - E4(it.h) - desc
        [] Bit(it.al, AlMiddle) -> E4(it.top) - E4(it.y) - E4(it.h) \div 2 - (desc + asc) \div 2
        [] OTHER -> E4(it.top) - E4(it.y) - asc
\* [x0, y0, x1, y1] of the underline
UnderlineBox(F, it) ==
  LET y1 == E4(it.top) - E4(it.y) + FS(F, it, F.fonts[it.f].up) - 7000 * it.z
  IN  <<E4(it.x), y1 - FS(F, it, F.fonts[it.f].ut), E4(it.x) + E4(it.w), y1>>
\* the four border lines as boxes
BorderBoxes(it) ==
  LET x0 == E4(it.x) x1 == E4(it.x) + E4(it.w)
      y1 == E4(it.top) - E4(it.y) y0 == y1 - E4(it.h)
  IN  << <<x0, y1, x1, y1>>, <<x0, y0, x0, y1>>, <<x1, y0, x1, y1>>, <<x0, y0, x1, y0>> >>
ImageMatrix(it) == <<E4(it.w), 0, 0, E4(it.h), E4(it.x), E4(it.top) - E4(it.y) - E4(it.h)>>

BoxNear(a, b, tol) == \A i \in 1..4 : Near(a[i], b[i], tol)
\* bounding box of a path
PtsBox(pts) ==
  LET xs == {pts[i][1] : i \in 1..Len(pts)} ys == {pts[i][2] : i \in 1..Len(pts)}
      mn(S) == CHOOSE x \in S : \A y \in S : x <= y
      mx(S) == CHOOSE x \in S : \A y \in S : x >= y
  IN  IF Len(pts) = 0 THEN <<0, 0, 0, 0>> ELSE <<mn(xs), mn(ys), mx(xs), mx(ys)>>
=============================================================================
