-------------------------------- MODULE GoPdf --------------------------------
(* The bundled PDF writer (package minigopdf, type GoPdf): an imperative    *)
(* drawing API with a cursor.  Step gives the next state of a document and  *)
(* the class of results; Atoms gives what a page shows: glyphs, paths and   *)
(* images in drawing order.                                                 *)
(* Parameters are hundredths of a point, the cursor and all derived         *)
(* positions 1/10000.                                                       *)
EXTENDS Layout

NoGP == [on |-> FALSE, w |-> 0, h |-> 0, pages |-> <<>>, x |-> 100000, y |-> 100000, lm |-> 100000, tm |-> 100000,
         fonts |-> <<>>, cur |-> 0, ul |-> FALSE, z |-> 0, col |-> <<0, 0, 0>>, blw |-> 100, runs |-> 0,
         fill |-> <<0, 0, 0>>, stroke |-> <<0, 0, 0>>, lw |-> 100, da |-> <<0>>, imgs |-> <<>>,
         info |-> [on |-> FALSE], prot |-> NoProt]
\* colours in 1/1000; the library prints two decimals
GCol(c) == <<(c[1] * 1000) \div 255, (c[2] * 1000) \div 255, (c[3] * 1000) \div 255>>
GGray(v) == LET t == IF v < 0 THEN 0 ELSE IF v > 100 THEN 1000 ELSE v * 10 IN <<t, t, t>>
Black == <<0, 0, 0>>
GFont(g) == g.fonts[g.cur]
\* kerning of a font: none, its kern table, or its kern table plus an override (codes of KernVal)
GKern(g) == IF ~GFont(g).uk THEN 0 ELSE 100 + GFont(g).k
CurH(g) == g.pages[Len(g.pages)].h
GAdd(g, it) == [g EXCEPT !.pages[Len(g.pages)].its = Append(@, it)]
\* text without a colour of its own takes the fill colour of the page
TextCol(g) == IF g.col = Black THEN g.fill ELSE GCol(g.col)
StyleBits(st) == [b |-> st \in {"B", "b", "BI", "BU", "IB", "UB"}, i |-> st \in {"I", "i", "BI", "IU", "IB", "UI"}, u |-> st \in {"U", "u", "BU", "IU", "UB", "UI"}]
SameStyle(a, b) == StyleBits(a).b = StyleBits(b).b /\ StyleBits(a).i = StyleBits(b).i
FontIdx(g, n, st) ==
  LET S == {j \in 1..Len(g.fonts) : g.fonts[j].n = n /\ SameStyle(g.fonts[j].st, st)}
  IN  IF S = {} THEN 0 ELSE CHOOSE j \in S : \A q \in S : j <= q
\* ascender minus descender of the current font, 1/10000
GLineH(F, g) == LET it == [z |-> g.z, f |-> GFont(g).f] IN FS(F, it, F.fonts[it.f].typoa) - FS(F, it, F.fonts[it.f].typod)

GText(F, g, o) ==
  IF ~Drawable(F, GFont(g).f, o.s) THEN Ret(g, "ERR")
  ELSE
  LET f == GFont(g).f
      tw == TextWidth(F, f, GKern(g), o.s, g.z)
      its == g.pages[Len(g.pages)].its
      new == [k |-> "t", cell |-> FALSE, x |-> g.x, y |-> g.y, cw |-> tw, ch |-> 0, tw |-> tw, al |-> 0, bd |-> 0, kk |-> GKern(g), s |-> o.s, f |-> f, z |-> g.z,
              ul |-> g.ul, c |-> TextCol(g), lw |-> g.blw, top |-> CurH(g), run |-> g.runs, ci |-> g.col, fi |-> g.cur,
              glw |-> g.lw, sc |-> g.stroke, da |-> g.da]
      last == IF its = <<>> THEN new ELSE its[Len(its)]
      join == /\ its # <<>> /\ last.k = "t" /\ ~last.cell /\ last.ci = g.col /\ last.fi = g.cur /\ last.z = g.z
              /\ last.ul = g.ul /\ last.run = g.runs /\ last.y = g.y /\ last.x + last.tw = g.x
      all == TextWidth(F, f, GKern(g), last.s \o o.s, g.z)    \* joined strings are kerned where they meet
      g1 == IF join THEN [g EXCEPT !.pages[Len(g.pages)].its[Len(its)] = [last EXCEPT !.s = @ \o o.s, !.tw = all, !.cw = all]]
            ELSE GAdd(g, new)
  IN  Ret([g1 EXCEPT !.x = IF join THEN last.x + all ELSE @ + tw], "ok")

\* o.rect: the caller gave a rectangle; al, bd, fl: alignment, border, float
GCell(F, g, o) ==
  IF ~Drawable(F, GFont(g).f, o.s) THEN Ret(g, "ERR")
  ELSE
  LET f == GFont(g).f
      tw == TextWidth(F, f, GKern(g), o.s, g.z)
      cw == IF o.rect THEN E4(o.w) ELSE tw
      ch == IF o.rect THEN E4(o.h) ELSE GLineH(F, g)
      g1 == GAdd(g, [k |-> "t", cell |-> TRUE, x |-> g.x, y |-> g.y, cw |-> cw, ch |-> ch, tw |-> tw, al |-> o.al, bd |-> o.bd, kk |-> GKern(g), s |-> o.s, f |-> f,
                     z |-> g.z, ul |-> g.ul, c |-> TextCol(g), lw |-> g.blw, top |-> CurH(g), run |-> g.runs, ci |-> g.col, fi |-> g.cur,
                     glw |-> g.lw, sc |-> g.stroke, da |-> g.da])
  IN  Ret([g1 EXCEPT !.x = IF o.fl = 0 \/ Bit(o.fl, AlRight) THEN @ + cw ELSE @,
                     !.y = IF Bit(o.fl, AlBottom) THEN @ + ch ELSE @], "ok")

PathItem(g, op, pts, nc) == [k |-> "p", op |-> op, pts |-> pts, nc |-> nc, glw |-> g.lw, c |-> g.fill, sc |-> g.stroke, da |-> g.da, top |-> CurH(g)]
PaintOp(st) == IF st = "F" THEN "f" ELSE IF st \in {"DF", "FD"} THEN "B" ELSE "S"
Pt(g, x, y) == <<E4(x), E4(CurH(g)) - E4(y)>>
OvalPts(g, o) ==
  LET cx == (E4(o.x) + E4(o.x2)) \div 2
      cy == E4(CurH(g)) - (E4(o.y) + E4(o.y2)) \div 2
      rx == (E4(o.x2) - E4(o.x)) \div 2
      ry == (E4(o.y2) - E4(o.y)) \div 2
      kx == ((rx \div 100) * 55228) \div 1000
      ky == ((ry \div 100) * 55228) \div 1000
  IN  << <<cx, cy - ry>>, <<cx + kx, cy - ry>>, <<cx + rx, cy - ky>>, <<cx + rx, cy>>, <<cx + rx, cy + ky>>, <<cx + kx, cy + ry>>, <<cx, cy + ry>>,
         <<cx - kx, cy + ry>>, <<cx - rx, cy + ky>>, <<cx - rx, cy>>, <<cx - rx, cy - ky>>, <<cx - kx, cy - ry>> >>
\* natural size of an image: 128 dpi, whole points
NatSize(sz) ==
  LET w == (sz[1] * 72) \div 128 h == (sz[2] * 72) \div 128
      w1 == IF w = 0 THEN (h * sz[1]) \div sz[2] ELSE w
      h1 == IF h = 0 THEN (w1 * sz[2]) \div sz[1] ELSE h
  IN  <<100 * w1, 100 * h1>>
\* what makes two uses of an image the same: its bytes, or its path
ImgId(o) == IF o.api = "path" THEN "p" \o o.i ELSE "b" \o o.i
GImg(F, g, o) ==
  IF o.i \in F.bad THEN Ret(g, "ERR")
  ELSE LET sz == IF o.w = 0 THEN NatSize(F.imgsz[o.i]) ELSE <<o.w, o.h>>
       IN  Ret([GAdd(g, [k |-> "i", i |-> o.i, id |-> ImgId(o), m |-> <<E4(sz[1]), 0, 0, E4(sz[2]), E4(o.x), E4(CurH(g)) - E4(o.y) - E4(sz[2])>>])
                EXCEPT !.imgs = Append(@, ImgId(o))], "ok")

GStep(F, g, o) ==
  CASE o.op = "gstart" -> Ret([NoGP EXCEPT !.on = TRUE, !.w = o.w, !.h = o.h, !.prot = [on |-> o.on, perm |-> o.perm, u |-> o.u, o |-> o.o]], "ok")
    [] o.op = "page" -> Ret([g EXCEPT !.pages = Append(@, [w |-> IF o.w = 0 THEN g.w ELSE o.w, h |-> IF o.w = 0 THEN g.h ELSE o.h, its |-> <<>>]),
                                      !.x = g.lm, !.y = g.tm, !.fill = Black, !.stroke = Black, !.lw = 100, !.da = <<0>>], "ok")
    [] o.op = "gfont" -> IF o.io \in ReadFaults \/ ~F.fonts[o.f].ok THEN Ret(g, "ERR")
                         ELSE Ret([g EXCEPT !.fonts = Append(@, [n |-> o.n, st |-> o.st, f |-> o.f, uk |-> o.uk, k |-> 0])], "ok")
    [] o.op = "gkern" -> LET S == {j \in 1..Len(g.fonts) : g.fonts[j].n = o.n} IN
                         IF S = {} THEN Ret(g, "ERR") ELSE Ret([g EXCEPT !.fonts[CHOOSE j \in S : \A q \in S : j <= q].k = o.k], "ok")
    [] o.op = "gset" -> IF FontIdx(g, o.n, o.st) = 0 THEN Ret(g, "ERR")
                        ELSE Ret([g EXCEPT !.cur = FontIdx(g, o.n, o.st), !.ul = StyleBits(o.st).u, !.z = o.z], "ok")
    [] o.op = "x" -> Ret([g EXCEPT !.x = E4(o.v), !.runs = @ + 1], "ok")
    [] o.op = "y" -> Ret([g EXCEPT !.y = E4(o.v)], "ok")
    [] o.op = "br" -> Ret([g EXCEPT !.y = @ + E4(o.v), !.x = g.lm], "ok")
    [] o.op = "lm" -> Ret([g EXCEPT !.lm = E4(o.v)], "ok")
    [] o.op = "tm" -> Ret([g EXCEPT !.tm = E4(o.v)], "ok")
    [] o.op = "gtext" -> GText(F, g, o)
    [] o.op = "gcell" -> GCell(F, g, o)
    [] o.op = "line" -> Ret(GAdd(g, PathItem(g, "S", <<Pt(g, o.x, o.y), Pt(g, o.x2, o.y2)>>, 0)), "ok")
    [] o.op = "rect" -> \* o.ul: the corner is the upper left one
         LET y0 == IF o.ul THEN o.y + o.h ELSE o.y IN
         Ret(GAdd(g, PathItem(g, PaintOp(o.st), <<Pt(g, o.x, y0), Pt(g, o.x + o.w, y0), Pt(g, o.x + o.w, y0 - o.h), Pt(g, o.x, y0 - o.h)>>, 0)), "ok")
    [] o.op = "oval" -> Ret(GAdd(g, PathItem(g, "S", OvalPts(g, o), 4)), "ok")
    [] o.op = "curve" -> Ret(GAdd(g, PathItem(g, PaintOp(o.st), <<Pt(g, o.c[1], o.c[2]), Pt(g, o.c[3], o.c[4]), Pt(g, o.c[5], o.c[6]), Pt(g, o.c[7], o.c[8])>>, 1)), "ok")
    [] o.op = "gfill" -> Ret([GAdd(g, [k |-> "n"]) EXCEPT !.fill = GGray(o.v)], "ok")
    [] o.op = "gstroke" -> Ret([GAdd(g, [k |-> "n"]) EXCEPT !.stroke = GGray(o.v)], "ok")
    [] o.op = "cfill" -> Ret([GAdd(g, [k |-> "n"]) EXCEPT !.fill = GCol(o.c)], "ok")
    [] o.op = "cstroke" -> Ret([GAdd(g, [k |-> "n"]) EXCEPT !.stroke = GCol(o.c)], "ok")
    [] o.op = "tcol" -> Ret([g EXCEPT !.col = o.c], "ok")
    [] o.op = "lw" -> Ret([GAdd(g, [k |-> "n"]) EXCEPT !.lw = o.v, !.blw = o.v], "ok")
    [] o.op = "lt" -> Ret([GAdd(g, [k |-> "n"]) EXCEPT !.da = IF o.t = "dashed" THEN <<500, 200>> ELSE IF o.t = "dotted" THEN <<200, 300, 1100>> ELSE <<0>>], "ok")
    [] o.op = "gimg" -> GImg(F, g, o)
    [] o.op = "gmeas" -> IF Drawable(F, GFont(g).f, o.s) THEN Ret(g, "ok") ELSE Ret(g, "ERR")
    [] o.op = "info" -> Ret([g EXCEPT !.info = [on |-> TRUE, t |-> o.t, a |-> o.a, s |-> o.s, c |-> o.c, p |-> o.p, d |-> o.d]], "ok")
    [] o.op = "compress" -> Ret(g, "ok")
    [] o.op = "write" -> Ret(g, "ok")

------------------------------------------------------------------------------
(* what a page shows *)
GX(it) == CASE ~it.cell -> it.x
            [] Bit(it.al, AlRight) -> it.x + it.cw - it.tw
            [] Bit(it.al, AlCenter) -> it.x + it.cw \div 2 - it.tw \div 2
            [] OTHER -> it.x
GY(F, it) ==
  LET asc == FS(F, it, F.fonts[it.f].typoa)
      desc == FS(F, it, F.fonts[it.f].typod)
      t == E4(it.top) - it.y
  IN  CASE ~it.cell -> t
        [] Bit(it.al, AlBottom) -> t - it.ch - desc
        [] Bit(it.al, AlMiddle) -> t - it.ch \div 2 - (desc + asc) \div 2
        [] OTHER -> t - asc
\* corners of the underline
GUnder(F, it) ==
  LET y1 == E4(it.top) - it.y + FS(F, it, F.fonts[it.f].up) - 7000 * it.z
      y0 == y1 - FS(F, it, F.fonts[it.f].ut)
  IN  << <<it.x, y1>>, <<it.x + it.cw, y1>>, <<it.x + it.cw, y0>>, <<it.x, y0>> >>
GBorders(it) ==
  LET o == it.lw * 50     \* half the line width
      t == E4(it.top) - it.y
      b == t - it.ch
      r == it.x + it.cw
      ln(p, q) == [k |-> "p", op |-> "S", pts |-> <<p, q>>, nc |-> 0, glw |-> it.glw, c |-> Black, sc |-> it.sc, da |-> it.da, fy |-> FALSE]
  IN  (IF Bit(it.bd, AlTop) THEN <<ln(<<it.x - o, t>>, <<r + o, t>>)>> ELSE <<>>) \o
      (IF Bit(it.bd, AlLeft) THEN <<ln(<<it.x, t>>, <<it.x, b>>)>> ELSE <<>>) \o
      (IF Bit(it.bd, AlRight) THEN <<ln(<<r, t>>, <<r, b>>)>> ELSE <<>>) \o
      (IF Bit(it.bd, AlBottom) THEN <<ln(<<it.x - o, b>>, <<r + o, b>>)>> ELSE <<>>)
ItemAtoms(F, it) ==
  CASE it.k = "t" ->
         LET x0 == GX(it) y == GY(F, it) ps == GlyphPos(F, it.f, it.kk, it.s) IN
         [j \in 1..Len(it.s) |-> [k |-> "g", x |-> x0 + ps[j] * it.z * 10, y |-> y, f |-> it.f, z |-> it.z * 100, cp |-> it.s[j], c |-> it.c]] \o
         (IF it.ul THEN <<[k |-> "p", op |-> "f", pts |-> GUnder(F, it), nc |-> 0, glw |-> 0, c |-> it.c, sc |-> Black, da |-> <<>>, fy |-> ~it.cell]>> ELSE <<>>) \o
         GBorders(it)
    [] it.k = "p" -> <<[k |-> "p", op |-> it.op, pts |-> it.pts, nc |-> it.nc, glw |-> it.glw, c |-> it.c, sc |-> it.sc, da |-> it.da, fy |-> FALSE]>>
    [] it.k = "i" -> <<it>>
    [] OTHER -> <<>>
Atoms(F, page) == FoldLeft(LAMBDA a, it : a \o ItemAtoms(F, it), <<>>, page.its)
=============================================================================
