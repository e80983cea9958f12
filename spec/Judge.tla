-------------------------------- MODULE Judge --------------------------------
(* What each property demands of one recorded event.  Every operator gives  *)
(* the set of reasons why the event breaks the property ({} = it holds).    *)
EXTENDS Layout, Store

If(c, why) == IF c THEN {} ELSE {why}
\* coordinates are written with two decimals
PosTol == 150

------------------------------------------------------------------------------
(* expected and observed draws of one page *)
Texts(its) == SelectSeq(its, LAMBDA it : it.k = "t" /\ Len(it.s) > 0)
Imgs(its) == SelectSeq(its, LAMBDA it : it.k = "i")
TIs(its) == SelectSeq(its, LAMBDA it : it.k = "i" \/ Len(it.s) > 0)
Boxed(its) == SelectSeq(its, LAMBDA it : it.k = "t" /\ (it.ul \/ it.bd))
OfKind(ds, k) == SelectSeq(ds, LAMBDA x : x.k = k)
OfTI(ds) == SelectSeq(ds, LAMBDA x : x.k \in {"t", "i"})

\* the drawn glyph codes stand for the characters (characters that share a glyph are interchangeable)
SameChar(F, f, u, cp) == u = cp \/ (u # -1 /\ ToString(u) \in DOMAIN F.fonts[f].ch /\ Ch(F, f, u).g = Ch(F, f, cp).g)
CodesOK(F, it, x) == Len(x.g) = Len(it.s) /\ \A i \in 1..Len(it.s) : SameChar(F, it.f, x.g[i].u, it.s[i])
ShapesOK(F, it, x) == Len(x.g) = Len(it.s) /\ \A i \in 1..Len(it.s) : x.g[i].o = Ch(F, it.f, it.s[i]).o
\* recognisably the same string
IsText(F, it, x) == CodesOK(F, it, x) \/ ShapesOK(F, it, x)
ColourOK(a, b) == Len(a) = 3 /\ \A i \in 1..3 : Near(a[i], b[i], 6)
IsImg(it, x) == it.i \in Set(x.im)
SameTI(F, it, x) == it.k = x.k /\ IF it.k = "t" THEN IsText(F, it, x) ELSE IsImg(it, x)

------------------------------------------------------------------------------
(* pages *)
CountOK(sh, obs) == If(Len(obs.pages) = Len(sh), "number of pages")
Pairs(sh, obs) == 1..Min2(Len(sh), Len(obs.pages))
Each(sh, obs, Op(_, _, _)) == UNION {Op(sh[p], obs.pages[p], p) : p \in Pairs(sh, obs)}

\* the page that is shown here comes from template page src, unchanged
SrcOK(sh, obs) == Each(sh, obs, LAMBDA s, o, p : If(s.src \in Set(o.js), "page drawn differently"))
OwnOK(sh, obs) == Each(sh, obs, LAMBDA s, o, p : If(s.src \in Set(o.own), "page content changed"))
AttrsOK(F, tf, sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p : If(Set(F.tfs[tf].pages[s.src].at) \subseteq Set(o.at), "page entries changed"))
ResOK(F, tf, sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p : If(Set(F.tfs[tf].pages[s.src].res) \subseteq Set(o.res), "page resources changed"))
BoxOK(sh, obs) == Each(sh, obs, LAMBDA s, o, p : If(o.box = s.box, "page size"))

\* P03
LandOK(F, sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p :
    LET e == TIs(s.its) g == OfTI(o.ds) IN
    If(Len(e) = Len(g), "number of items on a page") \cup
    If(\A i \in 1..Min2(Len(e), Len(g)) : SameTI(F, e[i], g[i]), "items or their order on a page") \cup
    If(Len(s.its) > 0 \/ Len(o.ds) = 0, "marks on a page without insertions"))
\* unordered version, for the design view
LandAny(F, sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p :
    LET e == TIs(s.its) g == OfTI(o.ds)
        cnt(it) == Cardinality({j \in 1..Len(g) : SameTI(F, it, g[j])})
        cnt0(it) == Cardinality({j \in 1..Len(e) : e[j].k = it.k /\ (IF it.k = "t" THEN e[j].s = it.s /\ e[j].f = it.f ELSE e[j].i = it.i)})
    IN  If(Len(e) = Len(g), "number of items on a page") \cup
        \* different strings can look alike (characters with the same outline)
        If(\A i \in 1..Len(e) : cnt(e[i]) >= cnt0(e[i]), "items on a page") \cup
        If(\A j \in 1..Len(g) : \E i \in 1..Len(e) : SameTI(F, e[i], g[j]), "other items on a page"))
\* P04
EachText(F, sh, obs, Op(_, _)) ==
  Each(sh, obs, LAMBDA s, o, p :
    LET e == Texts(s.its) g == OfKind(o.ds, "t") IN
    UNION {Op(e[i], g[i]) : i \in 1..Min2(Len(e), Len(g))})
TextNum(sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p : If(Len(Texts(s.its)) = Len(OfKind(o.ds, "t")), "number of strings on a page"))
TextOK(F, sh, obs) ==
  TextNum(sh, obs) \cup
  EachText(F, sh, obs, LAMBDA it, x :
    If(CodesOK(F, it, x), "characters by ToUnicode") \cup
    If(ShapesOK(F, it, x), "glyphs of the font") \cup
    If(x.z = it.z * 100, "font size") \cup
    If(ColourOK(x.c, it.c), "text colour") \cup
    If(x.e = "", "graphics state of text"))
\* P05
TextPosOK(F, sh, obs) ==
  TextNum(sh, obs) \cup
  EachText(F, sh, obs, LAMBDA it, x :
    If(x.e = "", "coordinate system of text") \cup
    (IF ~IsText(F, it, x) THEN {"another string"} ELSE
      If(Near(x.x, TextX(F, it), PosTol), "x of text") \cup
      If(it.top = -1 \/ Near(x.y, TextY(F, it), PosTol), "y of text")))
TextYOK(F, sh, obs) ==
  EachText(F, sh, obs, LAMBDA it, x : If(it.top = -1 \/ ~IsText(F, it, x) \/ Near(x.y, TextY(F, it), PosTol), "y of text"))
\* P06: kerning and rise of every glyph
GlyphsOK(F, sh, obs) ==
  EachText(F, sh, obs, LAMBDA it, x :
    IF ~IsText(F, it, x) THEN {"another string"} ELSE
    LET ps == GlyphPos(F, it.f, it.kk, it.s) IN
    If(\A i \in 1..Len(it.s) : Near(x.g[i].p, ps[i], 1), "kerning") \cup
    If(\A i \in 1..Len(it.s) : x.g[i].r = (IF it.rr = 0 THEN 0 ELSE RiseFn(it.rr, it.s[i], i - 1, it.z)), "text rise"))
\* the paths of the boxed strings, in order; index of the first path of item i
PathCount(it) == (IF it.ul THEN 1 ELSE 0) + (IF it.bd THEN 4 ELSE 0)
UnderlineOK(F, it, x) ==
  x.op \in {"f", "F", "f*"} /\ (it.top = -1 \/ BoxNear(PtsBox(x.pts), UnderlineBox(F, it), PosTol)) /\ ColourOK(x.c, it.c) /\ x.e = ""
BorderOK(it, b, x) == x.op = "S" /\ (it.top = -1 \/ BoxNear(PtsBox(x.pts), b, 700)) /\ x.e = ""
PathsOK(F, sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p :
    LET e == Boxed(s.its)
        g == OfKind(o.ds, "p")
        from(i) == FoldLeft(LAMBDA a, j : a + PathCount(e[j]), 0, [j \in 1..(i - 1) |-> j])
        group(i) == {from(i) + 1 .. from(i) + PathCount(e[i])}
        grp(i) == (from(i) + 1)..(from(i) + PathCount(e[i]))
    IN  If(Len(g) = from(Len(e) + 1), "number of underlines and border lines") \cup
        (IF Len(g) # from(Len(e) + 1) THEN {} ELSE
         UNION {If(e[i].ul => \E j \in grp(i) : UnderlineOK(F, e[i], g[j]), "underline") \cup
                If(e[i].bd => \A b \in 1..4 : \E j \in grp(i) : BorderOK(e[i], BorderBoxes(e[i])[b], g[j]), "border")
                : i \in 1..Len(e)}))
\* P09
ImgsOK(F, sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p :
    LET e == Imgs(s.its) g == OfKind(o.ds, "i") IN
    If(Len(e) = Len(g), "number of images on a page") \cup
    UNION {If(IsImg(e[i], g[i]), "image shown") \cup If(g[i].e = "", "graphics state of image") \cup
           If(\A q \in {1, 2, 3, 4, 5} : Near(g[i].m[q], ImageMatrix(e[i])[q], PosTol), "image matrix") \cup
           If(e[i].top = -1 \/ Near(g[i].m[6], ImageMatrix(e[i])[6], PosTol), "image y")
           : i \in 1..Min2(Len(e), Len(g))})
ImgYOK(F, sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p :
    LET e == Imgs(s.its) g == OfKind(o.ds, "i") IN
    UNION {If(e[i].top = -1 \/ Near(g[i].m[6], ImageMatrix(e[i])[6], PosTol), "image y") : i \in 1..Min2(Len(e), Len(g))})
\* all image uses <<item, draw>> of the document
ImgUses(sh, obs) ==
  LET f(acc, p) == LET e == Imgs(sh[p].its) g == OfKind(obs.pages[p].ds, "i")
                   IN  acc \o [i \in 1..Min2(Len(e), Len(g)) |-> <<e[i], g[i]>>]
  IN  FoldLeft(f, <<>>, [p \in Pairs(sh, obs) |-> p])
SharingOK(sh, obs) ==
  LET u == ImgUses(sh, obs) IN
  If(\A a, b \in 1..Len(u) :
       (u[a][1].g = u[b][1].g /\ u[a][1].api = "cache" /\ u[b][1].api = "cache" /\ u[a][1].i = u[b][1].i) => u[a][2].ob = u[b][2].ob,
     "cached image embedded twice") \cup
  If(\A a, b \in 1..Len(u) : u[a][1].i # u[b][1].i => u[a][2].ob # u[b][2].ob, "different images share an object")
ProbsOK(sh, obs) == Each(sh, obs, LAMBDA s, o, p : If(o.probs = <<>>, "content does not resolve"))
\* P02
KeptOK(F, tf, obs) ==
  If(Set(F.tfs[tf].objs) \subseteq Set(obs.objs), "template objects changed") \cup
  If(F.tfs[tf].root = obs.root, "catalog changed") \cup
  If(F.tfs[tf].info = obs.info, "document information changed")
NodeOK(F, tf, obs) == If(Set(F.tfs[tf].nd) \subseteq Set(obs.nd), "entries of the page tree root changed")
\* P15: nothing an earlier generation saved is renamed or altered
EarlierOK(S, sh, obs) ==
  Each(sh, obs, LAMBDA s, o, p :
    IF s.sv = 0 THEN {} ELSE
    LET q == S.ev[s.sv].obs.pages[s.at] IN
    If(Set(q.res) \subseteq Set(o.res), "resources of an earlier generation changed") \cup
    If(Set(q.at) \subseteq Set(o.at), "entries of an earlier generation changed") \cup
    If(q.box = o.box, "size changed since an earlier generation"))
EarlierObjsOK(S, d, obs) ==
  IF d.gen = 0 THEN {} ELSE If(Set(S.ev[d.gen].obs.objs) \subseteq Set(obs.objs), "objects of an earlier generation changed")
\* P07
GlyphProgOK(F, sh, obs) ==
  EachText(F, sh, obs, LAMBDA it, x :
    IF ~CodesOK(F, it, x) /\ ~ShapesOK(F, it, x) THEN {"another string"} ELSE
    UNION {LET c == Ch(F, it.f, it.s[i]) g == x.g[i] IN
           If(g.o = c.o, "outline") \cup If(g.a = c.a, "advance in the font program") \cup If(g.l = c.l, "side bearing") \cup
           If(Near(g.w * F.fonts[it.f].upem, c.a * 1000, F.fonts[it.f].upem), "declared width")
           : i \in 1..Len(it.s)} \cup
    If(obs.fonts[x.f].emb, "font program") \cup If(obs.fonts[x.f].names, "font names"))
Round(n, m) == (2 * n + m) \div (2 * m)   \* floor(n/m + 1/2)
DescOK(F, sh, obs) ==
  EachText(F, sh, obs, LAMBDA it, x :
    LET ff == F.fonts[it.f] q == obs.fonts[x.f]
        sc(v) == Round(v * 1000, ff.upem)
        asc == IF ff.typoa = 0 THEN ff.hasc ELSE ff.wina
        desc == IF ff.typod = 0 THEN ff.hdesc ELSE -ff.wind
    IN  IF ~q.emb THEN {"font program"} ELSE
        If(Near(q.asc, sc(asc), 1), "Ascent") \cup If(Near(q.desc, sc(desc), 1), "Descent") \cup
        If(Near(q.cap, sc(ff.cap), 1) \/ ff.os2v < 2, "CapHeight") \cup
        If(Near(q.ital, ff.ital, 1), "ItalicAngle") \cup
        If(Len(q.bbox) = 4 /\ \A i \in 1..4 : Near(q.bbox[i], ff.bbox[i], 1), "FontBBox"))
\* P17
DrawnWidthOK(F, sh, obs) ==
  EachText(F, sh, obs, LAMBDA it, x :
    IF ~IsText(F, it, x) THEN {"another string"} ELSE
    If(Near(x.g[Len(x.g)].p + x.g[Len(x.g)].w, TextUnits(F, it.f, it.kk, it.s), 2), "drawn width"))
\* P16
PermOK(prot, obs) == obs.enc.perm = -1 - ((255 - prot.perm) % 256) + 0
EncOK(prot, obs) ==
  IF ~prot.on THEN If(~obs.enc.on, "encrypted without protection") ELSE
  If(obs.enc.on, "not encrypted") \cup
  (IF ~obs.enc.on THEN {} ELSE
    If(obs.enc.valid, "encryption dictionary") \cup If(obs.enc.uok, "user password") \cup
    If(Len(prot.o) = 0 \/ obs.enc.ook, "owner password") \cup If(obs.enc.wrong = 0, "opens with another password") \cup
    If(\A b \in {4, 8, 16, 32} : Bit(obs.enc.perm + 1048576, b) = Bit(prot.perm, b), "permissions"))

------------------------------------------------------------------------------
(* views, for properties that compare two documents *)
\* f and ob are numbered in order of appearance; us: the characters by ToUnicode are compared too
\* (characters that share a glyph are interchangeable: which of them is named depends on the order of use)
ViewD(x, ids, us) ==
  IF x.k = "t" THEN <<"t", x.x, x.y, x.z, x.c, IF ids THEN x.f ELSE 0, [i \in 1..Len(x.g) |-> IF us THEN x.g[i] ELSE [x.g[i] EXCEPT !.u = 0]], x.e>>
  ELSE IF x.k = "i" THEN <<"i", x.m, x.im, IF ids THEN x.ob ELSE 0, x.e>>
  ELSE IF x.k = "p" THEN <<"p", x.op, x.lw, x.c, x.sc, x.da, x.seg, x.pts, x.e>>
  ELSE <<"?", x.k, x.dig, x.e>>
ViewP(p, ids, us) == <<p.box, p.at, p.js, p.own, [i \in 1..Len(p.ds) |-> ViewD(p.ds[i], ids, us)], p.probs>>
SameView(a, b, ids, us) ==
  If(Len(a.pages) = Len(b.pages), "number of pages differs") \cup
  UNION {If(ViewP(a.pages[p], ids, us) = ViewP(b.pages[p], ids, us), "page shown differently") : p \in 1..Min2(Len(a.pages), Len(b.pages))}
\* shows the same, with as many objects (a failing call may leave unused glyphs in a font)
SameShow(a, b) ==
  SameView(a, b, TRUE, FALSE) \cup If(a.root = b.root /\ a.info = b.info, "catalog or information differs") \cup
  If(Len(a.st.ids) = Len(b.st.ids), "number of objects differs")
SameDoc(a, b, ids) ==
  SameView(a, b, ids, TRUE) \cup If(a.root = b.root /\ a.info = b.info, "catalog or information differs") \cup
  If(Set(a.objs) = Set(b.objs), "objects differ") \cup
  If(Len(a.st.ids) = Len(b.st.ids), "number of objects differs") \cup
  If(a.fonts = b.fonts, "fonts differ")
=============================================================================
