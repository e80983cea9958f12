-------------------------------- MODULE Pdft --------------------------------
(* The document model of signintech/pdft: what an instance is, what every   *)
(* public call does to it and which result it must return.                  *)
(*                                                                          *)
(* The model is functional: Step(F, d, op, r) gives the next document and   *)
(* the class of results the call may have.  It is used by                   *)
(*   - MCDoc.tla (exhaustive checking of the model),                        *)
(*   - Gen*.tla  (generation of scenarios that are executed on the code),   *)
(*   - Trace.tla (checking of the traces recorded from the code).           *)
(*                                                                          *)
(* F are facts about the inputs: F.tfs[i] template facts, F.fonts[key] font *)
(* facts, F.bad the image keys that are not supported images.               *)
(* Units: coordinates are hundredths of a point, derived positions 1/10000. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Set(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* a*b/c in 1/10000 without leaving 32 bits
Frac(n, c) == (n \div c) * 10000 + ((n % c) * 10000) \div c
\* integer division that truncates towards zero
Trunc(n, m) == IF n >= 0 THEN n \div m ELSE -((-n) \div m)
SumBy(s, Op(_)) == FoldLeft(LAMBDA acc, x : acc + Op(x), 0, s)
RemoveAt2(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* insert e so that it becomes element i
InsertAt2(s, i, e) == SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Bit(n, b) == (n \div b) % 2 = 1

\* alignment bits (gopdf): 8 left, 4 top, 2 right, 1 bottom, 16 center, 32 middle
AlLeft == 8
AlTop == 4
AlRight == 2
AlBottom == 1
AlCenter == 16
AlMiddle == 32

------------------------------------------------------------------------------
(* results *)
\* "ok", the name of a documented error, "ERR" some error, "ANY" error or ok
Match(x, r) ==
  CASE x = "ERR" -> r \notin {"ok", "panic", "hang", "skip"}
    [] x = "ANY" -> r \notin {"panic", "hang", "skip"}
    [] OTHER -> r = x

------------------------------------------------------------------------------
(* fonts *)
Ch(F, f, cp) == F.fonts[f].ch[ToString(cp)]
CharWidth(F, f, cp) == (Ch(F, f, cp).a * 1000) \div F.fonts[f].upem
KernFn(k, l, r) == (((l * 7 + r * 3 + k * 5) % 11) - 5) * 40
RiseFn(k, r, idx, z) == (((r + idx + k + z) % 5) - 2) * 137
\* value of the font's own kern table for two characters
TableKern(F, f, l, r) ==
  LET key == ToString(Ch(F, f, l).g) \o " " \o ToString(Ch(F, f, r).g) IN
  IF key \in DOMAIN F.fonts[f].kern THEN F.fonts[f].kern[key] ELSE 0
\* k: 0 none, 1..99 the override k, 100 the kern table, 100 + j the kern table plus the override j
KernVal(F, f, k, l, r) ==
  IF k < 100 THEN KernFn(k, l, r) ELSE TableKern(F, f, l, r) + (IF k = 100 THEN 0 ELSE KernFn(k - 100, l, r))
KernPdf(F, f, k, l, r) == IF k = 0 THEN 0 ELSE Trunc(KernVal(F, f, k, l, r) * 1000, F.fonts[f].upem)
\* kern before character i of s
KernAt(F, f, k, s, i) == IF i = 1 THEN 0 ELSE KernPdf(F, f, k, s[i - 1], s[i])
TextUnits(F, f, k, s) ==
  FoldLeft(LAMBDA acc, i : acc + CharWidth(F, f, s[i]) + KernAt(F, f, k, s, i), 0, [i \in 1..Len(s) |-> i])
\* glyph positions, 1/1000 em, relative to the first glyph
GlyphPos(F, f, k, s) ==
  FoldLeft(LAMBDA acc, i :
             IF i = 1 THEN <<0>>
             ELSE Append(acc, acc[i - 1] + CharWidth(F, f, s[i - 1]) + KernAt(F, f, k, s, i)),
           <<>>, [i \in 1..Len(s) |-> i])
\* width in 1/10000 point
TextWidth(F, f, k, s, z) == TextUnits(F, f, k, s) * z * 10
\* only characters outside the BMP are refused when the font lacks them
Drawable(F, f, s) == \A i \in 1..Len(s) : s[i] <= 65535 \/ Ch(F, f, s[i]).in

------------------------------------------------------------------------------
(* documents *)
NoProt == [on |-> FALSE, perm |-> 0, u |-> <<>>, o |-> <<>>]
NoDoc == [open |-> FALSE, tf |-> 0, pages |-> <<>>, fonts |-> <<>>, cur |-> "", ul |-> FALSE,
          z |-> 0, border |-> FALSE, items |-> <<>>, prot |-> NoProt, gen |-> 0,
          fs |-> <<>>, tb |-> "nil", unord |-> FALSE, tie |-> FALSE]

HasFont(d, n) == \E i \in 1..Len(d.fonts) : d.fonts[i].n = n
FontOf(d, n) == d.fonts[CHOOSE i \in 1..Len(d.fonts) : d.fonts[i].n = n]
PageTop(d, p) == IF p >= 1 /\ p <= Len(d.pages) THEN Max2(d.pages[p].box[2], d.pages[p].box[4]) ELSE -1

\* opening a template: everything is fresh, only protection persists
Opened(d, tf, pages) ==
  [NoDoc EXCEPT !.open = TRUE, !.tf = tf, !.pages = pages, !.prot = d.prot, !.fs = d.fs, !.tb = d.tb]
A4 == <<0, 0, 59528, 84189>>
FreshPages(F, tf) ==
  [j \in 1..Len(F.tfs[tf].pages) |->
     [src |-> j, box |-> F.tfs[tf].pages[j].box, con |-> IF F.tfs[tf].pages[j].con THEN "y" ELSE "n",
      base |-> <<>>, sv |-> 0, at |-> j]]

Colour(c) == IF Len(c) = 3 THEN <<(c[1] * 1000) \div 255, (c[2] * 1000) \div 255, (c[3] * 1000) \div 255>> ELSE <<0, 0, 0>>

TextItem(d, o, s, y) ==
  [k |-> "t", p |-> o.p, top |-> PageTop(d, o.p), x |-> o.x, y |-> y, w |-> o.w, h |-> o.h, al |-> o.al,
   c |-> Colour(o.c), s |-> s, n |-> d.cur, f |-> FontOf(d, d.cur).f, z |-> d.z, ul |-> d.ul, bd |-> d.border,
   kk |-> 0, rr |-> 0, g |-> d.gen, wr |-> FALSE]
ImgItem(d, o) ==
  [k |-> "i", p |-> o.p, top |-> PageTop(d, o.p), x |-> o.x, y |-> o.y, w |-> o.w, h |-> o.h,
   i |-> o.i, api |-> o.api, g |-> d.gen]

\* overrides belong to the font and take effect when the document is saved
Resolve(d, it) ==
  IF it.k = "t" /\ HasFont(d, it.n)
  THEN [it EXCEPT !.kk = FontOf(d, it.n).k, !.rr = FontOf(d, it.n).r]
  ELSE it

ItemsOn(d, p) == SelectSeq(d.items, LAMBDA it : it.p = p)
(* what a save shows: pages in order with everything drawn on them *)
Shown(d) ==
  [p \in 1..Len(d.pages) |->
     [src |-> d.pages[p].src, box |-> d.pages[p].box, con |-> d.pages[p].con,
      sv |-> d.pages[p].sv, at |-> d.pages[p].at,
      its |-> d.pages[p].base \o [i \in 1..Len(ItemsOn(d, p)) |-> Resolve(d, ItemsOn(d, p)[i])]]]
(* the pages a re-opened save starts with; sv is the index of the save event *)
Baked(d, sv) ==
  LET sh == Shown(d) IN
  [p \in 1..Len(sh) |->
     [src |-> sh[p].src, box |-> sh[p].box, base |-> sh[p].its, sv |-> sv, at |-> p,
      con |-> IF sh[p].con = "n" THEN (IF Len(ItemsOn(d, p)) > 0 THEN "y" ELSE "m") ELSE sh[p].con]]

------------------------------------------------------------------------------
(* text wrapping *)
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF Len(s) > 0 /\ IsSpace(s[1]) THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF Len(s) > 0 /\ IsSpace(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
\* tokens of the text breakers the harness provides
BasicTokens(s) ==
  LET f(acc, c) == IF c = 32 THEN [toks |-> acc.toks \o <<acc.cur, <<32>>>>, cur |-> <<>>]
                   ELSE [acc EXCEPT !.cur = Append(@, c)]
      r == FoldLeft(f, [toks |-> <<>>, cur |-> <<>>], s)
  IN  IF r.cur = <<>> THEN r.toks ELSE Append(r.toks, r.cur)
Tokens(tb, s) ==
  CASE tb = "basic" -> BasicTokens(s)
    [] tb = "char" -> [i \in 1..Len(s) |-> <<s[i]>>]
    [] tb = "three" -> [i \in 1..((Len(s) + 2) \div 3) |-> SubSeq(s, 3 * i - 2, Min2(3 * i, Len(s)))]
    [] OTHER -> <<>>
\* greedy filling; tie: a width exactly equal to the limit, where floating point decides
WrapLines(F, d, s, w, tb) ==
  LET f == FontOf(d, d.cur).f
      k == FontOf(d, d.cur).k
      step(acc, tok) ==
        IF tok = <<>> THEN acc
        ELSE LET cur == acc.cur \o tok
                 tu == TextUnits(F, f, k, tok)
                 cu == IF acc.cur = <<>> THEN tu ELSE acc.u + KernPdf(F, f, k, acc.cur[Len(acc.cur)], tok[1]) + tu
                 tw == cu * d.z * 10    \* = TextWidth(F, f, k, cur, d.z)
                 tie == acc.tie \/ (tw = w * 100 /\ d.z # 125)
             IN  IF tw > w * 100
                 THEN [lines |-> IF Trim(acc.cur) # <<>> THEN Append(acc.lines, Trim(acc.cur)) ELSE acc.lines,
                       cur |-> tok, u |-> tu, tie |-> tie]
                 ELSE [lines |-> acc.lines, cur |-> cur, u |-> cu, tie |-> tie]
      r == FoldLeft(step, [lines |-> <<>>, cur |-> <<>>, u |-> 0, tie |-> FALSE], Tokens(tb, s))
  IN  [lines |-> IF Trim(r.cur) # <<>> THEN Append(r.lines, Trim(r.cur)) ELSE r.lines, tie |-> r.tie]
\* upwards shift of the block, hundredths
WrapShift(n, z, al) == IF Bit(al, AlMiddle) THEN (60 * n - 50) * z ELSE 0
WrapItems(d, o, lines) ==
  [i \in 1..Len(lines) |->
     [TextItem(d, o, lines[i], o.y + 120 * d.z * (i - 1) - WrapShift(Len(lines), d.z, o.al)) EXCEPT !.wr = TRUE]]

------------------------------------------------------------------------------
(* the calls *)
Ret(d, x) == [d |-> d, x |-> x]
ReadFaults == {"fail", "failone", "failend", "nopath"}
WriteFaults == {"fail", "short", "nodir"}

DoOpen(F, d, o, r) ==
  IF o.io \in ReadFaults \/ o.bad # "" THEN Ret(d, "ERR")
  ELSE Ret(Opened(d, o.tf, FreshPages(F, o.tf)), "ok")

DoAddFont(F, d, o, r) ==
  IF HasFont(d, o.n) THEN Ret(d, "ErrAddSameFontName")
  ELSE IF o.io \in ReadFaults \/ ~F.fonts[o.f].ok THEN Ret(d, "ERR")
  ELSE Ret([d EXCEPT !.fonts = Append(@, [n |-> o.n, f |-> o.f, k |-> 0, r |-> 0])], "ok")

DoSetFont(d, n, st, z) ==
  IF ~HasFont(d, n) THEN Ret(d, "ErrFontNameNotFound")
  ELSE Ret([d EXCEPT !.cur = n, !.ul = (st \in {"U", "u", "BU", "UI"}), !.z = z], "ok")

DoText(F, d, o) ==
  IF d.cur = "" THEN Ret(d, "ERR")
  ELSE IF ~Drawable(F, FontOf(d, d.cur).f, o.s) THEN Ret(d, "ERR")
  ELSE Ret([d EXCEPT !.items = Append(@, TextItem(d, o, o.s, o.y))], "ok")

DoWrap(F, d, o, tb) ==
  IF tb = "nil" THEN DoText(F, d, o)
  ELSE IF tb = "err" THEN Ret(d, "ERR")
  ELSE IF tb = "none" \/ Len(o.s) = 0 THEN Ret(d, IF d.cur = "" THEN "ANY" ELSE "ok")
  ELSE IF d.cur = "" THEN Ret(d, "ERR")
  ELSE IF ~Drawable(F, FontOf(d, d.cur).f, o.s) THEN Ret(d, "ERR")
  ELSE LET wl == WrapLines(F, d, o.s, o.w, tb)
       IN  Ret([d EXCEPT !.items = @ \o WrapItems(d, o, wl.lines), !.tie = @ \/ wl.tie], "ok")

DoImg(F, d, o) ==
  IF o.i \in F.bad \/ o.api = "badb64" THEN Ret(d, "ERR")
  ELSE Ret([d EXCEPT !.items = Append(@, ImgItem(d, o))], "ok")

DoRemove(d, p) ==
  IF p < 1 \/ p > Len(d.pages) THEN Ret(d, "ErrNoDesiredPageToRemove")
  ELSE Ret([d EXCEPT !.pages = RemoveAt2(@, p)], "ok")
DoKeep(d, p) ==
  IF p < 1 \/ p > Len(d.pages) THEN Ret(d, "ErrNoDesiredPageToKeep")
  ELSE Ret([d EXCEPT !.pages = <<d.pages[p]>>], "ok")
DupPos(d, pos) == IF pos < 0 THEN Len(d.pages) + pos ELSE pos
DoDup(d, p, pos, r) ==
  LET q == DupPos(d, pos) IN
  IF p < 1 \/ p > Len(d.pages) \/ q < 0 \/ q >= Len(d.pages) THEN Ret(d, "ErrNoDesiredPageToCopy")
  ELSE LET d2 == [d EXCEPT !.pages = InsertAt2(@, q + 2, d.pages[p])]
       IN  CASE d.pages[p].con = "y" -> Ret(d2, "ok")
             [] d.pages[p].con = "n" -> Ret(d, "ErrNoContentsProperty")
             [] OTHER -> Ret(IF r \in {"ok", ""} THEN d2 ELSE d, "ANY")

DoOverride(d, o, which) ==
  IF ~HasFont(d, o.n) THEN Ret(d, "ErrFontNameNotFound")
  ELSE Ret([d EXCEPT !.fonts = [i \in 1..Len(@) |-> IF @[i].n # o.n THEN @[i]
              ELSE IF which = "k" THEN [@[i] EXCEPT !.k = o.k] ELSE [@[i] EXCEPT !.r = o.k]]], "ok")

DoMeasure(F, d, o) ==
  IF d.cur = "" THEN Ret(d, "ERR")
  ELSE IF ~Drawable(F, FontOf(d, d.cur).f, o.s) THEN Ret(d, "ERR")
  ELSE Ret(d, "ok")

\* rendering by field map
HasField(d, key) == \E i \in 1..Len(d.fs) : d.fs[i].key = key
\* a later field with the same key replaces an earlier one
Field(d, key) == d.fs[CHOOSE i \in 1..Len(d.fs) : d.fs[i].key = key /\ \A j \in (i + 1)..Len(d.fs) : d.fs[j].key # key]
FieldOp(f, s) == [p |-> f.p, x |-> f.x, y |-> f.y, w |-> f.w, h |-> f.h, al |-> f.al, c |-> <<>>, s |-> s]
DoRText(F, d, o) ==
  IF ~HasField(d, o.key) THEN Ret(d, "ok")
  ELSE LET f == Field(d, o.key)
           a == DoSetFont(d, f.font, "", f.z)
       IN  IF a.x # "ok" THEN Ret(d, "ERR")
           ELSE LET b == IF f.wrap THEN DoWrap(F, a.d, FieldOp(f, o.s), d.tb) ELSE DoText(F, a.d, FieldOp(f, o.s))
                IN  Ret(b.d, IF b.x = "ok" THEN "ok" ELSE "ERR")
DoRImg(F, d, o) ==
  IF ~HasField(d, o.key) THEN Ret(d, "ok")
  ELSE LET f == Field(d, o.key)
       IN  DoImg(F, d, [p |-> f.p, x |-> f.x, y |-> f.y, w |-> f.w, h |-> f.h, i |-> o.i, api |-> o.api])
FieldKeys(d) == {d.fs[i].key : i \in 1..Len(d.fs)}
\* design view: one bordered "#key" per field, in some order (map order)
DoDesign(F, d, names) ==
  LET d1 == [d EXCEPT !.border = TRUE]
      one(dd, key) == LET f == Field(d, key) a == DoSetFont(dd, f.font, "", f.z)
                      IN  DoText(F, a.d, FieldOp(f, names[key])).d
  IN  Ret([FoldLeft(one, d1, SetToSeq(FieldKeys(d))) EXCEPT !.unord = TRUE], "ok")

\* op -> [d: next document, x: class of results]; r: the result the code returned ("" when unknown)
Step(F, d, o, r) ==
  CASE o.op = "open" -> DoOpen(F, d, o, r)
    [] o.op = "ropen" -> LET s == DoOpen(F, NoDoc, o, r) IN Ret([s.d EXCEPT !.fs = o.fs, !.tb = "nil"], s.x)
    [] o.op = "addfont" -> DoAddFont(F, d, o, r)
    [] o.op = "setfont" -> DoSetFont(d, o.n, o.st, o.z)
    [] o.op = "text" -> DoText(F, d, o)
    [] o.op = "wrap" -> DoWrap(F, d, o, o.tb)
    [] o.op = "img" -> DoImg(F, d, o)
    [] o.op = "border" -> Ret([d EXCEPT !.border = o.on], "ok")
    [] o.op = "rm" -> DoRemove(d, o.p)
    [] o.op = "keep" -> DoKeep(d, o.p)
    [] o.op = "dup" -> DoDup(d, o.p, o.pos, r)
    [] o.op = "count" -> Ret(d, "ok")
    [] o.op = "measure" -> DoMeasure(F, d, o)
    [] o.op = "kern" -> DoOverride(d, o, "k")
    [] o.op = "rise" -> DoOverride(d, o, "r")
    [] o.op = "prot" -> Ret([d EXCEPT !.prot = [on |-> TRUE, perm |-> o.perm, u |-> o.u, o |-> o.o]], "ok")
    [] o.op = "save" -> Ret(d, IF o.io \in WriteFaults THEN "ERR" ELSE "ok")
    [] o.op = "rtext" -> DoRText(F, d, o)
    [] o.op = "rimg" -> DoRImg(F, d, o)
    [] o.op = "rbreak" -> Ret([d EXCEPT !.tb = o.tb], "ok")
    [] o.op = "rdesign" -> DoDesign(F, d, o.names)
\* re-opening a save of this scenario; s.pages: Baked(...) of the saved document, s.enc: it was protected (it can not be
\* edited: refused, like every file that can not be read)
Reopen(d, o, s) ==
  IF o.io \in ReadFaults \/ s.enc THEN Ret(d, "ERR")
  ELSE Ret([Opened(d, s.tf, s.pages) EXCEPT !.gen = o.sv], "ok")
=============================================================================
