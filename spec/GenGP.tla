-------------------------------- MODULE GenGP --------------------------------
(* Scenarios for the bundled writer: random walks of GoPdf.tla.             *)
EXTENDS GoPdf, Json, IOUtils
VAR == IOEnv.VAR
VARIABLES ph, n, cal, que, ops, g
vars == <<ph, n, cal, que, ops, g>>
R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Prob(a, b) == RandomElement(1..b) <= a
RSeq(k, Op(_)) == FoldLeft(LAMBDA a, j : Append(a, Op(j)), <<>>, [j \in 1..k |-> j])

Pool == <<65, 66, 67, 86, 32, 97, 98, 119, 46, 48, 40, 92, 233, 232, 3585, 3656, 20013, 192, 193, 194, 128512, 128513, 1114109, 35, 126>>
PoolSet == Set(Pool) \cup (32..126) \cup {128514}
PCh == [c \in {ToString(x) : x \in PoolSet} |-> [g |-> 1, in |-> c \notin {"128512", "128513", "1114109", "128514"}, o |-> "", a |-> 500, l |-> 0]]
PFont(k) == [ok |-> k \notin {"bad0", "bad1", "bad2", "bad3"}, upem |-> 1000, typoa |-> 800, typod |-> -200, up |-> -100, ut |-> 50, ch |-> PCh, kern |-> [x \in {} |-> 0]]
FontKeys == {"A", "B", "C", "D", "bad0", "bad1", "bad2", "bad3"}
Imgs0 == <<"g8", "rgb", "rgba", "rgba2", "ga", "ix", "ixt", "jp", "jg", "jc">>
F == [fonts |-> [k \in FontKeys |-> PFont(k)], imgsz |-> [k \in Set(Imgs0) |-> <<9, 9>>], bad |-> {"junk", "junk0", "junkp", "p16", "il"}]

Coord(x) == Pick(<<0, 100, 1234, 5000, 10050, 20075, 33333, 50000, -300>>)
Size(x) == Pick(<<0, 50, 500, 1200, 2000, 10000, 15025, 30000>>)
SizeNZ(x) == Pick(<<50, 500, 1200, 2000, 10000, 15025, 30000>>)
Col(x) == Pick(<<<<0, 0, 0>>, <<0, 0, 0>>, <<255, 255, 255>>, <<255, 0, 0>>, <<1, 2, 3>>, <<128, 64, 32>>, <<0, 0, 200>>, <<0, 7, 0>>, <<255, 1, 0>>, <<R(0..255), R(0..255), R(0..255)>>>>)
Str(x) == RSeq(IF Prob(1, 10) THEN R(20..40) ELSE R(0..7), LAMBDA j : IF Prob(1, 3) THEN Pick(SubSeq(Pool, 1, IF Prob(1, 20) THEN 23 ELSE 16)) ELSE R(65..90))
BmpStr(x) == RSeq(IF Prob(1, 10) THEN R(20..40) ELSE R(1..7), LAMBDA j : IF Prob(1, 3) THEN Pick(SubSeq(Pool, 1, 16)) ELSE R(65..90))
Sizes == <<<<59528, 84189>>, <<61200, 79200>>, <<30000, 40050>>, <<84189, 59528>>, <<10000, 20000>>>>
Styles == <<"", "", "", "U", "u", "B", "I", "BU", "BI">>
Pass(x) == Pick(<<<<>>, <<117>>, <<117, 115, 101, 114>>, <<111, 119, 110>>, <<40, 41, 92>>, <<200, 0, 255>>>>)
Align(x) == Pick(<<0, 12, 8, 4, 2, 1, 16, 32, 48, 18, 33, 34, 17, 5, 63, 20, 40>>)

OStart(x) == LET b == Pick(Sizes) p == Prob(1, 4) IN
  [op |-> "gstart", w |-> b[1], h |-> b[2], on |-> p, perm |-> IF p THEN 4 * R(0..1) + 8 * R(0..1) + 16 * R(0..1) + 32 * R(0..1) ELSE 0,
   u |-> IF p THEN Pass(1) ELSE <<>>, o |-> IF p THEN Pass(1) ELSE <<>>]
OPage(x) == LET b == Pick(Sizes) IN IF Prob(1, 2) THEN [op |-> "page", w |-> 0, h |-> 0] ELSE [op |-> "page", w |-> b[1], h |-> b[2]]
OFont(x) == [op |-> "gfont", n |-> Pick(<<"a", "b", "c">>), f |-> Pick(<<"A", "B", "C", "D">>), st |-> Pick(<<"", "", "", "B", "I", "BI">>), io |-> Pick(<<"", "", "path", "one", "opt">>), uk |-> Prob(2, 5)]
\* kern override: only before the font is drawn with
OKern(m) == [op |-> "gkern", n |-> IF Prob(1, 8) THEN "zz" ELSE m, k |-> R(1..9)]
FontK(x) == LET o == OFont(1) IN IF \E j \in 1..Len(g.fonts) : g.fonts[j].n = o.n THEN <<o>> ELSE <<o>> \o (IF Prob(1, 2) THEN <<OKern(o.n)>> ELSE <<>>)
OBadFont(x) == [OFont(1) EXCEPT !.f = Pick(<<"bad0", "bad1", "bad2", "bad3", "A">>), !.io = Pick(<<"", "nopath", "failend">>)]
OSet(x) == LET f == g.fonts[R(1..Len(g.fonts))] IN
  [op |-> "gset", n |-> IF Prob(1, 12) THEN "zz" ELSE f.n,
   st |-> IF Prob(1, 12) THEN Pick(Styles) ELSE CASE f.st = "" -> Pick(<<"", "", "U", "u">>) [] f.st = "B" -> Pick(<<"B", "BU", "b">>) [] f.st = "I" -> Pick(<<"I", "IU", "i">>) [] OTHER -> Pick(<<"BI", "IB">>),
   z |-> Pick(<<12, 8, 30, 9, 72, 1, 11>>)]
OBadImg(x) == [op |-> "gimg", i |-> Pick(<<"junk", "junk0", "junkp", "p16", "il">>), api |-> Pick(<<"bytes", "path", "reader">>), x |-> 0, y |-> 0, w |-> 100, h |-> 100]
OImg(x) ==
  LET o == [op |-> "gimg", i |-> Pick(Imgs0), api |-> Pick(<<"bytes", "path", "reader">>), x |-> Coord(1), y |-> Coord(1), w |-> SizeNZ(1), h |-> SizeNZ(1)]
  IN  IF ImgId(o) \notin Set(g.imgs) /\ Prob(1, 3) THEN [o EXCEPT !.w = 0, !.h = 0] ELSE o
OCell(x) ==
  LET m == Prob(1, 3) IN
  [op |-> "gcell", rect |-> Prob(2, 3), w |-> Size(1), h |-> Size(1), s |-> Str(1), plain |-> m,
   al |-> IF m THEN 12 ELSE Align(1), bd |-> IF m THEN 0 ELSE Pick(<<0, 0, 15, 8, 4, 2, 1, 5, 10>>), fl |-> IF m THEN 2 ELSE Pick(<<0, 2, 1, 3, 8>>)]
TextSeq(x) == \* several strings in a row, sometimes with the cursor moved in between
  FoldLeft(LAMBDA a, j : a \o <<[op |-> "gtext", s |-> BmpStr(1)]>> \o
              (IF Prob(1, 4) THEN <<Pick(<<[op |-> "br", v |-> 0], [op |-> "y", v |-> Coord(1)], [op |-> "tcol", c |-> Col(1)], [op |-> "x", v |-> 5000], [op |-> "br", v |-> 1200], [op |-> "lw", v |-> 200]>>)>> ELSE <<>>),
           <<>>, [j \in 1..R(2..4) |-> j])
OLine(x) == [op |-> "line", x |-> Coord(1), y |-> Coord(1), x2 |-> Coord(1), y2 |-> Coord(1)]
ORect(x) == [op |-> "rect", ul |-> Prob(1, 2), st |-> Pick(<<"", "D", "F", "DF", "FD">>), x |-> Coord(1), y |-> Coord(1), w |-> SizeNZ(1), h |-> SizeNZ(1), plain |-> Prob(1, 3)]
Info(x) == [op |-> "info", t |-> IF Prob(1, 2) THEN BmpStr(1) ELSE <<>>, a |-> Str(1), s |-> IF Prob(1, 2) THEN BmpStr(1) ELSE <<>>, c |-> IF Prob(1, 2) THEN <<40, 41, 92, 233>> ELSE <<>>, p |-> IF Prob(1, 2) THEN <<128512, 65>> ELSE <<>>, d |-> Prob(1, 2)]
Mode(x) == Pick(<<"bytes", "err", "path", "read", "readone">>)
Call(kind) ==
  CASE kind = "page" -> <<OPage(1)>>
    [] kind = "font" -> FontK(1)
    [] kind = "badfont" -> <<OBadFont(1)>>
    [] kind = "set" -> <<OSet(1)>>
    [] kind = "x" -> <<[op |-> "x", v |-> Coord(1)]>>
    [] kind = "y" -> <<[op |-> "y", v |-> Coord(1)]>>
    [] kind = "br" -> <<[op |-> "br", v |-> Size(1)]>>
    [] kind = "margin" -> <<[op |-> Pick(<<"lm", "tm">>), v |-> Coord(1)]>>
    [] kind = "text" -> <<[op |-> "gtext", s |-> Str(1)]>>
    [] kind = "texts" -> TextSeq(1)
    [] kind = "cell" -> <<OCell(1)>>
    [] kind = "cells" -> <<OCell(1), OCell(1)>>
    [] kind = "mix" -> <<[op |-> "gtext", s |-> BmpStr(1)], OCell(1), [op |-> "gtext", s |-> BmpStr(1)]>>
    [] kind = "line" -> <<OLine(1)>>
    [] kind = "rect" -> <<LET o == ORect(1) IN IF o.plain THEN [o EXCEPT !.st = ""] ELSE o>>
    [] kind = "oval" -> <<[OLine(1) EXCEPT !.op = "oval"]>>
    [] kind = "curve" -> <<[op |-> "curve", c |-> RSeq(8, Coord), st |-> Pick(<<"", "D", "F", "DF", "FD">>), sp |-> Pick(<<"", " ", "l">>)]>>
    [] kind = "gray" -> <<[op |-> Pick(<<"gfill", "gstroke">>), v |-> Pick(<<0, 50, 100, 33, -10, 170, 7>>)]>>
    [] kind = "colour" -> <<[op |-> Pick(<<"cfill", "cstroke", "tcol", "tcol">>), c |-> Col(1)]>>
    [] kind = "lw" -> <<[op |-> "lw", v |-> Pick(<<0, 50, 100, 333, 1000>>)]>>
    [] kind = "lt" -> <<[op |-> "lt", t |-> Pick(<<"dashed", "dotted", "solid", "">>)]>>
    [] kind = "img" -> <<OImg(1)>>
    [] kind = "imgs" -> RSeq(R(6..14), LAMBDA j : [OImg(1) EXCEPT !.w = SizeNZ(1), !.h = SizeNZ(1)])
    [] kind = "fonts" -> FoldLeft(LAMBDA a, j : a \o <<[OFont(1) EXCEPT !.n = "f" \o ToString(j), !.st = ""], [op |-> "gset", n |-> "f" \o ToString(j), st |-> "", z |-> 10 + j],
                                                     [op |-> "gtext", s |-> BmpStr(1)]>>, <<>>, [j \in 1..R(6..12) |-> j])
    [] kind = "pages" -> FoldLeft(LAMBDA a, j : a \o <<OPage(1), Pick(<<[op |-> "gtext", s |-> BmpStr(1)], OLine(1)>>)>>, <<>>, [j \in 1..R(6..12) |-> j])
    [] kind = "badimg" -> <<OBadImg(1)>>
    [] kind = "meas" -> <<[op |-> "gmeas", s |-> Str(1)]>>
    [] kind = "info" -> <<Info(1)>>
    [] kind = "compress" -> <<[op |-> "compress", v |-> Pick(<<-2, -1, 0, 1, 9, 0, 6>>), none |-> Prob(1, 4)]>>
    [] kind = "write" -> <<[op |-> "write", io |-> Mode(1)]>>
Kinds == <<"page", "page", "font", "badfont", "set", "set", "x", "y", "br", "margin", "text", "text", "texts", "texts", "cell", "cell", "cells", "mix", "mix", "line", "rect", "rect",
           "oval", "curve", "gray", "colour", "colour", "colour", "lw", "lt", "img", "img", "img", "badimg", "meas", "info", "compress", "write", "write">>
Kind(x) == IF Prob(1, 60) THEN Pick(<<"imgs", "fonts", "pages">>) ELSE Pick(Kinds)
None == [op |-> "none"]
Init == ph = 0 /\ n = 0 /\ cal = None /\ que = <<>> /\ ops = <<>> /\ g = NoGP
Idle == cal.op = "none" /\ que = <<>>
Start == /\ ph = 0 /\ Idle /\ ph' = 1
         /\ que' = <<OStart(1)>> \o <<[OFont(1) EXCEPT !.n = "a"]>> \o (IF Prob(1, 4) THEN <<OKern("a")>> ELSE <<>>) \o (IF Prob(1, 2) THEN <<OFont(1)>> ELSE <<>>) \o <<OPage(1)>>
         /\ UNCHANGED <<n, cal, ops, g>>
First == /\ ph = 1 /\ Idle /\ ph' = 2 /\ que' = <<OSet(1)>> /\ UNCHANGED <<n, cal, ops, g>>
\* the first font must be set before the walk begins
Again == /\ ph = 2 /\ Idle /\ g.cur = 0 /\ que' = <<OSet(1)>> /\ UNCHANGED <<ph, n, cal, ops, g>>
Walk == /\ ph = 2 /\ Idle /\ g.cur # 0 /\ n < 22 /\ n' = n + 1 /\ que' = Call(Kind(1)) /\ UNCHANGED <<ph, cal, ops, g>>
End == /\ ph = 2 /\ Idle /\ g.cur # 0 /\ n >= 22 /\ ph' = 3 /\ que' = <<[op |-> "write", io |-> Mode(1)], [op |-> "write", io |-> Mode(1)]>> /\ UNCHANGED <<n, cal, ops, g>>
Deq == /\ cal.op = "none" /\ que # <<>> /\ cal' = Head(que) /\ que' = Tail(que) /\ UNCHANGED <<ph, n, ops, g>>
Do == /\ cal.op # "none" /\ g' = GStep(F, g, cal).d /\ ops' = Append(ops, cal) /\ cal' = None /\ UNCHANGED <<ph, n, que>>
Finish == /\ ph = 3 /\ Idle /\ PrintT("@@" \o ToJson([par |-> FALSE, ops |-> <<>>, gp |-> ops])) /\ ph' = 4 /\ UNCHANGED <<n, cal, que, ops, g>>
Next == Start \/ First \/ Again \/ Walk \/ End \/ Deq \/ Do \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
