--------------------------------- MODULE Gen ---------------------------------
(* Generation of scenarios: random walks of the model (Pdft.tla), printed   *)
(* as JSON and executed on the real code by the harness.  The property the  *)
(* scenarios are for decides the mix of calls, templates and the shape of   *)
(* the scenario (second documents to compare with).                         *)
(* Run with -simulate; RandomElement is driven by the seed.                 *)
EXTENDS Pdft, Json, IOUtils

FAM == IOEnv.FAM                       \* property id
VAR == IOEnv.VAR                       \* variant of the family ("" or e.g. "race")
VARIABLES ph, n, cal, que, ops, xs, docs, svm, todo
vars == <<ph, n, cal, que, ops, xs, docs, svm, todo>>

R(S) == RandomElement(S)
Pick(s) == s[RandomElement(1..Len(s))]
Prob(a, b) == RandomElement(1..b) <= a
RSeq(k, Op(_)) == FoldLeft(LAMBDA a, j : Append(a, Op(j)), <<>>, [j \in 1..k |-> j])

------------------------------------------------------------------------------
(* templates *)
Boxes == <<<<59500, 84200>>, <<61200, 79200>>, <<84189, 59528>>, <<30050, 40025>>, <<10000, 20000>>, <<150000, 250000>>>>
FontNames == <<<<>>, <<"F1">>, <<"F1", "TT0">>, <<"F2", "F1", "F10">>, <<"R7">>, <<"F0", "F3", "F4">>, <<"F#31", "F2">>, <<"F1#30">>, <<"F120", "F3">>>>
XNames == <<<<>>, <<"I1">>, <<"I1", "Im0">>, <<"X1", "I2", "I3">>, <<"I0">>, <<"Im1", "Fm0">>, <<"I#31", "#492">>, <<"I#32#30", "I19">>, <<"I120">>>>

Strs == <<"(a)", "(a(b)c)", "(\\))", "(\\()", "(a\\\\)", "(>>)", "(<<)", "([)", "(])", "(/Font 1 0 R)", "()", "( endobj )",
          "(stream)", "(%x)", "(\\050\\0051)", "(a\nb)", "(a\\\nb)", "(/Contents 1)", "(\t  two  spaces )", "(<)", "(>)", "(/)", "(R)",
          "(\\n\\r\\t\\b\\f)", "(a\r\nb)", "(\r)", "(\\7\\53x)", "(\\q)", "(a\\\r\nb)", "(a\\\rb)", "(\\0)", "(\\1234)">>
Hexs == <<"<>", "<48 65>", "<3E3E>", "<48656>", "<28>", "< 4\n8 >", "<2F466F6E74>">>
Names == <<"/A", "/A#20B", "/a.b", "/A+B-C", "/#2F#28", "/Font", "/Contents", "/MediaBox", "/1", "/x_y*z", "/Type0">>
Nums == <<"0", "-1", "+3", ".5", "-.25", "1.", "007", "3.14159", "123456789", "true", "false">>
RECURSIVE Val(_)
Val(dep) ==
  LET m == R(1..(IF dep = 0 THEN 4 ELSE 7)) IN
  CASE m = 1 -> Pick(Strs)
    [] m = 2 -> Pick(Hexs)
    [] m = 3 -> Pick(Names)
    [] m = 4 -> Pick(Nums)
    [] m = 5 -> Pick(<<"[", "[ ", "[\n">>) \o Val(dep - 1) \o Pick(<<" ", "\n", "  ", "\t">>) \o Val(dep - 1) \o Pick(<<"]", " ]">>)
    [] m = 6 -> Pick(<<"<<", "<< ", "<<\n">>) \o "/K1" \o Pick(<<" ", "\n", "\t ">>) \o Val(dep - 1) \o Pick(<<" ", "\n", "">>) \o "/K2" \o Pick(<<" ", "  ">>) \o Val(dep - 1) \o Pick(<<">>", " >>", "\n>>">>)
    [] m = 7 -> Pick(<<"[]", "[ ]", "<<>>", "<< >>", "[[]]", "[<<>>]", "[/A/B]", "[(a)(b)]", "[1 0 R]", "<</A/B>>", "<</A(x)/B<41>>>", "[<41><42>]", "<</A[1]/B<</C 1>>>>">>)
Delim(v) == SubSeq(v, 1, 1) \in {"(", "<", "[", "/"}
\* raw entry; the separator before the value is optional when the value starts with a delimiter
KeyNames == <<"Xk", "X.", "A#42", "VeryLongKeyNameWithManyCharacters", "Font2", "ContentsX", "X-1", "Kids2", "x">>
Entry(j) ==
  LET v == Val(2) IN
  Pick(<<"/", " /", "\n/">>) \o Pick(KeyNames) \o ToString(j) \o
    (IF Prob(1, 2) THEN Pick(<<" ", "\n", "\t", "  \r\n", " %c\n">>) ELSE IF Delim(v) THEN "" ELSE " ") \o v \o Pick(<<"", " ", "\n">>)
Ents(x, most) == RSeq(R(0..most), LAMBDA j : Entry(j))

PageDesc(x) ==
  LET b == Pick(Boxes)
      rich == FAM \in {"P02", "P22", "P01", "P16"}
  IN [w |-> b[1], h |-> b[2], lly |-> IF Prob(1, 8) THEN Pick(<<5000, -3050>>) ELSE 0,
      llx |-> IF Prob(1, 12) THEN Pick(<<2500, -1050>>) ELSE 0, swap |-> Prob(1, 20), rot |-> IF Prob(1, 8) THEN Pick(<<"page", "inh">>) ELSE "",
      crop |-> IF Prob(1, 10) THEN "inh" ELSE "",
      mb |-> Pick(<<"page", "page", "inh", "ind">>),
      res |-> Pick(<<"inline", "inline", "ind", "shared", "inh", "none">>),
      fd |-> Pick(<<"inline", "ind", "none", "inline">>),
      xd |-> Pick(<<"inline", "ind", "none", "inline">>),
      fonts |-> Pick(FontNames), xobjs |-> Pick(XNames),
      con |-> Pick(<<"one", "one", "one", "arr", "arr1", "indarr", "arr5", "shared", "empty", "none", "arr0">>),
      filt |-> Pick(<<"flate", "", "flate", "array", "hex", "hexflate">>),
      state |-> Pick(<<"bal", "bal", "cm", "color", "clip", "text", "q", "sp">>),
      extra |-> RSeq(R(0..3), LAMBDA j : 4 * (j - 1) + R(0..3)),
      ent |-> IF FAM = "P22" THEN Ents(x, 4) ELSE IF rich /\ Prob(1, 4) THEN Ents(x, 2) ELSE <<>>,
      rent |-> IF FAM = "P22" THEN Ents(x, 2) ELSE <<>>]
Files == <<<<"pdf_from_docx.pdf", 1>>>>
Template(x) ==
  LET np == IF Prob(1, 80) THEN R(25..40) ELSE IF Prob(1, 15) THEN R(10..13) ELSE IF FAM \in {"P10", "P11", "P12"} THEN R(1..5) ELSE R(1..4) IN
  [file |-> "", tree |-> Pick(<<"flat", "nested", "deep", "mixed", "flat", "nested", "deep", "mixed", "hollow">>), pages |-> RSeq(np, PageDesc),
   ids |-> Pick(<<"seq", "gap", "rev">>), eol |-> Pick(<<"n", "rn", "r">>), inc |-> Prob(1, 5), upd |-> Pick(<<"", "", "gen", "root", "multi", "more", "free">>), lenind |-> Prob(1, 4),
   info |-> Prob(1, 2), outl |-> Prob(1, 3), sty |-> R(0..3), ord |-> R(0..4), bin |-> Prob(1, 3),
   huge |-> IF Prob(1, 40) THEN 5000 ELSE 0,
   base |-> IF FAM = "P16" /\ Prob(1, 6) THEN Pick(<<300, 300, 300, 300, 66000>>) ELSE IF Prob(1, 40) THEN 300 ELSE 0, gens |-> Prob(1, 6), xeol |-> Pick(<<"", "", "", "rn", "r">>), subs |-> Prob(1, 5), skw |-> Pick(<<"", "", "rn">>), noeol |-> Prob(1, 8), top |-> Pick(<<"", "", "root", "decoy">>), kind |-> Pick(<<"", "", "", "", "", "", "kids", "count">>), lin |-> Prob(1, 8),
   bad |-> "", nent |-> IF FAM = "P22" THEN Ents(x, 2) ELSE <<>>]
FileTemplate(f) ==
  [file |-> f[1], tree |-> "", pages |-> <<>>, ids |-> "", eol |-> "", inc |-> FALSE, upd |-> "", lenind |-> FALSE, info |-> FALSE,
   outl |-> FALSE, sty |-> 0, ord |-> 0, bin |-> FALSE, huge |-> 0, base |-> 0, gens |-> FALSE, xeol |-> "", subs |-> FALSE, skw |-> "", noeol |-> FALSE, top |-> "", kind |-> "", lin |-> FALSE, bad |-> "", nent |-> <<>>]
RepoFiles == <<<<"pdf_from_docx.pdf", 1>>, <<"pdf_from_docx_with_f.pdf", 4>>, <<"pdf_from_gopdf.pdf", 1>>, <<"pdf_from_rdlc.pdf", 3>>,
  <<"pdf_from_word2010.pdf", 2>>, <<"pdf_from_word2013.pdf", 1>>, <<"pdf_from_word2013_b.pdf", 1>>>>

NPages(t) == IF t.file = "" THEN Len(t.pages) ELSE RepoFiles[CHOOSE j \in 1..Len(RepoFiles) : RepoFiles[j][1] = t.file][2]
\* the generator's own facts about what it made
PFacts(t, np) ==
  IF t.file = "" THEN [j \in 1..Len(t.pages) |-> [box |-> LET q == t.pages[j] IN IF q.swap THEN <<q.w, q.h, q.llx, q.lly>> ELSE <<q.llx, q.lly, q.w, q.h>>, con |-> t.pages[j].con # "none"]]
  ELSE [j \in 1..np |-> [box |-> A4, con |-> TRUE]]
Blanks == <<9, 10, 13, 133, 160, 5760, 8192, 8203, 8232, 8239, 8287, 12288>>
Pool == <<65, 66, 67, 86, 32, 97, 98, 119, 46, 48, 40, 92, 233, 232, 3585, 3656, 20013, 192, 193, 194, 128512, 128513, 1114109, 35, 126>> \o Blanks
CJK == 19968..20567                \* the characters of font E
PoolSet == Set(Pool) \cup CJK \cup (32..126) \cup Set(Blanks) \cup {128514, 65533, 65534, 65536}
PCh == [c \in {ToString(x) : x \in PoolSet} |-> [g |-> 1, in |-> TRUE, o |-> "", a |-> 500, l |-> 0]]
PFont(k) ==
  [ok |-> k \notin {"bad0", "bad1", "bad2", "bad3"}, upem |-> 1000,
   ch |-> [c \in DOMAIN PCh |-> [PCh[c] EXCEPT !.in = (k = "B" \/ c \notin {"128512", "128513", "1114109", "128514", "65536"}) /\ c \notin {"128514", "65536"}]]]
FontKeys == {"A", "B", "C", "D", "E", "bad0", "bad1", "bad2", "bad3", "ttf:test/ttf/Loma.ttf", "ttf:test/ttf/angsa.ttf"} \cup {"r" \o ToString(j) : j \in 1..60}
F == [tfs |-> [j \in 1..Len(todo.tfs) |-> [pages |-> todo.tfs[j]]], fonts |-> [k \in FontKeys |-> PFont(k)],
      bad |-> {"junk", "junk0", "junkp", "p16", "il"} \cup {"bad" \o ToString(j) : j \in 1..60}]

------------------------------------------------------------------------------
(* single calls for document number di whose model state is d *)
Coord(x) == Pick(<<0, 100, 1234, 5000, 10050, 20075, 33333, 50000, 71999, -1234, 99999>>)
Size(x) == Pick(<<0, 50, 500, 1200, 2000, 10000, 15025, 30000>>)
SizeNZ(x) == Pick(<<50, 500, 1200, 2000, 10000, 15025, 30000>>)
Align(x) == Pick(<<0, 12, 8, 4, 2, 1, 16, 32, 48, 18, 33, 34, 17, 24, 5, 63, 20, 40>>)
Col(x) == Pick(<<<<>>, <<>>, <<0, 0, 0>>, <<255, 255, 255>>, <<255, 0, 0>>, <<1, 2, 3>>, <<128, 64, 32>>, <<0, 0, 200>>, <<254, 127, 129>>, <<255, 1, 0>>, <<R(0..255), R(0..255), R(0..255)>>>>)
Str(x) == RSeq(R(0..7), LAMBDA j : IF Prob(1, 3) THEN Pick(Pool) ELSE R(65..90))
BmpStr(x) == RSeq(R(1..7), LAMBDA j : IF Prob(1, 3) THEN (IF Prob(1, 8) THEN Pick(Blanks) ELSE Pick(SubSeq(Pool, 1, 16))) ELSE R(65..90))
\* mostly strings the current font has
Text(d) == IF d.cur # "" /\ FontOf(d, d.cur).f = "E" /\ Prob(3, 4)
           THEN (IF Prob(1, 4) THEN RSeq(R(60..130), LAMBDA j : R(CJK)) ELSE RSeq(R(1..7), LAMBDA j : IF Prob(1, 2) THEN R(CJK) ELSE R(65..90)))
           ELSE IF Prob(1, 60) THEN RSeq(R(200..300), LAMBDA j : R(32..126))
           ELSE IF Prob(1, 16) THEN RSeq(R(20..60), LAMBDA j : R(32..126))
           ELSE IF d.cur # "" /\ FontOf(d, d.cur).f # "B" THEN BmpStr(1) ELSE Str(1)
Words(x) == FoldLeft(LAMBDA a, j : a \o RSeq(R(1..5), LAMBDA q : R(97..122)) \o (IF Prob(4, 5) THEN <<32>> ELSE Pick(<<<<32, 32>>, <<>>, <<Pick(Blanks)>>, <<32, Pick(Blanks)>>, <<Pick(Blanks), 32>>>>)),
                     IF Prob(1, 6) THEN <<32>> ELSE <<>>, [j \in 1..(IF Prob(1, 15) THEN R(20..40) ELSE R(0..7)) |-> j])
PageNo(d) == IF Prob(9, 10) /\ Len(d.pages) > 0 THEN R(1..Len(d.pages)) ELSE Pick(<<0, -1, Len(d.pages) + 1, Len(d.pages) + 2>>)
AnyPageNo(d) == IF Prob(4, 5) /\ Len(d.pages) > 0 THEN R(1..Len(d.pages)) ELSE Pick(<<0, -1, Len(d.pages) + 1, 99, -99>>)
FontSizes == <<12, 8, 30, 9, 72, 1, 11, 200>>
Styles == <<"", "", "U", "u", "B", "BU">>
FName(d) == IF Len(d.fonts) > 0 /\ Prob(12, 13) THEN d.fonts[R(1..Len(d.fonts))].n ELSE "nofont"
ImgKeys == <<"g8", "rgb", "rgba", "rgba2", "ga", "ix", "ixt", "jp", "jg", "jc">>

OText(d, di) == [op |-> "text", d |-> di, p |-> PageNo(d), x |-> Coord(1), y |-> Coord(1), w |-> Size(1), h |-> Size(1), al |-> Align(1), c |-> Col(1), s |-> Text(d)]
OWrap(d, di) == [op |-> "wrap", d |-> di, p |-> PageNo(d), x |-> Coord(1), y |-> Coord(1), w |-> Pick(<<0, 501, 2003, 5007, 7013, 10011, 30017>>), h |-> Size(1),
                 al |-> Align(1), c |-> Col(1), s |-> Words(1), tb |-> Pick(<<"basic", "basic", "basic", "char", "three", "nil", "none">>)]
OImg(d, di) == [op |-> "img", d |-> di, i |-> Pick(ImgKeys), api |-> Pick(<<"raw", "b64", "cache", "cache">>), p |-> PageNo(d),
                x |-> Coord(1), y |-> Coord(1), w |-> SizeNZ(1), h |-> SizeNZ(1)]
OAddFont(d, di) == [op |-> "addfont", d |-> di, n |-> Pick(<<"a", "b", "My Font", "a(b)#1/x">>), f |-> Pick(<<"A", "B", "C", "D", "A", "B", "C", "D", "E">>), io |-> ""]
OSetFont(d, di) == [op |-> "setfont", d |-> di, n |-> FName(d), st |-> Pick(Styles), z |-> Pick(FontSizes)]
OBorder(d, di) == [op |-> "border", d |-> di, on |-> Prob(1, 2)]
ORm(d, di) == [op |-> "rm", d |-> di, p |-> AnyPageNo(d)]
OKeep(d, di) == [op |-> "keep", d |-> di, p |-> AnyPageNo(d)]
ODup(d, di) == [op |-> "dup", d |-> di, p |-> AnyPageNo(d), pos |-> R((-Len(d.pages) - 1)..(Len(d.pages)))]
OCount(d, di) == [op |-> "count", d |-> di]
OMeasure(d, di) == [op |-> "measure", d |-> di, s |-> Text(d)]
OKern(d, di) == [op |-> "kern", d |-> di, n |-> FName(d), k |-> R(1..4)]
ORise(d, di) == [op |-> "rise", d |-> di, n |-> FName(d), k |-> R(1..4)]
Pass(x) == Pick(<<<<>>, <<117>>, <<117, 115, 101, 114>>, <<111, 119, 110>>, <<40, 41, 92>>, <<200, 0, 255>>,
                  RSeq(32, LAMBDA j : 60 + j), RSeq(40, LAMBDA j : 50 + j), RSeq(31, LAMBDA j : 64 + j)>>)
OProt(d, di) == [op |-> "prot", d |-> di, perm |-> 4 * R(0..1) + 8 * R(0..1) + 16 * R(0..1) + 32 * R(0..1), u |-> Pass(1), o |-> Pass(1)]
OSave(d, di) == [op |-> "save", d |-> di, io |-> "", cmp |-> 0, at |-> 0]
\* calls that must fail
OBadOpen(d, di) == LET b == Pick(<<"empty", "text", "half", "noroot", "nopages", "xrefstm", "enc">>) IN
  [op |-> "open", d |-> di, io |-> "", at |-> 0, tf |-> 1, bad |-> b, t |-> [Template(1) EXCEPT !.bad = b, !.inc = FALSE, !.bin = FALSE, !.lin = FALSE]]
Fail(d, di) ==
  LET m == R(1..17) IN
  CASE m >= 16 -> OBadOpen(d, di)
    [] m = 1 -> [OAddFont(d, di) EXCEPT !.f = Pick(<<"bad0", "bad1", "bad2", "bad3">>), !.n = "zz"]
    [] m = 2 -> IF Len(d.fonts) > 0 THEN [OAddFont(d, di) EXCEPT !.n = d.fonts[R(1..Len(d.fonts))].n] ELSE OCount(d, di)
    [] m = 3 -> [OSetFont(d, di) EXCEPT !.n = Pick(<<"nofont", "zz">>)]
    [] m = 4 -> [OText(d, di) EXCEPT !.s = <<65, 66, 67, 128514, 68>>]
    [] m = 5 -> [OMeasure(d, di) EXCEPT !.s = <<88, 89, 128514>>]
    [] m = 6 -> [ORm(d, di) EXCEPT !.p = Pick(<<0, -1, Len(d.pages) + 1>>)]
    [] m = 7 -> [OKeep(d, di) EXCEPT !.p = Pick(<<0, -1, Len(d.pages) + 1>>)]
    [] m = 8 -> [ODup(d, di) EXCEPT !.p = Pick(<<0, -1, Len(d.pages) + 1>>)]
    [] m = 9 -> [ODup(d, di) EXCEPT !.p = R(1..Max2(1, Len(d.pages))), !.pos = Pick(<<Len(d.pages), -Len(d.pages) - 1, 99>>)]
    [] m = 10 -> [OImg(d, di) EXCEPT !.i = Pick(<<"junk", "junk0", "junkp", "p16", "il">>)]
    [] m = 11 -> [OImg(d, di) EXCEPT !.api = "badb64"]
    [] m = 12 -> [OWrap(d, di) EXCEPT !.tb = "err"]
    [] m = 13 -> [OWrap(d, di) EXCEPT !.tb = Pick(<<"basic", "char">>), !.s = <<97, 98, 99, 32, 97, 97, 97, 32, 128514, 32, 98>>, !.w = 501]
    [] m = 14 -> [OKern(d, di) EXCEPT !.n = "nofont"]
    [] m = 15 -> [ORise(d, di) EXCEPT !.n = "nofont"]

Kinds ==
  CASE FAM = "P01" -> <<"text", "text", "img", "rm", "dup", "keep", "border", "setfont", "kern", "prot", "save", "wrap", "addfont", "measure">>
    [] FAM \in {"P02", "P22"} -> <<"text", "text", "img", "img", "rm", "dup", "keep", "dup", "save", "addfont">>
    [] FAM = "P03" -> <<"text", "text", "text", "img", "img", "rm", "dup", "keep", "border", "setfont", "save", "wrap", "count">>
    [] FAM = "P04" -> <<"text", "text", "text", "text", "setfont", "setfont", "addfont", "border", "img", "rise", "kern", "wrap", "dup", "save", "measure">>
    [] FAM = "P05" -> <<"text", "text", "text", "text", "setfont", "setfont", "kern", "dup", "rm", "img", "border">>
    [] FAM = "P06" -> <<"text", "text", "text", "setfont", "setfont", "border", "border", "kern", "rise", "img", "save", "wrap">>
    [] FAM = "P07" -> <<"ftext", "ftext", "ftext", "ftext", "setfont", "setfont", "ffont", "text", "dup", "save", "kern">>
    [] FAM = "P08" -> <<"rimg", "rimg", "rimg", "rimg", "again_img", "badimg", "text", "save">>
    [] FAM = "P19" -> <<"field", "field", "field", "field", "field", "text", "setfont", "img", "dup", "rm", "wrap">>
    [] FAM = "P20" -> <<"text", "text", "img", "img", "setfont", "dup", "rm", "border", "wrap", "kern", "rise", "save", "measure", "prot", "again", "addfont", "count">>
    [] FAM = "P21" -> <<"fault", "fault", "iosave", "iofont", "text", "text", "img", "setfont", "wrap", "dup", "rm">>
    [] FAM = "P09" -> <<"img", "img", "img", "img", "img", "text", "dup", "rm", "save">>
    [] FAM = "P10" -> <<"rm", "rm", "keep", "text", "img", "dup", "count", "save", "rm">>
    [] FAM = "P11" -> <<"dup", "dup", "dup", "rm", "text", "text", "img", "count", "save">>
    [] FAM = "P12" -> <<"text", "text", "img", "rm", "dup", "rm", "dup", "keep", "reopen", "save">>
    [] FAM = "P13" -> <<"fail", "fail", "fail", "text", "img", "setfont", "dup", "rm", "border", "wrap", "addfont">>
    [] FAM = "P14" -> <<"save", "save", "text", "text", "img", "dup", "rm", "border", "kern", "rise", "setfont", "addfont", "wrap">>
    [] FAM = "P15" -> <<"text", "text", "img", "img", "wrap", "dup", "rm", "setfont", "reopen", "reopen">>
    [] FAM = "P16" -> <<"text", "text", "img", "img", "prot", "save", "dup", "rm", "setfont", "wrap", "locked">>
    [] FAM = "P17" -> <<"measure", "measure", "measure", "text", "text", "setfont", "setfont", "kern", "img", "border">>
    [] FAM = "P18" -> <<"tie", "wrap", "wrap", "wrap", "wrap", "setfont", "kern", "text">>
    [] OTHER -> <<"text", "text", "img", "setfont", "dup", "rm", "border", "wrap", "kern", "rise", "save">>

Call(kind, d, di) ==
  CASE kind = "text" -> OText(d, di)
    [] kind = "wrap" -> OWrap(d, di)
    [] kind = "img" -> OImg(d, di)
    [] kind = "addfont" -> OAddFont(d, di)
    [] kind = "setfont" -> OSetFont(d, di)
    [] kind = "border" -> OBorder(d, di)
    [] kind = "rm" -> ORm(d, di)
    [] kind = "keep" -> IF Prob(1, 2) THEN OKeep(d, di) ELSE ORm(d, di)
    [] kind = "dup" -> ODup(d, di)
    [] kind = "count" -> OCount(d, di)
    [] kind = "measure" -> OMeasure(d, di)
    [] kind = "kern" -> OKern(d, di)
    [] kind = "rise" -> ORise(d, di)
    [] kind = "prot" -> OProt(d, di)
    [] kind = "save" -> OSave(d, di)
    [] kind = "fail" -> Fail(d, di)

------------------------------------------------------------------------------
(* fonts and images for P07 and P08 *)
NGl == 14
FChars == <<65, 66, 67, 68, 69, 70, 97, 98, 32, 233, 3585, 20013, 65533, 65534>>
FAstral == <<65536, 128512, 128513, 1114109>>
GlyphDesc(j) ==   \* glyph j (0-based); composites refer to earlier glyphs
  LET m == IF j < 3 THEN 1 ELSE R(1..5) IN
  [adv |-> Pick(<<0, 250, 333, 500, 777, 1000, 1499, 2000>>), lsb |-> R(0..30), n |-> R(0..3000),
   k |-> IF m \in {1, 2, 3} THEN "s" ELSE IF m = 4 THEN "c" ELSE IF Prob(1, 3) THEN "e" ELSE "c",
   comps |-> IF m \in {1, 2, 3} THEN <<>>
             ELSE RSeq(R(1..3), LAMBDA q : [g |-> R((IF Prob(1, 2) THEN j \div 2 ELSE 0)..(j - 1)), dx |-> R(0..100), dy |-> R(0..100), fl |-> R(0..4)])]
FontDesc(x) ==
  LET up == Pick(<<1000, 2048, 1024, 500, 1789, 4096>>)
      asc == (up * R(60..100)) \div 100
      dsc == -((up * R(10..40)) \div 100)
      v == Pick(<<0, 1, 2, 3>>)
  IN  [name |-> Pick(<<"Synth", "Synth-Bold", "A+B", "My Font", "X#Y">>), upem |-> up, asc |-> asc, desc |-> dsc,
       typoa |-> Pick(<<0, asc - 10, asc>>), typod |-> Pick(<<0, dsc + 10, dsc>>), wina |-> asc + R(0..50), wind |-> -dsc + R(0..50),
       cap |-> IF v >= 2 THEN Pick(<<0, (asc * 7) \div 10>>) ELSE 0, xh |-> IF v >= 2 THEN Pick(<<0, asc \div 2>>) ELSE 0, os2v |-> v,
       up |-> -R(0..200), ut |-> R(0..200), italic |-> Pick(<<0, 0, -12, 7>>), nhm |-> Pick(<<NGl, NGl, 1, 5, NGl - 1>>), long |-> Prob(1, 2),
       glyphs |-> RSeq(NGl, LAMBDA j : GlyphDesc(j - 1)),
       cmap |-> RSeq(Len(FChars), LAMBDA j : <<FChars[j], IF Prob(3, 4) THEN R(1..(NGl - 1)) ELSE (j % NGl)>>) \o
                RSeq(R(0..4), LAMBDA j : <<FAstral[j], IF Prob(1, 2) THEN j + 5 ELSE R(1..(NGl - 1))>>),
       seg |-> Pick(<<"delta", "range">>), f12 |-> Prob(1, 2), tabs |-> Pick(<<<<>>, <<"cvt">>, <<"fpgm", "prep">>, <<"cvt", "fpgm", "prep">>>>),
       nopad |-> Prob(1, 2), last |-> Pick(<<"", "glyf", "hmtx", "loca", "cmap", "OS/2", "post", "head", "name">>), gap |-> IF Prob(1, 5) THEN Pick(<<250, 300, 1500, 2000, 5000, 33000>>) ELSE 0, bbox |-> <<-R(0..300), dsc - 5, up + R(0..100), asc + 5>>]
FStr(x) == RSeq(R(1..6), LAMBDA j : IF Prob(1, 12) THEN Pick(FAstral) ELSE Pick(FChars))

ImgDim(m) == IF Prob(1, 15) THEN R(250..300) ELSE R(1..m)
ImgDesc(x) ==
  LET ct == Pick(<<0, 2, 3, 4, 6, 3>>)
      bd == IF ct = 0 THEN Pick(<<1, 2, 4, 8>>) ELSE IF ct = 3 THEN Pick(<<1, 2, 4, 8>>) ELSE 8
      pal == IF ct = 3 THEN (IF bd = 1 THEN R(1..2) ELSE IF bd = 2 THEN R(1..4) ELSE IF bd = 4 THEN R(1..16) ELSE R(1..256))
             ELSE IF ct \in {2, 6} /\ Prob(1, 6) THEN R(1..20) ELSE 0
      mx == IF bd = 1 THEN 1 ELSE IF bd = 2 THEN 3 ELSE IF bd = 4 THEN 15 ELSE 255
  IN  IF Prob(1, 14)
      THEN [k |-> "jpg", w |-> ImgDim(30), h |-> ImgDim(30), ct |-> 9, bd |-> 8, il |-> 0, filt |-> 0, nid |-> 0, seed |-> R(0..200), pal |-> Pick(<<0, 2>>), trns |-> <<>>,
            extra |-> <<>>, cut |-> 0, gray |-> FALSE, q |-> 0, big |-> 0, junk |-> "", file |-> ""]
      ELSE IF Prob(1, 6)
      THEN [k |-> "jpg", w |-> ImgDim(20), h |-> ImgDim(20), ct |-> 0, bd |-> 8, il |-> 0, filt |-> 0, nid |-> 0, seed |-> R(0..200), pal |-> 0, trns |-> <<>>,
            extra |-> <<>>, cut |-> 0, gray |-> Prob(1, 2), q |-> R(10..100), big |-> 0, junk |-> "", file |-> ""]
      ELSE [k |-> "png", w |-> ImgDim(17), h |-> ImgDim(9), ct |-> ct, bd |-> bd, il |-> 0, filt |-> R(0..5), nid |-> Pick(<<1, 1, 2, 3, 7>>), seed |-> R(0..200), pal |-> pal,
            trns |-> IF ct = 3 /\ Prob(1, 2) THEN RSeq(R(1..pal), LAMBDA j : Pick(<<0, 255, 128, R(0..255)>>))
                     ELSE IF ct \in {0, 2} /\ Prob(1, 3) THEN <<-1, R(0..300), R(0..300)>>
                     ELSE IF ct = 0 /\ Prob(1, 3) THEN <<R(0..mx)>> ELSE IF ct = 2 /\ Prob(1, 3) THEN <<R(0..255), R(0..255), R(0..255)>> ELSE <<>>,
            extra |-> Pick(<<<<>>, <<"gAMA">>, <<"tEXt">>, <<"pHYs", "tEXt", "vpAg">>, <<"tIME">>, <<"emptyIDAT">>, <<"gAMA", "tIME">>>>),
            cut |-> 0, gray |-> FALSE, q |-> 0, big |-> Pick(<<0, 10, 5000, 70000>>), junk |-> "", file |-> ""]
BadImgDesc(x) ==
  LET m == R(1..5) IN
  CASE m = 1 -> [ImgDesc(1) EXCEPT !.k = "png", !.ct = Pick(<<2, 6, 4, 0>>), !.bd = 16, !.pal = 0, !.trns = <<>>, !.nid = 1]
    [] m = 2 -> [ImgDesc(1) EXCEPT !.k = "png", !.il = 1, !.ct = 2, !.bd = 8, !.w = R(2..17), !.h = R(2..9), !.pal = 0, !.trns = <<>>]
    [] m = 3 -> [ImgDesc(1) EXCEPT !.k = "junk", !.junk = Pick(<<"empty", "gif", "magic", "jpgmagic", "">>)]
    [] m = 4 -> [ImgDesc(1) EXCEPT !.k = "junk", !.junk = ""]
    [] m = 5 -> [ImgDesc(1) EXCEPT !.k = "junk", !.junk = Pick(<<"empty", "gif">>)]
UsedImgs == {j \in 1..Len(ops) : ops[j].op = "img" /\ "id" \in DOMAIN ops[j]}

------------------------------------------------------------------------------
(* the walk: ph "start" (one open per document) -> "fonts" -> "walk" -> "end" -> printed *)
Length == IF FAM \in {"P15", "P14", "P16"} THEN 9 ELSE IF FAM = "P20" THEN 20 ELSE 12
ND == IF FAM = "P20" THEN 2 ELSE 1
Fields == FAM = "P19"
None == [op |-> "none", d |-> 1]

Init == /\ ph = "start" /\ n = 0 /\ cal = None /\ que = <<>> /\ ops = <<>> /\ xs = <<>> /\ docs = [j \in 1..ND |-> NoDoc]
        /\ svm = <<>> /\ todo = [tfs |-> <<>>]

\* pick the next call; it is stored in the state before it is used
Idle == cal.op = "none" /\ que = <<>>
FieldD(j) ==
  [key |-> Pick(<<"a", "k1", "name", "zip">>), p |-> R(0..4), x |-> Coord(1), y |-> Coord(1), w |-> SizeNZ(1), h |-> Size(1), al |-> Align(1),
   font |-> Pick(<<"a", "b", "a", "b", "nofont">>), z |-> Pick(FontSizes), wrap |-> Prob(1, 2)]
KeyCodes == [a |-> <<35, 97>>, k1 |-> <<35, 107, 49>>, name |-> <<35, 110, 97, 109, 101>>, zip |-> <<35, 122, 105, 112>>]
ReadModes == <<"", "one", "seven", "eofdata", "oneeof", "strings", "path">>
OOpen(di) ==
  LET useFile == Prob(1, 12)
      rf == Pick(RepoFiles)
      t == IF useFile THEN FileTemplate(rf) ELSE Template(1)
      o == [op |-> IF Fields THEN "ropen" ELSE "open", d |-> di, t |-> t, io |-> IF FAM = "P21" THEN Pick(ReadModes) ELSE "", at |-> 0,
            tf |-> Len(todo.tfs) + 1, bad |-> ""]
  IN  IF Fields THEN o @@ [fs |-> RSeq(R(1..4), FieldD)] ELSE o

NewCall(o) ==
  /\ cal' = IF o.op \in {"open", "ropen"} THEN [o EXCEPT !.bad = o.t.bad] ELSE o
  /\ todo' = IF o.op \in {"open", "ropen"} /\ o.t.bad = "" /\ o.io \notin ReadFaults THEN [todo EXCEPT !.tfs = Append(@, PFacts(o.t, NPages(o.t)))] ELSE todo
NotOpen == {j \in 1..ND : ~docs[j].open}
PickStart ==
  /\ ph = "start" /\ Idle /\ NotOpen # {}
  /\ que' = LET di == CHOOSE j \in NotOpen : \A q \in NotOpen : j <= q IN
            <<IF FAM = "P21" /\ Prob(1, 4) THEN [OOpen(di) EXCEPT !.io = Pick(<<"fail", "failone", "failend", "nopath">>), !.at = R(0..99)]
              ELSE IF FAM = "P13" /\ Prob(1, 4) THEN OBadOpen(docs[di], di) ELSE OOpen(di)>>
  /\ UNCHANGED <<ph, n, cal, ops, xs, docs, svm, todo>>
FontIO(o) == IF FAM = "P21" THEN [o EXCEPT !.io = Pick(ReadModes)] ELSE o
FontOp(d, di, nm) ==
  IF FAM = "P07" /\ Prob(5, 6) THEN [OAddFont(d, di) EXCEPT !.n = nm, !.f = "r" \o ToString(Len(ops) + 1)] @@ [fd |-> FontDesc(1)]
  ELSE IF FAM \in {"P07", "P04", "P05", "P17"} /\ Prob(1, 12) THEN [OAddFont(d, di) EXCEPT !.n = nm, !.f = Pick(<<"ttf:test/ttf/Loma.ttf", "ttf:test/ttf/angsa.ttf">>)]
  ELSE FontIO([OAddFont(d, di) EXCEPT !.n = nm])
PickFont ==
  /\ ph = "fonts" /\ Idle /\ n < 3 * ND
  /\ que' = LET di == n \div 3 + 1 j == (n % 3) + 1 IN
            <<IF j < 3 /\ FAM = "P13" /\ Prob(1, 5) THEN FontIO([OAddFont(docs[di], di) EXCEPT !.n = <<"a", "b">>[j], !.f = Pick(<<"bad0", "bad1", "bad2", "bad3">>)])
              ELSE IF j < 3 THEN FontOp(docs[di], di, <<"a", "b">>[j]) ELSE [OSetFont(docs[di], di) EXCEPT !.n = Pick(<<"a", "b">>)]>>
  /\ n' = n + 1
  /\ UNCHANGED <<ph, cal, ops, xs, docs, svm, todo>>

\* save, open the saved file again, add the fonts again, restore the settings
ReopenSeq(d, di) ==
  <<OSave(d, di), [op |-> "reopen", d |-> di, sv |-> Len(ops) + 1, io |-> "", at |-> 0]>> \o
  [j \in 1..Len(d.fonts) |-> [op |-> "addfont", d |-> di, n |-> d.fonts[j].n, f |-> d.fonts[j].f, io |-> "", re |-> TRUE]] \o
  (IF d.cur # "" THEN <<[op |-> "setfont", d |-> di, n |-> d.cur, st |-> IF d.ul THEN "U" ELSE "", z |-> d.z, re |-> TRUE]>> ELSE <<>>) \o
  (IF d.border THEN <<[op |-> "border", d |-> di, on |-> TRUE, re |-> TRUE]>> ELSE <<>>)
OpenAgain(d, di) ==
  LET o == OOpen(di) IN
  <<o>> \o
  [j \in 1..Len(d.fonts) |-> [op |-> "addfont", d |-> di, n |-> d.fonts[j].n, f |-> d.fonts[j].f, io |-> ""]] \o
  (IF d.cur # "" THEN <<[op |-> "setfont", d |-> di, n |-> d.cur, st |-> IF d.ul THEN "U" ELSE "", z |-> d.z]>> ELSE <<>>)
TieSeq(d, di) ==
  LET f == d.fonts[1].n IN
  <<[op |-> "setfont", d |-> di, n |-> f, st |-> "", z |-> 125],
    [OWrap(d, di) EXCEPT !.w = 6250 * R(1..5), !.s = FoldLeft(LAMBDA a, j : a \o RSeq(R(1..3), LAMBDA q : R(97..122)) \o <<32>>, <<>>, [j \in 1..R(1..5) |-> j]), !.tb = Pick(<<"basic", "char", "three">>)]>>
OField(d, di) ==
  LET m == R(1..10) IN
  CASE m <= 6 -> [op |-> "rtext", d |-> di, key |-> Pick(<<"a", "k1", "name", "zip", "nokey">>), s |-> IF Prob(1, 2) THEN Words(1) ELSE IF Prob(1, 8) THEN <<65, 128514>> ELSE BmpStr(1)]
    [] m <= 8 -> [op |-> "rimg", d |-> di, key |-> Pick(<<"a", "k1", "name", "zip", "nokey">>), i |-> Pick(<<"g8", "rgb", "jp", "rgba", "ixt", "junk">>), api |-> Pick(<<"b64", "b64", "badb64">>)]
    [] m = 9 -> [op |-> "rbreak", d |-> di, tb |-> Pick(<<"basic", "basic", "char", "three", "nil", "err">>)]
    [] m = 10 -> OBorder(d, di)
Faults(d, di) ==
  LET m == R(1..3) IN
  CASE m = 1 -> [OOpen(di) EXCEPT !.io = Pick(<<"fail", "failone", "failend", "nopath">>), !.at = R(0..99)]
    [] m = 2 -> [op |-> "addfont", d |-> di, n |-> Pick(<<"zz", "yy">>), f |-> Pick(<<"A", "B">>), io |-> Pick(<<"fail", "failone", "failend", "nopath">>), at |-> R(0..99)]
    [] m = 3 -> [op |-> "save", d |-> di, io |-> Pick(<<"fail", "fail", "short", "nodir">>), cmp |-> 0, at |-> R(0..99)]
Seq1(kind, d, di) ==
  CASE kind = "reopen" -> ReopenSeq(d, di)
    [] kind = "locked" -> <<OSave(d, di), [op |-> "reopen", d |-> di, sv |-> Len(ops) + 1, io |-> "", at |-> 0]>>
    [] kind = "again" -> OpenAgain(d, di)
    [] kind = "tie" -> IF FontOf(d, "a").f = "A" THEN TieSeq(d, di) ELSE <<OWrap(d, di)>>
    [] kind = "field" -> <<OField(d, di)>>
    [] kind = "fault" -> <<Faults(d, di)>>
    [] kind = "iosave" -> <<[op |-> "save", d |-> di, io |-> Pick(<<"", "path", "over">>), cmp |-> 0, at |-> 0]>>
    [] kind = "iofont" -> <<FontIO([OAddFont(d, di) EXCEPT !.n = Pick(<<"My Font", "a(b)#1/x", "a">>)])>>
    [] kind = "ftext" -> <<[OText(d, di) EXCEPT !.s = FStr(1), !.w = 0, !.p = R(1..Max2(1, Len(d.pages)))]>>
    [] kind = "ffont" -> <<FontOp(d, di, Pick(<<"My Font", "a(b)#1/x">>))>>
    [] kind = "rimg" -> <<[i |-> "im" \o ToString(Len(ops) + 1), id |-> ImgDesc(1)] @@ OImg(d, di)>>
    [] kind = "again_img" -> IF UsedImgs = {} THEN <<OImg(d, di)>> ELSE LET o == ops[R(UsedImgs)] IN <<[i |-> o.i, id |-> o.id] @@ OImg(d, di)>>
    [] kind = "badimg" -> <<[i |-> "bad" \o ToString(Len(ops) + 1), id |-> BadImgDesc(1)] @@ OImg(d, di)>>
    [] OTHER -> <<Call(kind, d, di)>>
\* many calls of a kind in a row: names and numbers with more digits, long lists
Burst(d, di) ==
  LET m == R(1..6) IN
  CASE m = 1 -> RSeq(R(9..20), LAMBDA j : IF Prob(1, 2) THEN [OImg(d, di) EXCEPT !.p = 1] ELSE [OText(d, di) EXCEPT !.p = 1])
    [] m = 2 -> FoldLeft(LAMBDA a, j : a \o <<[OAddFont(d, di) EXCEPT !.n = "f" \o ToString(j), !.f = Pick(<<"A", "B", "D">>)],
                                             [OSetFont(d, di) EXCEPT !.n = "f" \o ToString(j)], [OText(d, di) EXCEPT !.s = BmpStr(1)]>>, <<>>, [j \in 1..R(9..12) |-> j])
    [] m = 3 -> FoldLeft(LAMBDA a, j : a \o (IF Prob(1, 2) THEN <<OText(d, di)>> ELSE <<>>) \o <<OSave(d, di)>>, <<>>, [j \in 1..R(5..9) |-> j])
    [] m = 4 -> RSeq(R(8..14), LAMBDA j : [ODup(d, di) EXCEPT !.p = R(1..Max2(1, Len(d.pages))), !.pos = -1])
    [] m = 5 -> RSeq(R(9..20), LAMBDA j : [OImg(d, di) EXCEPT !.p = 1, !.api = "cache"])
    [] m = 6 -> RSeq(R(9..20), LAMBDA j : [i |-> "im" \o ToString(Len(ops) + j), id |-> ImgDesc(1)] @@ [OImg(d, di) EXCEPT !.p = 1])
PickWalk ==
  /\ ph = "walk" /\ Idle /\ n < Length
  /\ que' = LET di == R(1..ND) IN
            IF FAM = "P16" /\ n = 0 THEN <<OProt(docs[1], 1)>> ELSE IF Prob(1, 120) THEN Burst(docs[di], di) ELSE Seq1(Pick(Kinds), docs[di], di)
  /\ n' = n + 1
  /\ UNCHANGED <<ph, cal, ops, xs, docs, svm, todo>>
Deq ==
  /\ cal.op = "none" /\ que # <<>>
  /\ NewCall(Head(que))
  /\ que' = Tail(que)
  /\ UNCHANGED <<ph, n, ops, xs, docs, svm>>
Do ==
  /\ cal.op # "none"
  /\ LET st == IF cal.op = "reopen" THEN Reopen(docs[cal.d], cal, svm[cal.sv]) ELSE Step(F, docs[cal.d], cal, "")
     IN  /\ docs' = [docs EXCEPT ![cal.d] = st.d]
         /\ xs' = Append(xs, st.x)
         /\ svm' = Append(svm, IF cal.op = "save" THEN [tf |-> st.d.tf, pages |-> Baked(st.d, Len(ops) + 1), enc |-> st.d.prot.on] ELSE [tf |-> 0, pages |-> <<>>, enc |-> FALSE])
  /\ ops' = Append(ops, cal)
  /\ cal' = None
  /\ UNCHANGED <<ph, n, que, todo>>
Advance ==
  /\ Idle
  /\ \/ ph = "start" /\ NotOpen = {} /\ ph' = "fonts" /\ n' = 0
     \/ ph = "fonts" /\ n >= 3 * ND /\ ph' = "walk" /\ n' = 0
     \/ ph = "walk" /\ n >= Length /\ ph' = "end" /\ n' = R(0..3)   \* n: a coin for the assembly
  /\ UNCHANGED <<cal, que, ops, xs, docs, svm, todo>>

------------------------------------------------------------------------------
(* putting the scenario together: the walk, a save of every document and the documents to compare with *)
Idx(s) == [j \in 1..Len(s) |-> j]
SaveOf(di, cmp) == [op |-> "save", d |-> di, io |-> "", cmp |-> cmp, at |-> 0]
Main == FoldLeft(LAMBDA a, di : Append(a, SaveOf(di, 0)), ops, [j \in 1..ND |-> j])
LastOf(di) == Len(ops) + di         \* index of the final save of document di
\* the calls j of document di for which Keep holds, made on document dj; saves are compared with the original ones
Replayed(di, dj, Keep(_), cmps) ==
  FoldLeft(LAMBDA a, j : IF Main[j].d # di \/ ~Keep(j) THEN a
                         ELSE Append(a, IF Main[j].op = "save" THEN [SaveOf(dj, IF cmps THEN j ELSE 0) EXCEPT !.io = ""] ELSE [Main[j] EXCEPT !.d = dj]),
           <<>>, Idx(Main))
IsSave(j) == Main[j].op = "save"
Final(j) == j > Len(ops)
OkOp(j) == Final(j) \/ xs[j] = "ok"
\* P14: one fresh session per save
FreshSessions ==
  LET svs == SelectSeq(Idx(Main), LAMBDA j : IsSave(j))
      few == IF Len(svs) > 4 THEN SubSeq(svs, 1, 2) \o SubSeq(svs, Len(svs) - 1, Len(svs)) ELSE svs
  IN  FoldLeft(LAMBDA a, q : a \o Replayed(1, q + 1, LAMBDA j : j <= few[q] /\ (j = few[q] \/ ~IsSave(j)), TRUE), <<>>, Idx(few))
\* P15: the session without the splits
Restoring(j) == "re" \in DOMAIN Main[j]
\* P19: the direct calls
DirectCalls(dj) ==
  LET fs == ops[1].fs
      dd == [NoDoc EXCEPT !.fs = fs]
      f(a, j) ==
        LET o == Main[j] IN
        CASE o.op = "ropen" -> [a EXCEPT !.s = Append(@, [op |-> "open", d |-> dj, t |-> o.t, io |-> "", at |-> 0, tf |-> o.tf, bad |-> ""])]
          [] o.op = "rtext" ->
               IF ~HasField(dd, o.key) THEN a
               ELSE LET g == Field(dd, o.key) IN
                    [a EXCEPT !.s = @ \o (<<[op |-> "setfont", d |-> dj, n |-> g.font, st |-> "", z |-> g.z]>> \o
                       (IF g.font = "nofont" THEN <<>> ELSE
                        <<[op |-> IF g.wrap THEN "wrap" ELSE "text", d |-> dj, p |-> g.p, x |-> g.x, y |-> g.y, w |-> g.w, h |-> g.h, al |-> g.al, c |-> <<>>, s |-> o.s, tb |-> a.tb]>>))]
          [] o.op = "rimg" ->
               IF ~HasField(dd, o.key) THEN a
               ELSE LET g == Field(dd, o.key) IN
                    [a EXCEPT !.s = Append(@, [op |-> "img", d |-> dj, i |-> o.i, api |-> o.api, p |-> g.p, x |-> g.x, y |-> g.y, w |-> g.w, h |-> g.h])]
          [] o.op = "rbreak" -> [a EXCEPT !.tb = o.tb]
          [] o.op = "save" -> [a EXCEPT !.s = Append(@, SaveOf(dj, j))]
          [] OTHER -> [a EXCEPT !.s = Append(@, [o EXCEPT !.d = dj])]
  IN  FoldLeft(f, [s |-> <<>>, tb |-> "nil"], Idx(Main)).s
DesignOK == \A j \in 1..Len(docs[1].fs) : HasFont(docs[1], docs[1].fs[j].font)
\* P20: the last session of the instance, alone
LastOpen(di) == CHOOSE j \in 1..Len(ops) : ops[j].d = di /\ ops[j].op = "open" /\ \A q \in (j + 1)..Len(ops) : ~(ops[q].d = di /\ ops[q].op = "open")
Assembled ==
  CASE FAM = "P13" -> Main \o Replayed(1, 2, LAMBDA j : OkOp(j), TRUE)
    [] FAM = "P14" -> Main \o FreshSessions
    [] FAM = "P15" -> Main \o Replayed(1, 2, LAMBDA j : Final(j) \/ (~IsSave(j) /\ Main[j].op # "reopen" /\ ~Restoring(j)), TRUE)
    [] FAM = "P16" -> Main \o Replayed(1, 2, LAMBDA j : Main[j].op \notin {"prot", "reopen"}, TRUE)
    [] FAM = "P17" -> Main \o Replayed(1, 2, LAMBDA j : Main[j].op # "measure", TRUE)
    [] FAM = "P19" -> IF DesignOK /\ n = 0
                      THEN SubSeq(Main, 1, Len(ops)) \o <<[op |-> "rdesign", d |-> 1, names |-> KeyCodes], SaveOf(1, 0)>>
                      ELSE Main \o DirectCalls(2)
    [] FAM = "P20" -> Main \o FoldLeft(LAMBDA a, di : a \o Replayed(di, ND + di, LAMBDA j : j >= LastOpen(di) \/ Main[j].op = "prot", TRUE), <<>>, [j \in 1..ND |-> j])
    [] FAM = "P21" -> Main \o Replayed(1, 2, LAMBDA j : OkOp(j), TRUE)
    [] OTHER -> Main
Plain(o) == IF o.d > ND /\ FAM = "P21" /\ "io" \in DOMAIN o THEN [o EXCEPT !.io = ""] ELSE o
Finish ==
  /\ ph = "end" /\ Idle
  /\ LET a == Assembled IN
     PrintT("@@" \o ToJson([par |-> (FAM = "P20" /\ (VAR = "race" \/ n < 2)), ops |-> [j \in 1..Len(a) |-> Plain(a[j])]]))
  /\ ph' = "printed"
  /\ UNCHANGED <<n, cal, que, ops, xs, docs, svm, todo>>
Next == PickStart \/ PickFont \/ PickWalk \/ Deq \/ Do \/ Advance \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
