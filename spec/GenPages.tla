------------------------------- MODULE GenPages -------------------------------
(* Every sequence of K page operations (valid and invalid numbers) on every *)
(* page tree shape with 1..MaxNP pages: breadth-first enumeration, printed  *)
(* as scenarios.  Insertions before and after the operations mark the pages.*)
EXTENDS Pdft, Json, IOUtils

K == 2
MaxNP == 3
FAM == IOEnv.FAM
VARIABLES t, d, ops, ph
vars == <<t, d, ops, ph>>

Box(j) == <<<<59500, 84200>>, <<61200, 79200>>, <<30050, 40025>>>>[j]
PageD(j, mb) ==
  [w |-> Box(j)[1], h |-> Box(j)[2], lly |-> 0, mb |-> mb, res |-> <<"inline", "inh", "ind">>[j], fd |-> "inline", xd |-> "none",
   fonts |-> <<"F1">>, xobjs |-> <<>>, con |-> <<"one", "arr", "shared">>[j], filt |-> "flate", state |-> "bal", extra |-> <<j>>, ent |-> <<>>, rent |-> <<>>]
Tmpl(tree, np, mb) ==
  [file |-> "", tree |-> tree, pages |-> [j \in 1..np |-> PageD(j, IF mb = "root" THEN "inh" ELSE mb)], top |-> IF mb = "root" THEN "root" ELSE "", ids |-> "seq", eol |-> "n", inc |-> FALSE, lenind |-> FALSE,
   info |-> TRUE, outl |-> FALSE, sty |-> 0, ord |-> 0, bin |-> FALSE, huge |-> 0, base |-> 0, bad |-> "", nent |-> <<>>]
FacPages(tt) == [j \in 1..Len(tt.pages) |-> [src |-> j, box |-> <<0, 0, tt.pages[j].w, tt.pages[j].h>>, con |-> "y", base |-> <<>>, sv |-> 0, at |-> j]]

Init == /\ ph = 0 /\ ops = <<>>
        /\ t \in {Tmpl(tree, np, mb) : tree \in {"flat", "nested", "deep", "mixed"}, np \in 1..MaxNP, mb \in {"page", "inh", "root"}}
        /\ d = Opened(NoDoc, 1, FacPages(t))
PageCalls ==
  LET np == Len(d.pages) IN
  {[op |-> "rm", d |-> 1, p |-> p] : p \in 0..(np + 1)} \cup {[op |-> "keep", d |-> 1, p |-> p] : p \in 0..(np + 1)} \cup
  {[op |-> "dup", d |-> 1, p |-> p, pos |-> q] : p \in 0..(np + 1), q \in (-np - 1)..np}
Take(o) ==
  LET st == CASE o.op = "rm" -> DoRemove(d, o.p) [] o.op = "keep" -> DoKeep(d, o.p) [] OTHER -> DoDup(d, o.p, o.pos, "")
  IN  /\ d' = st.d /\ ops' = Append(ops, o) /\ ph' = ph + 1 /\ UNCHANGED t
Txt(p, s) == [op |-> "text", d |-> 1, p |-> p, x |-> 1000, y |-> 2000, w |-> 5000, h |-> 1000, al |-> 8, c |-> <<>>, s |-> s]
Scenario ==
  <<[op |-> "open", d |-> 1, t |-> t, io |-> "", at |-> 0, tf |-> 1, bad |-> ""],
    [op |-> "addfont", d |-> 1, n |-> "a", f |-> "A", io |-> ""], [op |-> "setfont", d |-> 1, n |-> "a", st |-> "", z |-> 12]>> \o
  [p \in 1..Len(t.pages) |-> Txt(p, <<65, 64 + p>>)] \o
  ops \o <<[op |-> "count", d |-> 1]>> \o
  [p \in 1..Len(d.pages) |-> Txt(p, <<90, 64 + p>>)] \o
  <<[op |-> "save", d |-> 1, io |-> "", cmp |-> 0, at |-> 0]>>
Finish == /\ ph = K /\ ph' = K + 1 /\ PrintT("@@" \o ToJson([par |-> FALSE, ops |-> Scenario])) /\ UNCHANGED <<t, d, ops>>
Next == (ph < K /\ \E o \in PageCalls : Take(o)) \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
