-------------------------------- MODULE MCDoc --------------------------------
(* Exhaustive checking of the document model (Pdft.tla): every sequence of  *)
(* up to MaxOps calls from a small alphabet, on a template of NP pages.     *)
(* The invariants are the guarantees of the properties stated on the model; *)
(* the traces of the code are then checked against the same model.          *)
EXTENDS Pdft

CONSTANTS NP, MaxOps
VARIABLES d, pre, op, res, sv, n
vars == <<d, pre, op, res, sv, n>>

Chars == {65, 66, 32, 128512}
MCFont(ok) == [ok |-> ok, upem |-> 1000, ch |-> [c \in {ToString(x) : x \in Chars} |-> [g |-> 1, in |-> c # "128512", o |-> "", a |-> 500, l |-> 0]]]
MCF == [tfs |-> <<[pages |-> [j \in 1..NP |-> [box |-> <<0, 0, 10000, 10000 + 1000 * j>>, con |-> j # 3]]]>>,
        fonts |-> [A |-> MCFont(TRUE), bad |-> MCFont(FALSE)], bad |-> {"junk"}]

Op0(o) == [op |-> o, d |-> 1]
Open(bad) == [op |-> "open", d |-> 1, io |-> "", at |-> 0, tf |-> 1, bad |-> bad]
Add(nm, f) == [op |-> "addfont", d |-> 1, n |-> nm, f |-> f, io |-> ""]
SetF(nm, st) == [op |-> "setfont", d |-> 1, n |-> nm, st |-> st, z |-> 10]
Txt(p, s) == [op |-> "text", d |-> 1, p |-> p, x |-> 0, y |-> 0, w |-> 1000, h |-> 100, al |-> 8, c |-> <<>>, s |-> s]
Wrp(p, tb) == [op |-> "wrap", d |-> 1, p |-> p, x |-> 0, y |-> 0, w |-> 1100, h |-> 100, al |-> 8, c |-> <<>>, s |-> <<65, 32, 66, 66, 32, 65>>, tb |-> tb]
Im(p, i) == [op |-> "img", d |-> 1, i |-> i, api |-> "raw", p |-> p, x |-> 0, y |-> 0, w |-> 100, h |-> 100]
Pages(x) == 0..(Len(x.pages) + 1)
Calls(x) ==
  {Open(""), Open("text"), Add("a", "A"), Add("b", "bad"), SetF("a", ""), SetF("a", "U"), SetF("no", ""), Op0("count"),
   [op |-> "border", d |-> 1, on |-> TRUE], [op |-> "kern", d |-> 1, n |-> "a", k |-> 1], [op |-> "kern", d |-> 1, n |-> "no", k |-> 1],
   [op |-> "measure", d |-> 1, s |-> <<65>>], [op |-> "save", d |-> 1, io |-> ""], [op |-> "save", d |-> 1, io |-> "fail"],
   [op |-> "prot", d |-> 1, perm |-> 4, u |-> <<1>>, o |-> <<>>], Im(1, "junk"), Wrp(1, "basic"), Wrp(1, "err"), Txt(1, <<128512>>)} \cup
  {Txt(p, <<65, 66>>) : p \in Pages(x)} \cup {Im(p, "g8") : p \in Pages(x)} \cup
  {[op |-> "rm", d |-> 1, p |-> p] : p \in Pages(x)} \cup {[op |-> "keep", d |-> 1, p |-> p] : p \in Pages(x)} \cup
  {[op |-> "dup", d |-> 1, p |-> p, pos |-> q] : p \in Pages(x), q \in (-Len(x.pages) - 1)..Len(x.pages)}

Ready == Step(MCF, Step(MCF, Step(MCF, NoDoc, Open(""), "").d, Add("a", "A"), "").d, SetF("a", ""), "").d
Init == /\ d \in {Ready, Step(MCF, NoDoc, Open(""), "").d} /\ pre = NoDoc /\ op = Op0("init") /\ res = "ok" /\ sv = <<>> /\ n = 0
Do(c) ==
  LET st == Step(MCF, d, c, "") IN
  /\ d' = st.d /\ pre' = d /\ op' = c /\ res' = st.x
  /\ sv' = IF c.op = "save" /\ st.x = "ok" THEN Append(sv, Baked(d, 1)) ELSE sv
ReopenLast ==
  /\ sv # <<>>
  /\ LET o == [op |-> "reopen", d |-> 1, sv |-> Len(sv), io |-> ""]
         st == Reopen(d, o, [tf |-> 1, pages |-> sv[Len(sv)], enc |-> FALSE])
     IN  d' = st.d /\ op' = o /\ res' = st.x
  /\ pre' = d /\ UNCHANGED sv
Next == /\ n < MaxOps /\ n' = n + 1
        /\ ReopenLast \/ \E c \in Calls(d) : Do(c)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Failing == res \notin {"ok", "ANY"}
PageOps == {"rm", "keep", "dup", "open", "reopen"}
Drawing == {"text", "wrap", "img"}
ItsOf(x) == [p \in 1..Len(x.pages) |-> Shown(x)[p].its]
Srcs(x) == [p \in 1..Len(x.pages) |-> x.pages[p].src]
WellFormed ==
  /\ \A i \in 1..Len(d.items) : d.items[i].k = "t" => d.items[i].n # ""
  /\ d.cur # "" => HasFont(d, d.cur)
  /\ \A i, j \in 1..Len(d.fonts) : i # j => d.fonts[i].n # d.fonts[j].n
  /\ \A p \in 1..Len(d.pages) : d.pages[p].box = MCF.tfs[1].pages[d.pages[p].src].box                       \* P12: sizes never change
P03 == \A p \in 1..Len(d.pages) : \A i \in 1..Len(Shown(d)[p].its) :
         LET it == Shown(d)[p].its[i] IN it.p = p \/ (\E j \in 1..Len(d.pages[p].base) : d.pages[p].base[j] = it)
P03b == op.op \in Drawing /\ res = "ok" =>
          /\ Len(d.items) >= Len(pre.items) /\ SubSeq(d.items, 1, Len(pre.items)) = pre.items
          /\ \A q \in 1..Len(d.pages) : q # op.p => ItsOf(d)[q] = ItsOf(pre)[q]
P10 == /\ op.op = "rm" /\ res = "ok" => Srcs(d) = RemoveAt2(Srcs(pre), op.p)
       /\ op.op = "keep" /\ res = "ok" => Srcs(d) = <<Srcs(pre)[op.p]>>
P11 == op.op = "dup" /\ res = "ok" =>
         LET q == DupPos(pre, op.pos) IN
         /\ Len(d.pages) = Len(pre.pages) + 1
         /\ d.pages[q + 2] = pre.pages[op.p]
         /\ RemoveAt2(d.pages, q + 2) = pre.pages
P12 == op.op \in {"text", "img"} /\ res = "ok" /\ op.p \in 1..Len(d.pages) => d.items[Len(d.items)].top = d.pages[op.p].box[4]
P13 == Failing => d = pre
P14 == op.op = "save" => d = pre
P15 == op.op = "reopen" => /\ ItsOf(d) = [p \in 1..Len(sv[Len(sv)]) |-> sv[Len(sv)][p].base]
                           /\ Len(d.pages) = Len(sv[Len(sv)]) /\ d.items = <<>>
P16 == op.op # "prot" => d.prot = pre.prot \/ ~pre.open
P17 == op.op \in {"measure", "count"} => d = pre
P18 == op.op = "wrap" /\ res = "ok" /\ op.tb = "basic" =>
         LET new == SubSeq(d.items, Len(pre.items) + 1, Len(d.items))
             all == FoldLeft(LAMBDA a, it : a \o SelectSeq(it.s, LAMBDA c : c # 32), <<>>, new)
         IN  /\ all = SelectSeq(op.s, LAMBDA c : c # 32)
             /\ \A i \in 1..Len(new) : /\ Trim(new[i].s) = new[i].s /\ new[i].s # <<>>
                                       /\ TextWidth(MCF, new[i].f, FontOf(d, new[i].n).k, new[i].s, new[i].z) <= op.w * 100 \/ 32 \notin Set(new[i].s)
                                       /\ new[i].y = op.y + 120 * d.z * (i - 1)
P20 == op.op = "open" /\ res = "ok" => [d EXCEPT !.prot = NoProt] = Step(MCF, NoDoc, op, "").d
Frame == op.op \notin PageOps => d.pages = pre.pages \/ ~pre.open
=============================================================================
