-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every line of the trace file is one scenario executed  *)
(* on the real code.  The model is run along the recorded events; the       *)
(* property named by the environment is judged at every event.              *)
EXTENDS Judge, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

VARIABLES i, k, docs, svs, bad
vars == <<i, k, docs, svs, bad>>

BadImgs == {"junk", "junk0", "junkp", "p16", "il", "cut"}
Facts(S) == [tfs |-> S.tfs, fonts |-> S.fonts, bad |-> BadImgs \cup Set(S.badimgs)]
NDocs(S) == LET D == {S.ev[j].d : j \in 1..Len(S.ev)} IN IF D = {} THEN 0 ELSE CHOOSE m \in D : \A q \in D : q <= m

Init == /\ i \in 1..Len(T)
        /\ k = 0
        /\ docs = [d \in 1..NDocs(T[i]) |-> NoDoc]
        /\ svs = << >>
        /\ bad = IF T[i].hang THEN {"no answer (crash or hang)"} ELSE {}

\* ----- judging one event -----
SaveOK(P, S, F, d, e) ==
  LET sh == Shown(d) obs == e.obs tf == d.tf IN
  IF ~obs.parse THEN {"the saved file cannot be read"}
  ELSE
  CASE P = "P01" -> Unsound(obs.st, Set(F.tfs[tf].dang)) \cup ProbsOK(sh, obs)
    [] P = "P02" -> CountOK(sh, obs) \cup SrcOK(sh, obs) \cup OwnOK(sh, obs) \cup AttrsOK(F, tf, sh, obs) \cup ResOK(F, tf, sh, obs) \cup KeptOK(F, tf, obs) \cup NodeOK(F, tf, obs)
    [] P = "P03" -> CountOK(sh, obs) \cup (IF d.tie THEN {} ELSE SrcOK(sh, obs) \cup LandOK(F, sh, obs))
    [] P = "P04" -> IF d.tie THEN {} ELSE TextOK(F, sh, obs)
    [] P = "P05" -> IF d.tie THEN {} ELSE TextPosOK(F, sh, obs)
    [] P = "P06" -> IF d.tie THEN {} ELSE TextNum(sh, obs) \cup GlyphsOK(F, sh, obs) \cup PathsOK(F, sh, obs)
    [] P = "P07" -> TextNum(sh, obs) \cup GlyphProgOK(F, sh, obs) \cup DescOK(F, sh, obs)
    [] P = "P08" -> ImgsOK(F, sh, obs)
    [] P = "P09" -> ImgsOK(F, sh, obs) \cup SharingOK(sh, obs) \cup ProbsOK(sh, obs)
    [] P \in {"P10", "P11"} -> CountOK(sh, obs) \cup SrcOK(sh, obs) \cup OwnOK(sh, obs) \cup BoxOK(sh, obs) \cup AttrsOK(F, tf, sh, obs) \cup ResOK(F, tf, sh, obs)
                               \cup (IF d.tie THEN {} ELSE LandOK(F, sh, obs)) \cup ProbsOK(sh, obs)
    [] P = "P12" -> CountOK(sh, obs) \cup BoxOK(sh, obs) \cup (IF d.tie THEN {} ELSE TextYOK(F, sh, obs) \cup ImgYOK(F, sh, obs))
    [] P \in {"P13", "P14", "P15", "P19", "P20", "P21"} ->
         CountOK(sh, obs) \cup SrcOK(sh, obs) \cup BoxOK(sh, obs)
         \cup (IF d.tie THEN {} ELSE IF d.unord THEN LandAny(F, sh, obs) ELSE LandOK(F, sh, obs) \cup TextOK(F, sh, obs) \cup TextPosOK(F, sh, obs) \cup ImgsOK(F, sh, obs) \cup PathsOK(F, sh, obs))
         \cup (IF P = "P15" THEN EarlierOK(S, sh, obs) \cup EarlierObjsOK(S, d, obs) ELSE {})
    [] P = "P16" -> EncOK(d.prot, obs) \cup CountOK(sh, obs) \cup SrcOK(sh, obs) \cup AttrsOK(F, tf, sh, obs) \cup ResOK(F, tf, sh, obs) \cup KeptOK(F, tf, obs)
                    \cup ProbsOK(sh, obs) \cup LandOK(F, sh, obs)
    [] P = "P17" -> TextNum(sh, obs) \cup DrawnWidthOK(F, sh, obs)
    [] P = "P18" -> IF d.tie THEN {} ELSE TextNum(sh, obs) \cup LandOK(F, sh, obs) \cup TextPosOK(F, sh, obs)
    [] P = "P22" -> CountOK(sh, obs) \cup SrcOK(sh, obs) \cup OwnOK(sh, obs) \cup AttrsOK(F, tf, sh, obs) \cup ResOK(F, tf, sh, obs) \cup BoxOK(sh, obs) \cup NodeOK(F, tf, obs)
    [] OTHER -> {"unknown property"}

\* comparison with another save of the scenario
\* what is shown, without the bookkeeping of generations
Plainly(d) == LET sh == Shown(d) IN
  [p \in 1..Len(sh) |-> <<sh[p].src, sh[p].box, [q \in 1..Len(sh[p].its) |-> [sh[p].its[q] EXCEPT !.g = 0]]>>]
CmpOK(P, S, sv, d, e) ==
  IF e.cmp = 0 THEN {}
  ELSE LET o == S.ev[e.cmp] IN
       IF "obs" \notin DOMAIN o \/ e.cmp \notin DOMAIN sv THEN {"nothing to compare with"}
       ELSE IF ~o.obs.parse THEN {"the saved file cannot be read"}
       ELSE IF sv[e.cmp].pl # Plainly(d) THEN {}   \* by the model they need not show the same
       ELSE CASE P = "P13" -> SameShow(e.obs, o.obs)
              [] P \in {"P14", "P20", "P21"} -> SameDoc(e.obs, o.obs, TRUE)
              [] P = "P15" -> SameView(e.obs, o.obs, FALSE, FALSE)
              [] P = "P16" -> SameView(e.obs, o.obs, TRUE, TRUE) \cup If(e.obs.info = o.obs.info /\ Set(e.obs.objs) = Set(o.obs.objs), "decrypted objects differ")
              [] P = "P19" -> SameView(e.obs, o.obs, TRUE, TRUE)
              [] P = "P17" -> SameView(e.obs, o.obs, TRUE, FALSE)
              [] OTHER -> {}

Judge(P, S, F, sv, d0, st, e) ==
  If(Match(st.x, e.r), "unexpected result of " \o e.op \o ": " \o e.r \o ", expected " \o st.x) \cup
  (IF e.op = "save" /\ e.r = "ok" THEN SaveOK(P, S, F, st.d, e) \cup (IF e.obs.parse THEN CmpOK(P, S, sv, st.d, e) ELSE {}) ELSE {}) \cup
  (IF e.op = "count" THEN If(e.v = Len(d0.pages), "GetNumberOfPage") ELSE {}) \cup
  (IF e.op = "measure" /\ e.r = "ok" /\ st.x = "ok" /\ P \in {"P17", "P21", "P20"}
   THEN LET f == FontOf(d0, d0.cur) IN If(Near(e.v, TextWidth(F, f.f, f.k, e.s, d0.z), 2), "MeasureTextWidth")
   ELSE {}) \cup
  (IF "mut" \in DOMAIN e THEN {"the caller's data was modified"} ELSE {})

Next ==
  /\ bad = {}
  /\ k < Len(T[i].ev)
  /\ k' = k + 1
  /\ i' = i
  /\ LET S == T[i]
         e == S.ev[k + 1]
         F == Facts(S)
         d0 == docs[e.d]
         st == IF e.op = "reopen"
               THEN Reopen(d0, e, svs[e.sv])
               ELSE Step(F, d0, e, e.r)
     IN  /\ docs' = [docs EXCEPT ![e.d] = st.d]
         /\ svs' = IF e.op = "save" /\ e.r = "ok" THEN (k + 1 :> [tf |-> st.d.tf, pages |-> Baked(st.d, k + 1), pl |-> Plainly(st.d), enc |-> st.d.prot.on]) @@ svs ELSE svs
         /\ bad' = Judge(PROP, S, F, svs, d0, st, e)

Spec == Init /\ [][Next]_vars
Holds == bad = {}
\* every recorded event was explained
Done == TRUE
Alias == [scenario |-> T[i].id, event |-> k, why |-> bad]
=============================================================================
