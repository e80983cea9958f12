-------------------------------- MODULE Store --------------------------------
(* Structural soundness of a written file (P01): the object store, its      *)
(* cross-reference table, free list and page tree.  The predicates work on  *)
(* the raw facts st of a file: st.rows[n+1] = <<kind, value, generation,    *)
(* object and generation found at the offset>> (kind 0 free, 1 in use, 2    *)
(* missing).                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rows(st) == 0..(Len(st.rows) - 1)
Row(st, n) == st.rows[n + 1]
Used(st) == {n \in Rows(st) : Row(st, n)[1] = 1}
Free(st) == {n \in Rows(st) : Row(st, n)[1] = 0}
NoDupSeq(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* from 0 the free list visits every free number once and comes back to 0
RECURSIVE Walk(_, _, _)
Walk(st, n, seen) == IF n \in seen \/ n \notin Free(st) THEN <<n, seen>> ELSE Walk(st, Row(st, n)[2], seen \cup {n})
FreeListOK(st) ==
  /\ 0 \in Free(st)
  /\ Row(st, 0)[3] = 65535
  /\ LET w == Walk(st, 0, {}) IN w[1] = 0 /\ w[2] = Free(st)

XrefOK(st) ==
  /\ st.xrefok /\ st.header /\ st.eof
  /\ \A n \in Rows(st) : Row(st, n)[1] # 2
  /\ \A n \in Used(st) : Row(st, n)[4] = n /\ Row(st, n)[3] = Row(st, n)[5]
  /\ st.size = Len(st.rows)
  /\ Used(st) # {} /\ (Len(st.rows) - 1) \in Used(st)
BodyOK(st, dang) ==
  /\ st.body = "" /\ st.objerr = <<>> /\ st.badlen = <<>> /\ st.dups = <<>>
  /\ SetOf(st.dang) \subseteq dang   \* what the template itself leaves dangling
  /\ Cardinality(SetOf(st.ids)) = Len(st.ids)
  /\ SetOf(st.ids) = Used(st)

\* nodes are listed in pre-order: [id, leaf, par (its /Parent), up (the node whose /Kids names it), cnt, kids]
Leaves(t, i) == \* number of page nodes below node i
  LET RECURSIVE Go(_)
      Go(k) == IF t[k].leaf THEN 1
               ELSE LET RECURSIVE Sum(_)
                        Sum(q) == IF q = 0 THEN 0
                                  ELSE Sum(q - 1) + Go(CHOOSE m \in 1..Len(t) : t[m].id = t[k].kids[q] /\ t[m].up = t[k].id)
                    IN  Sum(Len(t[k].kids))
  IN  Go(i)
TreeOK(st) ==
  LET t == st.tree IN
  /\ st.treeprob = <<>>
  /\ Len(t) > 0 /\ ~t[1].leaf /\ t[1].par = 0
  /\ \A i, j \in 1..Len(t) : i # j => t[i].id # t[j].id
  /\ \A i \in 2..Len(t) : t[i].par = t[i].up
  /\ \A i \in 1..Len(t) : ~t[i].leaf => \A q \in 1..Len(t[i].kids) : \E m \in 1..Len(t) : t[m].id = t[i].kids[q] /\ t[m].up = t[i].id
  /\ \A i \in 1..Len(t) : ~t[i].leaf => t[i].cnt = Leaves(t, i)

Unsound(st, dang) == (IF XrefOK(st) THEN {} ELSE {"xref table"}) \cup (IF FreeListOK(st) THEN {} ELSE {"free list"})
       \cup (IF BodyOK(st, dang) THEN {} ELSE {"objects"}) \cup (IF TreeOK(st) THEN {} ELSE {"page tree"})
=============================================================================
