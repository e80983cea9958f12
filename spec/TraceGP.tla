------------------------------- MODULE TraceGP -------------------------------
(* Trace validation for documents made with the bundled writer (P23).       *)
EXTENDS GoPdf, Judge, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, k, g, bad
vars == <<i, k, g, bad>>
Facts(S) == [fonts |-> S.fonts, imgsz |-> S.imgsz, bad |-> {"junk", "junk0", "junkp", "p16", "il", "cut"}]
Init == /\ i \in 1..Len(T) /\ k = 0 /\ g = NoGP
        /\ bad = IF T[i].hang THEN {"no answer (crash or hang)"} ELSE {}

\* what was drawn, flattened in the same way
DrawAtoms(x) ==
  IF x.k = "t" THEN [j \in 1..Len(x.g) |-> [k |-> "g", x |-> x.x + x.g[j].p * (x.z \div 10), y |-> x.y, f |-> x.f, z |-> x.z, gl |-> x.g[j], c |-> x.c, e |-> x.e]]
  ELSE <<x>>
PageAtoms(p) == FoldLeft(LAMBDA a, x : a \o DrawAtoms(x), <<>>, p.ds)
PtIn(q, pts, tol, fy) == \E j \in 1..Len(pts) : Near(q[1], pts[j][1], tol) /\ (fy \/ Near(q[2], pts[j][2], tol))
AtomOK(F, a, x) ==
  IF a.k # x.k THEN {"something else was drawn"} ELSE
  If(x.e = "", "graphics state") \cup
  (CASE a.k = "g" ->
         If(Near(a.x, x.x, PosTol + a.z), "x of text") \cup If(Near(a.y, x.y, PosTol), "y of text") \cup If(a.z = x.z, "font size") \cup
         If(SameChar(F, a.f, x.gl.u, a.cp), "character") \cup If(x.gl.o = Ch(F, a.f, a.cp).o, "glyph") \cup If(ColourOK(x.c, a.c), "text colour") \cup
         If(x.gl.r = 0, "text rise") \cup If(Near(x.gl.w * F.fonts[a.f].upem, Ch(F, a.f, a.cp).a * 1000, F.fonts[a.f].upem), "declared width")
    [] a.k = "p" ->
         If(a.op = x.op, "painting operator") \cup
         If(\A j \in 1..Len(a.pts) : PtIn(a.pts[j], x.pts, PosTol, a.fy), "points of a path") \cup
         If(\A j \in 1..Len(x.pts) : PtIn(x.pts[j], a.pts, PosTol, a.fy), "points of a path") \cup
         If(a.nc = x.nc, "curves of a path") \cup
         If(a.op = "S" \/ ColourOK(x.c, a.c), "fill colour") \cup
         If(a.op = "f" \/ (ColourOK(x.sc, a.sc) /\ x.lw = a.glw /\ x.da = a.da), "stroke colour, width or dashes")
    [] a.k = "i" ->
         If(a.i \in Set(x.im), "image shown") \cup If(\A q \in 1..6 : Near(a.m[q], x.m[q], PosTol), "image matrix"))
PageOK(F, p, o) ==
  LET e == Atoms(F, p) d == PageAtoms(o) IN
  If(o.box = <<0, 0, p.w, p.h>>, "page size") \cup If(o.probs = <<>>, "content does not resolve") \cup
  If(Len(e) = Len(d), "number of marks on a page") \cup
  UNION {AtomOK(F, e[j], d[j]) : j \in 1..Min2(Len(e), Len(d))}
ImgAtoms(F, pg, obs) ==
  FoldLeft(LAMBDA a, p : LET e == SelectSeq(Atoms(F, pg[p]), LAMBDA z : z.k = "i") d == SelectSeq(obs.pages[p].ds, LAMBDA z : z.k = "i")
                         IN  a \o [j \in 1..Min2(Len(e), Len(d)) |-> <<e[j].id, e[j].i, d[j].ob>>], <<>>, [p \in 1..Min2(Len(pg), Len(obs.pages)) |-> p])
InfoOK(info, o) ==
  IF ~info.on THEN If(~o.on, "information") ELSE
  If(o.on, "information") \cup
  (IF ~o.on THEN {} ELSE If(o.t = info.t /\ o.a = info.a /\ o.s = info.s /\ o.c = info.c /\ o.p = info.p, "information strings") \cup If(info.d => o.d, "creation date"))
WriteOK(F, gg, obs) ==
  IF ~obs.parse THEN {"the file cannot be read"} ELSE
  LET u == ImgAtoms(F, gg.pages, obs) IN
  If(Len(obs.pages) = Len(gg.pages), "number of pages") \cup
  UNION {PageOK(F, gg.pages[p], obs.pages[p]) : p \in 1..Min2(Len(gg.pages), Len(obs.pages))} \cup
  Unsound(obs.st, {}) \cup EncOK(gg.prot, obs) \cup InfoOK(gg.info, obs.inf) \cup
  If(\A a, b \in 1..Len(u) : u[a][1] = u[b][1] => u[a][3] = u[b][3], "image embedded twice") \cup
  If(\A a, b \in 1..Len(u) : u[a][2] # u[b][2] => u[a][3] # u[b][3], "different images share an object") \cup
  UNION {If(obs.fonts[j].emb /\ obs.fonts[j].names, "font program") : j \in 1..Len(obs.fonts)}

Judged(F, g0, st, e) ==
  If(Match(st.x, e.r), "unexpected result of " \o e.op \o ": " \o e.r \o ", expected " \o st.x) \cup
  If(Near(st.d.x, e.cx, 30) /\ Near(st.d.y, e.cy, 30), "cursor after " \o e.op) \cup
  (IF e.op = "gmeas" /\ e.r = "ok" /\ st.x = "ok" THEN If(Near(e.val, TextWidth(F, GFont(g0).f, GKern(g0), e.s, g0.z), 2), "MeasureTextWidth") ELSE {}) \cup
  (IF e.op = "write" /\ e.r = "ok" THEN WriteOK(F, st.d, e.obs) ELSE {}) \cup
  (IF "mut" \in DOMAIN e THEN {"the caller's data was modified"} ELSE {})
Next ==
  /\ bad = {} /\ k < Len(T[i].ev) /\ k' = k + 1 /\ i' = i
  /\ LET e == T[i].ev[k + 1] F == Facts(T[i]) st == GStep(F, g, e)
     IN  g' = st.d /\ bad' = Judged(F, g, st, e)
Spec == Init /\ [][Next]_vars
Holds == bad = {}
Alias == [scenario |-> T[i].id, event |-> k, why |-> bad]
=============================================================================
