------------------------------- MODULE PFCModel -------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of the kernel specification: every       *)
(* sequence of the actions of a fixture (up to its depth, and up to states *)
(* which were seen before).  The properties are checked as invariants of   *)
(* the specification, and every transition is printed together with the    *)
(* observations which the specification demands, for replay against the    *)
(* real code.  Each transition is followed by the probes of the fixture,   *)
(* which make differences in hidden state visible.                         *)
(***************************************************************************)
EXTENDS PFC
CONSTANTS Emit
VARIABLES st, hist, last
vars == <<st, hist, last>>

Acts == F(st).acts
Hidden(s) == [s EXCEPT !.ev = <<>>, !.ex = {}, !.xs = <<>>, !.err = "", !.errs = {}, !.dbg = 0, !.ret = "", !.wr = {}]
View == <<Hidden(st), IF F(st).hdepth < Len(hist) THEN SubSeq(hist, Len(hist) - F(st).hdepth + 1, Len(hist)) ELSE hist>>

Init == \E n \in 1..Len(Fixtures) : st = Init0(n) /\ hist = <<>> /\ last = 0

RECURSIVE ProbeObs(_, _)
ProbeObs(s, q) == IF q = <<>> THEN <<>>
                  ELSE IF ~Enabled(s, Head(q)) THEN <<[skip |-> TRUE]>> \o ProbeObs(s, Tail(q))
                  ELSE LET t == Step(s, Head(q)) IN <<Obs(t)>> \o ProbeObs(t, Tail(q))

Next == /\ Len(hist) < F(st).depth
        /\ \E n \in 1..Len(Acts) :
             /\ Enabled(st, Acts[n])
             /\ LET t == Step(st, Acts[n]) IN
                /\ st' = t /\ hist' = Append(hist, n) /\ last' = n
                /\ Emit /\ ~Ambiguous(t) => PrintT("EDGE " \o ToJson([fx |-> st.fx, h |-> hist, a |-> n, obs |-> Obs(t),
                                                     tail |-> ProbeObs(t, F(st).probes)]))
NotAmbiguous == ~Ambiguous(st)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* The properties, as invariants and action properties of the design *)

A == F(st').acts[last']                 \* the action of a step
Same(S, f, g) == \A i \in S : f[i] = g[i]

\* items which (transitively) depend on one of S
RECURSIVE Reach(_, _, _)
Reach(s, S, seen) == LET N == UNION {Deps(s, i) : i \in S} \ seen
                     IN IF N = {} THEN seen ELSE Reach(s, N, seen \cup N)
Dependents(s, i) == Reach(s, {i}, {i})

\* C01/C02/C03/C19: only the named item and its dependents change
NamedOps == {"upd", "refresh", "reset"}
Touched(s, a) == Dependents(s, a.i)
IsolationStep ==
  last' # 0 /\ A.op \in NamedOps /\ st'.err = "" =>
    \A i \in Items(st) \ Touched(st', A) :
      /\ i \in st.ld => (st'.cfg[i] = st.cfg[i] /\ st'.app[i] = st.app[i])
      /\ i \in st.on => (st'.obj[i] = st.obj[i] /\ st'.n[i] = st.n[i])
Isolation == [][IsolationStep]_vars

\* C01: the named values are the ones given, the rest is what it was
UpdateExactStep ==
  last' # 0 /\ A.op = "upd" /\ st'.err = "" /\ A.i \notin Deps(st', A.i) /\ st.pl \cap {"preupd", "preupd2"} = {} /\ A.i \in st.ld \cap st.sa =>
    \A k \in DOMAIN st.cfg[A.i] :
      st'.cfg[A.i][k] = IF k \in DOMAIN AsF(A.u) THEN AsF(A.u)[k] ELSE st.cfg[A.i][k]
UpdateExact == [][UpdateExactStep]_vars

\* C08/C01: the object of an item always has the values of its config
ObjectMatchesConfig == \A i \in st.on : \A k \in DOMAIN st.obj[i] : k \in DOMAIN st.cfg[i] => st.obj[i][k] = st.cfg[i][k]

\* C02: after a refresh the values are the persistent updates over the file as it is now
RefreshExactStep ==
  last' # 0 /\ A.op = "refresh" /\ st'.err = "" =>
    LET r == EvalFile(st', A.i)
        w == Over(r.d, st'.app[A.i])
    IN Ok(r.s) => \A k \in DOMAIN w : st'.cfg[A.i][k] = w[k] /\ (A.i \in st.ld => st'.app[A.i] = st.app[A.i])
RefreshExact == [][RefreshExactStep]_vars

\* C03: after a reset the values are those of the file with the section configs; no update is left
ResetExactStep ==
  last' # 0 /\ A.op = "reset" /\ st'.err = "" /\ A.i \notin Deps(st', A.i) =>
    LET r == EvalFile(st', A.i) IN
    Ok(r.s) => st'.cfg[A.i] = Over(r.d, SecOverlay(st', A.i)) /\ st'.app[A.i] = SecOverlay(st', A.i)
ResetExact == [][ResetExactStep]_vars

\* C04: a reload forgets everything about the items of the manager and nothing of other managers
ReloadExactStep ==
  last' # 0 /\ A.op \in {"reload", "setsrc", "srcbad"} =>
    LET M == MgrItems(st, A.m) IN
    /\ st'.err = "" => (st'.ld \cap M = {} /\ st'.on \cap M = {})
    /\ Same(Items(st) \ M, st.cfg, st'.cfg) /\ Same(Items(st) \ M, st.obj, st'.obj) /\ Same(Items(st) \ M, st.app, st'.app)
ReloadExact == [][ReloadExactStep]_vars

\* C06: an attribute which the file of a loaded item reads is up to date, unless it was overridden
\*      (files are not edited after loading in the fixtures which check this)
UpToDate ==
  \A i \in st.ld : \A k \in DOMAIN st.file[i] :
    LET e == st.file[i][k] IN
    (/\ e.t = "attr" /\ e.i \in st.on /\ k \notin DOMAIN st.app[i] /\ k \in DOMAIN st.cfg[i])
      => st.cfg[i][k] = st.obj[e.i][e.k]

\* C07: nothing runs after a call, no item depends on itself
Balanced == st.run = <<>> /\ st.ldg = <<>>
NoSelfDep == \A p \in st.soft \cup st.force : p[1] # p[2]
ForceIsSoft == st.force \subseteq st.soft
DepsGrow == [][st.soft \subseteq st'.soft /\ st.force \subseteq st'.force]_vars

\* C08: the object stays the same while it is held, except over a reload of its manager
RELOADS == {"reload", "setsrc", "srcbad"}
HeldStable == [][last' # 0 /\ A.op \notin RELOADS => st.held \subseteq st'.held /\ st.on \subseteq st'.on]_vars

\* C12: a batch has the effect of its updates one after the other
BatchStep ==
  last' # 0 /\ A.op = "batch" /\ st.pl \subseteq {"rec"} =>
    Hidden(st') = Hidden(FoldLeft(LAMBDA t, e : Update(t, e.i, AsF(e.u), G(e, "persist", TRUE)), Blank(st), A.q))
BatchIsUpdates == [][BatchStep]_vars

\* C11: after a product each varied item has the values of the last case
ProductStep ==
  last' # 0 /\ A.op = "prod" /\ A.form \notin {"sub", "subgen"} /\ st'.err = "" /\ st.pl \cap {"batch", "nodef"} = {} /\ AllCases(st, A.q) # <<>> =>
    LET c == AllCases(st, A.q) IN
    \A n \in 1..Len(c[Len(c)]) : LET e == c[Len(c)][n] IN
      A.items = <<e.i>> => \A k \in DOMAIN AsF(e.u) : st'.cfg[e.i][k] = AsF(e.u)[k]
ProductLast == [][ProductStep]_vars

\* C13: a config that was loaded changes exactly if hooks were called, first pre and then post
Evs(i) == SelectSeq(st.ev, LAMBDA e : e.p = i /\ (e.x \in {} \/ SubSeq(e.x, 1, 4) \in {"pre|", "post"}) /\ SubSeq(e.x, 1, 5) # "postu")
Alternate(q) == Len(q) % 2 = 0 /\ \A n \in 1..Len(q) : SubSeq(q[n].x, 1, 4) = IF n % 2 = 1 THEN "pre|" ELSE "post"
HooksAlternate == (st.err = "" /\ last # 0 /\ F(st).acts[last].op # "create") => \A i \in Items(st) : Alternate(Evs(i))
HooksOnChangeStep ==
  last' # 0 /\ A.op \in {"upd", "batch", "refresh", "reset", "resets", "run"} /\ st'.err = "" /\ "rec" \in st.pl =>
    \A i \in st.ld \cap st.sa : (\E k \in DOMAIN st.cfg[i] : k # "s" /\ st'.cfg[i][k] # st.cfg[i][k])
      => \E n \in 1..Len(st'.ev) : st'.ev[n].p = i
HooksOnChange == [][HooksOnChangeStep]_vars

\* C16/C20: looking and listing executes no file
LookStep == last' # 0 /\ A.op \in {"noop", "in", "miss", "updsec", "plug", "unplug", "nodef", "resetpl"} \cup RELOADS =>
              st'.ex = {} /\ (A.op \notin RELOADS => st'.cfg = st.cfg)
LookIsFree == [][LookStep]_vars
\* C22: plugins change nothing by themselves
PluginStep == last' # 0 /\ A.op \in {"plug", "unplug", "nodef", "resetpl"} => Hidden(st') = [Hidden(st) EXCEPT !.pl = st'.pl]
PluginIsFree == [][PluginStep]_vars
\* C22: without the default plugins an update changes one item only, and batches and cases none
NoDefaultStep ==
  last' # 0 /\ "nodef" \in st.pl /\ A.op \in {"upd", "batch", "refresh", "reset"} =>
    \A i \in st.ld : st'.cfg[i] # st.cfg[i] => IF A.op = "batch" THEN "batch" \in st.pl /\ \E e \in Rng(F(st).batch) : e.i = i ELSE A.i = i
NoDefault == [][NoDefaultStep]_vars
\* C19: a failed look up changes nothing
MissStep == last' # 0 /\ A.op \in {"miss", "noop", "in"} => Hidden(st') = Hidden(st)
MissIsFree == [][MissStep]_vars
=============================================================================
