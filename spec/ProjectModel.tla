----------------------------- MODULE ProjectModel -----------------------------
(* Bounded exhaustive exploration of Project.tla with its invariants; emits every transition for replay. *)
EXTENDS Project
CONSTANTS Emit
VARIABLES st, hist, last
vars == <<st, hist, last>>
Acts == F(st).acts
View == <<Hidden(st), IF F(st).hdepth < Len(hist) THEN SubSeq(hist, Len(hist) - F(st).hdepth + 1, Len(hist)) ELSE hist>>
Init == \E n \in 1..Len(Fixtures) : st = Init0(n) /\ hist = <<>> /\ last = 0
RECURSIVE ProbeObs(_, _)
ProbeObs(s, q) == IF q = <<>> THEN <<>>
                  ELSE IF ~Enabled(s, Head(q)) THEN <<[skip |-> TRUE]>> \o ProbeObs(s, Tail(q))
                  ELSE LET t == Step(s, Head(q)) IN <<Obs(t)>> \o ProbeObs(t, Tail(q))
Next == /\ Len(hist) < F(st).depth
        /\ \E n \in 1..Len(Acts) :
             /\ Enabled(st, Acts[n])
             /\ LET t == Step(st, Acts[n]) IN
                /\ st' = t /\ hist' = Append(hist, n) /\ last' = n
                /\ Emit => PrintT("EDGE " \o ToJson([fx |-> st.fx, h |-> hist, a |-> n, obs |-> Obs(t),
                                                     tail |-> ProbeObs(t, F(st).probes)]))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
A == F(st').acts[last']
\* a file is in a folder, and every folder of what is there is there
Folders == \A p \in Paths(st) : Has(st, p) => \A d \in Rng(F(st).anc[p]) : st.fs[d] = "dir"
\* creating a manager gives it a complete project ...
CompleteStep == last' # 0 /\ A.op = "new" /\ st'.ret = "made" =>
    /\ \A f \in Rng(Files(A.proj, A.dicts)) : Has(st', f)
    /\ Has(st', CfgDir(A.proj, A.cfg))
    /\ st.log # "" => Has(st', st.log)
Complete == [][CompleteStep]_vars
\* ... and creating or loading one keeps whatever was there
KeepStep == last' # 0 /\ A.op \in {"new", "load", "vals"} => \A p \in Paths(st) : Has(st, p) => st'.fs[p] = st.fs[p]
Keep == [][KeepStep]_vars
\* only the parts of its own project (and the log folder) are created
OwnStep == last' # 0 /\ A.op = "new" =>
    \A p \in Paths(st) : st'.fs[p] # st.fs[p] =>
        \/ p \in Rng(Files(A.proj, A.dicts)) \cup {CfgDir(A.proj, A.cfg), st.log}
        \/ p \in Rng(F(st).anc[CfgDir(A.proj, A.cfg)]) \/ (st.log # "" /\ p \in Rng(F(st).anc[st.log]))
Own == [][OwnStep]_vars
\* the latest manager of a name is the active one, the others stay
LatestStep == last' # 0 /\ A.op # "forget" => \A m \in Names(st) :
    IF A.op = "new" /\ A.m = m /\ st'.ret = "made" THEN st'.act[m].no = st.made + 1 ELSE st'.act[m].no = st.act[m].no
Latest == [][LatestStep]_vars
\* a refused construction has no effect; nor has finding a manager
NoEffectStep == last' # 0 /\ (A.op \in {"file", "path", "sel", "drop"} \/ (A.op = "new" /\ st'.ret = "ValueError")) => Hidden(st') = Hidden(st)
NoEffect == [][NoEffectStep]_vars
=============================================================================
