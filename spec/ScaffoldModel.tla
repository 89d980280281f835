----------------------------- MODULE ScaffoldModel ----------------------------
(* Bounded exhaustive exploration of Scaffold.tla with its invariants; emits every transition for replay. *)
EXTENDS Scaffold
CONSTANTS Emit
VARIABLES st, hist, last
vars == <<st, hist, last>>
Acts == F(st).acts
View == <<Hidden(st), IF F(st).hdepth < Len(hist) THEN SubSeq(hist, Len(hist) - F(st).hdepth + 1, Len(hist)) ELSE hist>>
Init == \E n \in 1..Len(Fixtures) : st = Init0(n) /\ hist = <<>> /\ last = 0
RECURSIVE ProbeObs(_, _)
ProbeObs(s, q) == IF q = <<>> THEN <<>>
                  ELSE IF ~Enabled(s, Head(q)) THEN <<[skip |-> TRUE]>> \o ProbeObs(s, Tail(q))
                  ELSE LET t == Step(s, Head(q)) IN <<Obs(t)>> \o ProbeObs(t, Tail(q))
Next == /\ Len(hist) < F(st).depth
        /\ \E n \in 1..Len(Acts) :
             /\ Enabled(st, Acts[n])
             /\ LET t == Step(st, Acts[n]) IN
                /\ st' = t /\ hist' = Append(hist, n) /\ last' = n
                /\ Emit => PrintT("EDGE " \o ToJson([fx |-> st.fx, h |-> hist, a |-> n, obs |-> Obs(t),
                                                     tail |-> ProbeObs(t, F(st).probes)]))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
A == F(st').acts[last']
IsLoad == last' # 0 /\ A.op = "load"
FileOf(s, i) == s.it[i].f
\* what the user wrote stays, in its order
UserKept == [][IsLoad => \A i \in Ids(st.fx) : Users(FileOf(st', i)) = Users(FileOf(st, i))]_vars
\* and keeps its effect
EffectKept == [][IsLoad => \A i \in Ids(st.fx) :
    LET r == Eval(st.fx, FileOf(st, i)) q == Eval(st.fx, FileOf(st', i))
    IN r.ok => q.ok /\ \A x \in DOMAIN r.env : q.env[x] = r.env[x]]_vars
\* every parameter of every item of the dict files has a value: the user's, or the default
AllAssigned == [][IsLoad => \A i \in Ids(st.fx) : st.it[i].in =>
    LET r == Eval(st.fx, FileOf(st, i)) q == Eval(st.fx, FileOf(st', i)) IN
    st'.it[i].ex /\ (q.ok => \A m \in 1..Len(Sig(st, i)) : LET p == Sig(st, i)[m] IN
        q.env[p.n] = IF r.ok /\ p.n \in DOMAIN r.env THEN r.env[p.n]
                     ELSE IF r.ok THEN p.v ELSE q.env[p.n])]_vars
\* a second load changes nothing
Idempotent == st.loaded /\ last # 0 /\ F(st).acts[last].op = "load" => Load(st) = st
\* files of removed items and section files stay
OthersStay == [][IsLoad => (\A p \in DOMAIN st.sec : st.sec[p] # "" => st'.sec[p] = st.sec[p]) /\ \A i \in Ids(st.fx) : ~st.it[i].in => st'.it[i] = st.it[i]]_vars
=============================================================================
