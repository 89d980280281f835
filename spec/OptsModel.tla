------------------------------- MODULE OptsModel ------------------------------
(* Bounded exhaustive exploration of Opts.tla with its invariants; emits every transition for replay. *)
EXTENDS Opts
CONSTANTS Emit
VARIABLES st, hist, last
vars == <<st, hist, last>>
Acts == F(st).acts
View == <<Hidden(st), IF F(st).hdepth < Len(hist) THEN SubSeq(hist, Len(hist) - F(st).hdepth + 1, Len(hist)) ELSE hist>>
Init == \E n \in 1..Len(Fixtures) : st = Init0(n) /\ hist = <<>> /\ last = 0
RECURSIVE ProbeObs(_, _)
ProbeObs(s, q) == IF q = <<>> THEN <<>>
                  ELSE IF ~Enabled(s, Head(q)) THEN <<[skip |-> TRUE]>> \o ProbeObs(s, Tail(q))
                  ELSE LET t == Step(s, Head(q)) IN <<Obs(t)>> \o ProbeObs(t, Tail(q))
Next == /\ Len(hist) < F(st).depth
        /\ \E n \in 1..Len(Acts) :
             /\ Enabled(st, Acts[n])
             /\ LET t == Step(st, Acts[n]) IN
                /\ st' = t /\ hist' = Append(hist, n) /\ last' = n
                /\ Emit => PrintT("EDGE " \o ToJson([fx |-> st.fx, h |-> hist, a |-> n, obs |-> Obs(t),
                                                     tail |-> ProbeObs(t, F(st).probes)]))
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
A == F(st').acts[last']
\* C17: exactly one file handler if a folder is set, for that folder
HandlerMatchesFolder == st.h = st.opt.lf
\* C17: what is logged is in the file of the current folder and in no other (unless the action changes the folder)
OneFileStep == last' # 0 /\ A.op \in {"log", "print"} =>
    /\ \A f \in Folders(st) : st'.files[f] = IF f = st.h THEN st'.rec ELSE <<>>
OneFile == [][OneFileStep]_vars
\* C17: setting an option changes no other, a failed set changes nothing, leaving a context resets everything
OnlyNamedStep == last' # 0 /\ A.op \in {"set", "reset"} =>
    LET named == IF A.op = "set" THEN {A.q[n].o : n \in 1..Len(A.q)} ELSE Rng(A.q)
    IN \A o \in Rng(NAMES) \ named : st'.opt[o] = st.opt[o]
OnlyNamed == [][OnlyNamedStep]_vars
FailedSetStep == last' # 0 /\ A.op = "set" /\ st'.err # "" => st'.opt = st.opt /\ st'.h = st.h
FailedSet == [][FailedSetStep]_vars
ResetDefaultStep == last' # 0 =>
    /\ A.op \in {"resetall", "exit"} => st'.opt = Default /\ st'.err = ""
    /\ A.op = "reset" => st'.err = "" /\ \A n \in 1..Len(A.q) : st'.opt[A.q[n]] = Default[A.q[n]]
ResetDefault == [][ResetDefaultStep]_vars
\* C18: after an action stdout is not logged any more
StdoutBack == ~st.cap
\* C18: with the option on, nothing which is printed in a run reaches stdout
CapturedStep == last' # 0 /\ A.op \in {"run", "prod"} /\ st.opt.so = "T" /\ st'.opt.so = "T" => st'.out = <<>>
Captured == [][CapturedStep]_vars
\* C18: with the option off throughout, everything goes to stdout
Silent(q) == \A n \in 1..Len(q) : \A k \in 1..Len(F(st).items[q[n]].ops) : F(st).items[q[n]].ops[k].op = "print"
DirectStep == last' # 0 /\ A.op = "run" /\ st.opt.so = "F" /\ Silent(A.q) =>
    st'.rec = <<>> /\ Len(st'.out) = FoldLeft(LAMBDA a, i : a + Len(F(st).items[i].ops), 0, A.q)
Direct == [][DirectStep]_vars
=============================================================================
