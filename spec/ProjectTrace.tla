------------------------------ MODULE ProjectTrace ------------------------------
(* Validates traces recorded from the real code against Project.tla; see PFCTrace.tla *)
EXTENDS Project
Trace == ndJsonDeserialize(IOEnv.PFC_TRACE)
VARIABLES l, st, skip, bad, done, skipped
vars == <<l, st, skip, bad, done, skipped>>
Init == l = 1 /\ st = Init0(1) /\ skip = FALSE /\ bad = 0 /\ done = FALSE /\ skipped = 0
Line == Trace[l]
InitLine == /\ l <= Len(Trace) /\ Line.op = "init"
            /\ st' = Init0(Line.fx) /\ skip' = FALSE /\ l' = l + 1 /\ UNCHANGED <<bad, done, skipped>>
SkipLine == /\ l <= Len(Trace) /\ Line.op # "init" /\ skip
            /\ l' = l + 1 /\ skipped' = skipped + 1 /\ UNCHANGED <<st, skip, bad, done>>
StepLine == /\ l <= Len(Trace) /\ Line.op # "init" /\ ~skip
            /\ LET t == Step(st, Line)
                   o == Obs(t)
                   wrong == {c \in Rng(Line.cl) : o[c] # Line.obs[c]}
               IN /\ st' = t /\ skip' = (wrong # {})
                  /\ bad' = IF wrong = {} THEN bad ELSE bad + 1
                  /\ IF wrong = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> l, wrong |->
                        [c \in wrong |-> [exp |-> o[c], got |-> Line.obs[c]]]]))
            /\ l' = l + 1 /\ UNCHANGED <<done, skipped>>
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad, skipped |-> skipped]))
          /\ UNCHANGED <<l, st, skip, bad, skipped>>
Next == InitLine \/ SkipLine \/ StepLine \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
