------------------------------ MODULE PFCTrace ------------------------------
(***************************************************************************)
(* Validates traces recorded from the real code: every line is one action, *)
(* with the observations made after it.  A line with op "init" starts a    *)
(* new trace.  The verdict is total: a mismatch is printed with its trace, *)
(* line and clause, the rest of that trace is skipped, and the next trace  *)
(* is checked.  Lines list in "cl" the clauses which are compared.         *)
(***************************************************************************)
EXTENDS PFC
Trace == ndJsonDeserialize(IOEnv.PFC_TRACE)
VARIABLES l, st, skip, bad, done, skipped
vars == <<l, st, skip, bad, done, skipped>>

SetOf(x) == IF DOMAIN x = {} THEN {} ELSE Rng(x)
\* events of each item, in order
EvOf(q) == {<<p, LET w == SelectSeq(q, LAMBDA y : y.p = p) IN [n \in 1..Len(w) |-> w[n].x]>> : p \in {x.p : x \in SetOf(q)}}

\* one clause: expected value of the specification and observed value
Exp(c, o) == CASE c = "ret" -> o.ret
               [] c = "held" -> {k \o "|" \o o.held[k] : k \in DOMAIN o.held}
               [] c = "ev" -> EvOf(o.ev)
               [] c = "ex" -> o.ex
               [] c = "xs" -> o.xs
               [] c = "soft" -> o.soft
               [] c = "force" -> o.force
               [] c = "errs" -> o.errs
               [] c = "dbg" -> o.dbg
               [] c = "stk" -> o.stk
               [] c = "wr" -> o.wr
Got(c, o) == CASE c = "ret" -> o.ret
               [] c = "held" -> {k \o "|" \o o.held[k] : k \in DOMAIN o.held}
               [] c = "ev" -> EvOf(o.ev)
               [] c = "ex" -> SetOf(o.ex)
               [] c = "xs" -> o.xs
               [] c = "soft" -> SetOf(o.soft)
               [] c = "force" -> SetOf(o.force)
               [] c = "errs" -> o.errs
               [] c = "dbg" -> o.dbg
               [] c = "stk" -> o.stk
               [] c = "wr" -> SetOf(o.wr)

Init == l = 1 /\ st = Init0(1) /\ skip = FALSE /\ bad = 0 /\ done = FALSE /\ skipped = 0
Line == Trace[l]
InitLine == /\ l <= Len(Trace) /\ Line.op = "init"
            /\ st' = Init0(Line.fx) /\ skip' = FALSE /\ l' = l + 1 /\ UNCHANGED <<bad, done, skipped>>
SkipLine == /\ l <= Len(Trace) /\ Line.op # "init" /\ skip
            /\ l' = l + 1 /\ skipped' = skipped + 1 /\ UNCHANGED <<st, skip, bad, done>>
StepLine == /\ l <= Len(Trace) /\ Line.op # "init" /\ ~skip
            /\ LET t == Step(st, Line)
                   o == Obs(t)
                   C == IF Ambiguous(t) THEN {} ELSE SetOf(Line.cl)
                   wrong == {c \in C : Exp(c, o) # Got(c, Line.obs)}
               IN /\ st' = t
                  /\ skip' = (wrong # {} \/ Ambiguous(t))
                  /\ bad' = IF wrong = {} THEN bad ELSE bad + 1
                  /\ IF wrong = {} THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([line |-> l, wrong |->
                        [c \in wrong |-> [exp |-> Exp(c, o), got |-> Got(c, Line.obs)]]]))
            /\ l' = l + 1 /\ UNCHANGED <<done, skipped>>
Finish == /\ l = Len(Trace) + 1 /\ ~done /\ done' = TRUE
          /\ PrintT("VERDICT " \o ToJson([lines |-> Len(Trace), bad |-> bad, skipped |-> skipped]))
          /\ UNCHANGED <<l, st, skip, bad, skipped>>
Next == InitLine \/ SkipLine \/ StepLine \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
