-------------------------------- MODULE Opts --------------------------------
(***************************************************************************)
(* Options, the log file, and the logging of stdout (properties C17, C18). *)
(*                                                                         *)
(* Texts which are printed or logged are tokens.  The observations of an   *)
(* action are the tokens which reached the log (rec), each log file        *)
(* (files) and stdout itself (out), the options as read afterwards, the    *)
(* file handlers of the logger, and whether sys.stdout is what it was.     *)
(* A running item is a program of prints, log calls, nested runs, option   *)
(* changes and exceptions.  Step is a deterministic transformer, used by   *)
(* OptsModel.tla and OptsTrace.tla in the same way as the kernel's.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Fixtures == JsonDeserialize(IOEnv.PFC_FIXTURES)
Rng(q) == {q[n] : n \in 1..Len(q)}
F(s) == Fixtures[s.fx]
Folders(s) == Rng(F(s).folders)

NAMES == <<"so", "lf", "fr", "nk">>       \* log_stdout, log_folder, rollover frequency, number of files to keep
Default == [so |-> "F", lf |-> "", fr |-> "D", nk |-> "0"]
Nothing(n) == [f \in Rng(Fixtures[n].folders) |-> <<>>]

Init0(n) ==
  [ fx |-> n, opt |-> Default,
    h   |-> "",                           \* the file handler: "" or its folder
    hp  |-> "",                           \* its parameters
    ctx |-> 0,                            \* nesting of option contexts
    cap |-> FALSE,                        \* stdout is being logged
    tm  |-> 1,                            \* the file which is sys.stdout while nothing is logged
    rec |-> <<>>, out |-> <<>>, files |-> Nothing(n), err |-> "", ret |-> "", dbg |-> 0 ]

Fail(s, e) == IF s.err = "" THEN [s EXCEPT !.err = e] ELSE s
Ok(s) == s.err = ""
-----------------------------------------------------------------------------
(* Setting an option.  One which cannot take effect raises and stays as it was. *)
Bad(s, o, v) == o = "lf" /\ v # "" /\ (v \in Rng(F(s).badfolders) \/ s.opt.fr \in Rng(F(s).badfreqs))
Set(s, o, v) ==
  IF ~Ok(s) THEN s
  ELSE IF o = "lf" /\ v # s.opt.lf /\ Bad(s, o, v) THEN Fail(s, "!raise")
  ELSE IF o = "lf" /\ v # s.opt.lf THEN [s EXCEPT !.opt.lf = v, !.h = v, !.hp = s.opt.fr \o "|" \o s.opt.nk]
  ELSE [s EXCEPT !.opt[o] = v]
SetAll(s, q) == FoldLeft(LAMBDA t, e : Set(t, e.o, e.v), s, q)
ResetAll(s, q) == FoldLeft(LAMBDA t, o : Set(t, o, Default[o]), s, q)

-----------------------------------------------------------------------------
(* Logging, printing, running *)
Log(s, tok) == IF ~Ok(s) THEN s
               ELSE [s EXCEPT !.rec = Append(@, tok), !.files = IF s.h = "" THEN @ ELSE [@ EXCEPT ![s.h] = Append(@, tok)]]
Out(s, tok) == IF ~Ok(s) THEN s ELSE IF s.cap THEN Log(s, tok) ELSE [s EXCEPT !.out = Append(@, IF s.tm = 1 THEN tok ELSE "2" \o tok)]

RECURSIVE Body(_, _), RunTop(_, _, _), RunAll(_, _), RunFc(_, _)
RunItem(s, i) == Body(s, F(s).items[i].ops)
RunAll(s, q) == FoldLeft(LAMBDA t, i : IF Ok(t) THEN RunItem(t, i) ELSE t, s, q)
\* every element is run, an exception of one ends only that one; an interrupt ends everything
RunFc(s, q) == FoldLeft(LAMBDA t, i : IF ~Ok(t) THEN t
                                      ELSE LET u == RunItem(t, i) IN
                                           IF u.err \in {"!int", "!exit"} THEN [u EXCEPT !.err = "!exit"]
                                           ELSE [u EXCEPT !.err = ""], s, q)
RunMode(s, m, q) ==
  CASE F(s).mode[m] = "plain" -> RunAll(s, q)
    [] F(s).mode[m] = "fc"    -> RunFc(s, q)
    [] OTHER -> LET u == RunAll(s, q) IN
                IF u.err \in {"!int", "!exit"} THEN [u EXCEPT !.err = "!exit"]
                ELSE IF Ok(u) THEN u ELSE [u EXCEPT !.err = "", !.dbg = @ + 1]
\* stdout is logged if the option is on when the run starts, or if an outer run logs it
RunTop(s, m, q) == IF ~Ok(s) THEN s
                   ELSE [RunMode([s EXCEPT !.cap = @ \/ s.opt.so = "T"], m, q) EXCEPT !.cap = s.cap]

Op(s, o) ==
  CASE o.op = "print" -> Out(s, o.v)
    [] o.op = "log"   -> Log(s, o.v)
    [] o.op = "raise" -> Fail(s, o.v)
    [] o.op = "set"   -> Set(s, o.o, o.v)
    [] o.op = "reset" -> ResetAll(s, NAMES)
    [] o.op = "run"   -> RunTop(s, F(s).items[o.i].m, <<o.i>>)
    [] o.op = "call"  -> RunItem(s, o.i)
    [] o.op = "try"   -> LET u == RunTop(s, F(s).items[o.i].m, <<o.i>>) IN
                         IF u.err \in {"!int", "!exit"} THEN u ELSE [u EXCEPT !.err = ""]
    \* the item opens an options context around a run
    [] o.op = "with"  -> LET a == Set(s, o.o, o.v)
                             b == RunTop(a, F(s).items[o.i].m, <<o.i>>)
                             c == ResetAll([b EXCEPT !.err = ""], NAMES)
                         IN IF Ok(a) THEN [c EXCEPT !.err = b.err] ELSE a
Body(s, q) == FoldLeft(LAMBDA t, o : IF Ok(t) THEN Op(t, o) ELSE t, s, q)
-----------------------------------------------------------------------------
Blank(s) == [s EXCEPT !.rec = <<>>, !.out = <<>>, !.files = Nothing(s.fx), !.err = "", !.ret = "", !.dbg = 0]

Act(s, a) ==
  CASE a.op \in {"set", "sets"} -> SetAll(s, a.q)
    [] a.op = "reset"  -> ResetAll(s, a.q)
    [] a.op = "resetall" -> ResetAll(s, NAMES)
    [] a.op = "enter"  -> LET t == SetAll(s, a.q) IN IF Ok(t) THEN [t EXCEPT !.ctx = @ + 1] ELSE t
    [] a.op = "exit"   -> [ResetAll(s, NAMES) EXCEPT !.ctx = @ - 1]
    [] a.op = "log"    -> Log(s, a.v)
    [] a.op = "print"  -> Out(s, a.v)
    [] a.op = "run"    -> RunTop(s, a.m, a.q)
    \* two cases; the items of a case are run one at a time
    [] a.op = "prod"   -> FoldLeft(LAMBDA t, i : RunTop(t, a.m, <<i>>), s, a.q \o a.q)
    [] a.op = "call"   -> RunItem(s, a.i)
    \* the user replaces sys.stdout between runs
    [] a.op = "redirect" -> [s EXCEPT !.tm = a.n]

Enabled(s, a) == CASE a.op = "exit" -> s.ctx > 0
                   [] a.op = "enter" -> s.ctx < 3
                   [] OTHER -> TRUE
Step(s, a) == LET t == Act(Blank(s), a) IN [t EXCEPT !.ret = t.err]
Ambiguous(s) == FALSE

Obs(s) == [ret |-> s.ret, opt |-> s.opt.so \o "|" \o s.opt.lf \o "|" \o s.opt.fr \o "|" \o s.opt.nk,
           h |-> IF s.h = "" THEN <<>> ELSE <<s.h>>, hp |-> IF s.h = "" THEN "" ELSE s.hp, rec |-> s.rec, out |-> s.out, files |-> s.files,
           same |-> "same", dbg |-> s.dbg]
Hidden(s) == Blank(s)
=============================================================================
