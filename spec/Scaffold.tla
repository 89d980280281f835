------------------------------- MODULE Scaffold -------------------------------
(***************************************************************************)
(* Scaffolding of config files (property C14).                             *)
(*                                                                         *)
(* A config file is a sequence of blocks: blocks the user wrote (u # ""),  *)
(* scaffolded entries of parameters (k # "") and the scaffolded assignment *)
(* of the Selector (k = "s").  A block has operations: bind a name to a    *)
(* value, or to the value of another name.  Evaluating a file yields the   *)
(* values of its names, or an error when a name is read too early.         *)
(* Scaffolding comes to: a missing file is created, missing names are      *)
(* appended, everything else stays.  Imports are not in the state: whatever *)
(* values and annotations a load adds must evaluate, wherever their parts  *)
(* come from.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Fixtures == JsonDeserialize(IOEnv.PFC_FIXTURES)
Rng(q) == {q[n] : n \in 1..Len(q)}
F(s) == Fixtures[s.fx]
Ids(n) == Rng(Fixtures[n].ids)
Sig(s, i) == F(s).items[i].sigs[s.it[i].sig]          \* sequence of [n, v, t, a]
UB(n, u) == Fixtures[n].blocks[u]                     \* user block: [ops, rank, head]

Init0(n) ==
  [ fx |-> n, loaded |-> FALSE,
    it |-> [i \in Ids(n) |-> [sig |-> 1, in |-> i \in Rng(Fixtures[n].initial), ex |-> FALSE, f |-> <<>>]],
    sec |-> [p \in Rng(Fixtures[n].paths) |-> ""],
    ret |-> "" ]
-----------------------------------------------------------------------------
(* Blocks and evaluation *)
User(u) == [u |-> u, k |-> "", v |-> "", t |-> "", a |-> ""]
Entry(p) == [u |-> "", k |-> p.n, v |-> p.v, t |-> p.t, a |-> p.a]
Sel == [u |-> "", k |-> "s", v |-> "sel", t |-> "", a |-> ""]
Bind(k, v) == [k |-> k, v |-> v, c |-> ""]
OpsOf(n, b) == IF b.u # "" THEN UB(n, b.u).ops
               ELSE (IF b.t = "" THEN <<>> ELSE <<Bind("@" \o b.k, b.t)>>) \o <<Bind(b.k, b.v)>>
Head_(n, b) == b.u # "" /\ UB(n, b.u).head
Binds(n, b) == {OpsOf(n, b)[m].k : m \in 1..Len(OpsOf(n, b))}
Bound(n, f) == UNION {Binds(n, f[m]) : m \in 1..Len(f)}

Put(e, k, v) == [x \in DOMAIN e \cup {k} |-> IF x = k THEN v ELSE e[x]]
EvalOp(r, o) == IF ~r.ok THEN r
                ELSE IF o.c = "" THEN [r EXCEPT !.env = Put(@, o.k, o.v)]
                ELSE IF o.c \in DOMAIN r.env THEN [r EXCEPT !.env = Put(@, o.k, r.env[o.c])]
                ELSE [r EXCEPT !.ok = FALSE]
Eval(n, f) == FoldLeft(LAMBDA r, b : FoldLeft(EvalOp, r, OpsOf(n, b)), [ok |-> TRUE, env |-> <<>>], f)

-----------------------------------------------------------------------------
(* Loading *)
Leading(n, f) == CHOOSE m \in 0..Len(f) : (\A j \in 1..m : Head_(n, f[j])) /\ (m < Len(f) => ~Head_(n, f[m + 1]))
AddSel(n, f) == IF "s" \in Bound(n, f) THEN f
                ELSE LET m == Leading(n, f) IN SubSeq(f, 1, m) \o <<Sel>> \o SubSeq(f, m + 1, Len(f))
AddParams(n, f, sig) == FoldLeft(LAMBDA g, p : IF p.n \in Bound(n, f) THEN g ELSE Append(g, Entry(p)), f, sig)
\* the items of a specific class dict may have other assignments than the Selector's in every file
Scaffold(n, i, f, sig) == LET it == Fixtures[n].items[i]
                             g == AddParams(n, AddParams(n, f, sig), it.extra)
                         IN IF it.sel THEN AddSel(n, g) ELSE g
LoadItem(s, i) == IF ~s.it[i].in THEN s.it[i]
                  ELSE [s.it[i] EXCEPT !.ex = TRUE, !.f = Scaffold(s.fx, i, @, Sig(s, i))]
\* the sections of the main dict file get a blank section config; '.' is the whole manager
Needs(s, p) == p = "." \/ \E i \in Rng(F(s).under[p]) : s.it[i].in
Load(s) == [s EXCEPT !.it = [i \in Ids(s.fx) |-> LoadItem(s, i)], !.loaded = TRUE,
                     !.sec = [p \in DOMAIN @ |-> IF @[p] = "" /\ Needs(s, p) THEN "new" ELSE @[p]]]

-----------------------------------------------------------------------------
(* Edits of the user *)
FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y
At(f, k) == {m \in 1..Len(f) : f[m].u = "" /\ f[m].k = k}
Uses(f, u) == {m \in 1..Len(f) : f[m].u = u}
Ranked(n, f, r) == {m \in 1..Len(f) : f[m].u # "" /\ UB(n, f[m].u).rank < r}    \* docstrings and __future__ imports come first
InsAt(f, m, b) == SubSeq(f, 1, m - 1) \o <<b>> \o SubSeq(f, m, Len(f))
Del(f, m) == SubSeq(f, 1, m - 1) \o SubSeq(f, m + 1, Len(f))
Ins(n, f, u, pos) ==
  CASE pos = "top" -> InsAt(f, Cardinality(Ranked(n, f, UB(n, u).rank)) + 1, User(u))
    [] pos = "end" -> Append(f, User(u))
    [] OTHER -> InsAt(f, FirstOf(At(f, pos)), User(u))
Edit(s, i, f) == [s EXCEPT !.it[i].f = f, !.it[i].ex = TRUE]

Act(s, a) ==
  CASE a.op = "load"  -> Load(s)
    [] a.op = "create" -> Load([s EXCEPT !.it[a.i].in = TRUE])    \* load, then pm.create
    [] a.op = "write" -> Edit(s, a.i, [m \in 1..Len(a.q) |-> User(a.q[m])])
    [] a.op = "ins"   -> Edit(s, a.i, Ins(s.fx, s.it[a.i].f, a.b, a.pos))
    [] a.op = "sub"   -> Edit(s, a.i, [s.it[a.i].f EXCEPT ![FirstOf(At(s.it[a.i].f, a.p))] = User(a.b)])
    [] a.op = "del"   -> Edit(s, a.i, Del(s.it[a.i].f, FirstOf(At(s.it[a.i].f, a.p))))
    [] a.op = "delb"  -> Edit(s, a.i, Del(s.it[a.i].f, FirstOf(Uses(s.it[a.i].f, a.b))))
    [] a.op = "rm"    -> [s EXCEPT !.it[a.i].f = <<>>, !.it[a.i].ex = FALSE]
    [] a.op = "form"  -> s                          \* newlines, blank lines, deleted imports: nothing which counts
    [] a.op = "sig"   -> [s EXCEPT !.it[a.i].sig = a.n]
    [] a.op = "drop"  -> [s EXCEPT !.it[a.i].in = FALSE]
    [] a.op = "add"   -> [s EXCEPT !.it[a.i].in = TRUE]
    [] a.op = "sec"   -> [s EXCEPT !.sec[a.path] = a.c]
    [] a.op = "rmsec" -> [s EXCEPT !.sec[a.path] = ""]

Enabled(s, a) ==
  CASE a.op \in {"load", "write", "sec"} -> TRUE
    [] a.op = "ins"  -> LET f == s.it[a.i].f IN
                        /\ Uses(f, a.b) = {}
                        /\ a.pos \in {"top", "end"} \/ At(f, a.pos) # {}
                        /\ UB(s.fx, a.b).rank < 2 => a.pos = "top" /\ \A m \in 1..Len(f) : f[m].u # "" =>
                                                     UB(s.fx, f[m].u).rank # UB(s.fx, a.b).rank
    [] a.op = "sub"  -> At(s.it[a.i].f, a.p) # {} /\ Uses(s.it[a.i].f, a.b) = {}
    [] a.op = "del"  -> At(s.it[a.i].f, a.p) # {}
    [] a.op = "delb" -> Uses(s.it[a.i].f, a.b) # {}
    [] a.op \in {"rm", "form"} -> s.it[a.i].ex
    [] a.op = "sig"  -> s.it[a.i].sig # a.n
    [] a.op = "drop" -> s.it[a.i].in
    [] a.op = "add"  -> ~s.it[a.i].in
    [] a.op = "create" -> ~s.it[a.i].in /\ Eval(s.fx, s.it[a.i].f).ok
    [] a.op = "rmsec" -> s.sec[a.path] # ""

Step(s, a) == Act(s, a)
-----------------------------------------------------------------------------
Users(f) == LET q == SelectSeq(f, LAMBDA b : b.u # "") IN [m \in 1..Len(q) |-> q[m].u]
Entries(f) == LET q == SelectSeq(f, LAMBDA b : b.k \notin {"", "s"}) IN [k \in {q[m].k : m \in 1..Len(q)} |-> (CHOOSE b \in Rng(q) : b.k = k).a]
ObsFile(s, i) == IF ~s.it[i].ex THEN [st |-> "missing", usr |-> <<>>, ent |-> <<>>]
                 ELSE [st |-> "ok", usr |-> Users(s.it[i].f), ent |-> Entries(s.it[i].f)]
\* the values of the names of the fixture
ObsEval(s, i) == IF ~s.it[i].ex THEN [st |-> "missing", env |-> <<>>]
                 ELSE LET r == Eval(s.fx, s.it[i].f) IN
                      IF ~r.ok THEN [st |-> "error", env |-> <<>>]
                      ELSE [st |-> "ok", env |-> [x \in DOMAIN r.env \cap Rng(F(s).names) |-> r.env[x]]]
\* what the manager gives for the parameters of the item (modules are not values of a config)
ObsGot(s, i) == IF ~s.it[i].in THEN [st |-> "missing", env |-> <<>>]
                ELSE LET r == Eval(s.fx, s.it[i].f)
                         ps == {Sig(s, i)[m].n : m \in 1..Len(Sig(s, i))} \cap DOMAIN r.env IN
                     IF ~r.ok THEN [st |-> "error", env |-> <<>>]
                     ELSE IF \E x \in ps : r.env[x] = "mod:json" THEN [st |-> "module", env |-> <<>>]
                     ELSE [st |-> "ok", env |-> [x \in ps |-> r.env[x]]]
Obs(s) == [ret |-> s.ret,
           file |-> [i \in Ids(s.fx) |-> ObsFile(s, i)],
           val |-> [i \in Ids(s.fx) |-> ObsEval(s, i)],
           got |-> IF s.loaded THEN [i \in Ids(s.fx) |-> ObsGot(s, i)] ELSE <<>>,
           sec |-> [p \in {p \in DOMAIN s.sec : s.sec[p] # ""} |-> s.sec[p]],
           idem |-> <<>>, dict |-> "same", stray |-> <<>>]
Hidden(s) == s
=============================================================================
