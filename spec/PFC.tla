-------------------------------- MODULE PFC --------------------------------
(***************************************************************************)
(* Kernel specification of pyfileconf: configs, objects, updates, refresh, *)
(* reset, reload, section configs, config-file and run-time dependencies,  *)
(* propagation, running, batch and product runs, hooks and plugins.        *)
(*                                                                         *)
(* One API call of the library is one action.  The specification is        *)
(* written as a deterministic transformer Step(st, a) of a state record,   *)
(* so that the same definitions serve                                      *)
(*   - PFCModel.tla: TLC explores every sequence of the actions of a       *)
(*     fixture, checks invariants and emits every transition, which the    *)
(*     harness replays against the real code;                              *)
(*   - PFCTrace.tla: TLC validates traces recorded from the real code.     *)
(*                                                                         *)
(* All values are strings (an injective encoding made by the harness).     *)
(* A fixture (project layout: managers, items, files, bodies) is data.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Fixtures == JsonDeserialize(IOEnv.PFC_FIXTURES)

EmptyF == [x \in {} |-> ""]
Over(f, g) == g @@ f                  \* g overrides f
Rng(q) == {q[n] : n \in 1..Len(q)}
G(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
LastOr(q, d) == IF q = <<>> THEN d ELSE q[Len(q)]

F(s) == Fixtures[s.fx]
It(s, i) == F(s).it[i]
Items(s) == DOMAIN F(s).it
Secs(s) == DOMAIN F(s).mem
PsSet(s, i) == Rng(It(s, i).ps)
MgrItems(s, m) == {i \in Items(s) : It(s, i).m = m}

Init0(n) ==
  LET fx == Fixtures[n] IN
  [ fx    |-> n,
    file  |-> fx.file,                       \* config file: key -> expression
    bad   |-> {},                            \* items whose file raises
    fe    |-> Rng(fx.has),                   \* items with a config file
    has   |-> Rng(fx.has),                   \* items which exist in the loaded managers
    mem   |-> fx.mem,                        \* section -> members, as loaded
    dmem  |-> fx.mem,                        \* section -> members, on disk
    sfile |-> fx.sfile,                      \* section.py contents
    sref  |-> [x \in DOMAIN fx.mem |-> EmptyF], \* attributes of items which section.py files read
    scfg  |-> fx.sfile,                      \* section configs, as loaded
    ld    |-> {},                            \* items whose config is loaded
    sa    |-> {},                            \* items to which the section configs were applied
    cfg   |-> [i \in DOMAIN fx.it |-> EmptyF],
    app   |-> [i \in DOMAIN fx.it |-> EmptyF], \* persistent updates
    on    |-> {},                            \* items whose object was created
    obj   |-> [i \in DOMAIN fx.it |-> EmptyF],
    n     |-> [i \in DOMAIN fx.it |-> IF fx.it[i].kind = "spec" THEN 1 ELSE 0],
    c     |-> [i \in DOMAIN fx.it |-> 0],    \* number of executions of the object
    held  |-> {},                            \* items whose object the observer holds
    gen   |-> [k \in Rng(fx.ms) |-> 1],      \* loads of each manager
    mv    |-> [k \in Rng(fx.ms) |-> "1"],    \* version of the source module on disk
    lv    |-> [k \in Rng(fx.ms) |-> "1"],    \* version as loaded
    amb   |-> FALSE,                         \* a propagation failed at one of several dependents: which of the others were refreshed is not determined
    xbad  |-> {},                            \* section.py files which raise
    sbad  |-> {},                            \* managers whose source module cannot be imported
    down  |-> {},                            \* managers whose last reload failed
    soft  |-> {}, force |-> {},              \* <<depends on, dependent>>
    run   |-> <<>>, ldg |-> <<>>,            \* RUN frames, LOAD frames
    pl    |-> {"rec"},                       \* registered plugins
    prod  |-> [cases |-> <<>>, dfl |-> <<>>, items |-> <<>>, form |-> "", dfm |-> "", lst |-> FALSE, next |-> 0],
    \* observations of the last action
    wr |-> {},                               \* config files written by the action
    ev |-> <<>>, ex |-> {}, xs |-> <<>>, err |-> "", errs |-> <<>>, dbg |-> 0, ret |-> "" ]

-----------------------------------------------------------------------------
(* Small helpers *)

Fail(s, e) == IF s.err = "" THEN [s EXCEPT !.err = e] ELSE s
Ok(s) == s.err = ""

Join(q) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "," \o b, "", q)
KVs(s, i, f) ==
  Join([n \in 1..Len(SelectSeq(It(s, i).ps, LAMBDA k : k \in DOMAIN f)) |->
          LET k == SelectSeq(It(s, i).ps, LAMBDA x : x \in DOMAIN f)[n] IN k \o "=" \o f[k]])

\* values which are never equal to anything, such as arrays and nan
Eq(s, v, w) == v = w /\ v \notin Rng(F(s).neq)

\* a change hook is called (recorded by the plugin "rec")
Event(s, type, p, txt) ==
  IF "rec" \in s.pl /\ Ok(s) THEN [s EXCEPT !.ev = Append(@, [p |-> p, x |-> type \o "|" \o txt])] ELSE s

\* dependencies: d depends on i
Soft(s, i, d) == IF i = d THEN s ELSE [s EXCEPT !.soft = @ \cup {<<i, d>>}]
Force(s, i, d) == IF i = d THEN s
                  ELSE [s EXCEPT !.soft = @ \cup {<<i, d>>}, !.force = @ \cup {<<i, d>>}]
\* the innermost running item uses i
RunDep(s, i) == IF s.run = <<>> \/ ~Ok(s) THEN s ELSE Force(s, i, s.run[Len(s.run)])
Cur(s) == LastOr(s.run, "-")

SelTag(s) == FoldLeft(LAMBDA a, m : a \o "," \o m \o ToString(s.gen[m]), "sel", F(s).ms)

ObjEnc(s, i) ==
  IF It(s, i).kind = "func" \/ ~F(s).nn THEN i \o "{" \o KVs(s, i, s.obj[i]) \o "}"
  ELSE i \o "{" \o KVs(s, i, s.obj[i]) \o "}n" \o ToString(s.n[i]) \o "c" \o ToString(s.c[i])

RECURSIVE EvalKeys(_, _, _, _), EvalFile(_, _), EvalExpr(_, _, _), LoadCfg(_, _), GetObj(_, _), ViewAttr(_, _, _),
          ViewCall(_, _), Body(_, _), BodyOps(_, _, _, _), RunItem(_, _), RunNode(_, _), RunSeq(_, _, _, _),
          RunTop(_, _, _, _), RunFc(_, _, _, _), Upd(_, _, _, _), Refresh(_, _), Propagate(_, _), PropLoop(_, _, _, _),
          RefreshAll(_, _), Update(_, _, _, _)

-----------------------------------------------------------------------------
(* Config files *)

\* Evaluates one expression of the config file of item i: [s, v]
EvalExpr(s, i, e) ==
  IF ~Ok(s) THEN [s |-> s, v |-> ""]
  ELSE CASE e.t = "lit"  -> [s |-> s, v |-> e.v]
         [] e.t = "view" -> [s |-> Soft(s, e.i, LastOr(s.ldg, i)), v |-> "view:" \o e.i]
         [] e.t = "attr" -> ViewAttr(Soft(s, e.i, LastOr(s.ldg, i)), e.i, e.k)
         [] e.t = "call" -> ViewCall(Soft(s, e.i, LastOr(s.ldg, i)), e.i)

EvalKeys(s, i, ks, d) ==
  IF ks = <<>> \/ ~Ok(s) THEN [s |-> s, d |-> d]
  ELSE LET k == Head(ks) IN
       IF k \notin DOMAIN s.file[i] THEN EvalKeys(s, i, Tail(ks), d)
       ELSE LET r == EvalExpr(s, i, s.file[i][k]) IN
            EvalKeys(r.s, i, Tail(ks), (k :> r.v) @@ d)

\* Executes the config file of item i: [s, d]
EvalFile(s, i) ==
  IF ~Ok(s) THEN [s |-> s, d |-> EmptyF]
  ELSE IF i \notin s.fe THEN [s |-> Fail(s, "!lookup"), d |-> EmptyF]
  ELSE LET s1 == [s EXCEPT !.ex = @ \cup {i}, !.ldg = Append(@, i)]
           r  == IF i \in s.bad THEN [s |-> Fail(s1, "!bad:" \o i), d |-> EmptyF]
                 ELSE EvalKeys(s1, i, It(s, i).ps, ("s" :> SelTag(s)))
       IN [s |-> [r.s EXCEPT !.ldg = SubSeq(@, 1, Len(@) - 1)], d |-> r.d]

\* Section configs from the outermost to the innermost section
SecOverlay(s, i) == FoldLeft(LAMBDA f, sec : Over(f, s.scfg[sec]), EmptyF, It(s, i).secs)

LoadCfg(s, i) ==
  IF ~Ok(s) THEN s
  ELSE LET r == IF i \in s.ld THEN [s |-> s, d |-> s.cfg[i]] ELSE EvalFile(s, i)
           o == SecOverlay(r.s, i)
       IN IF ~Ok(r.s) THEN r.s
          ELSE IF i \in s.ld /\ i \in s.sa THEN r.s
          ELSE [r.s EXCEPT !.ld = @ \cup {i}, !.sa = @ \cup {i},
                           !.cfg[i] = Over(r.d, o),
                           !.app[i] = Over(IF i \in s.ld THEN s.app[i] ELSE EmptyF, o)]

-----------------------------------------------------------------------------
(* Objects *)

Only(f, S) == [k \in DOMAIN f \cap S |-> f[k]]

\* puts the values c into the existing object of i
Apply(s, i, c) ==
  IF ~Ok(s) \/ i \notin s.on THEN s
  ELSE IF It(s, i).kind = "func"
       THEN [s EXCEPT !.obj[i] = [k \in DOMAIN @ |-> IF k \in DOMAIN c THEN c[k] ELSE @[k]]]
       ELSE [s EXCEPT !.obj[i] = Over(@, Only(c, PsSet(s, i))), !.n[i] = @ + 1]

\* parameters for which the config has no value have the defaults of the signature; a function object
\* (a partial) has only the values of its config
Dflts(s, i) == [k \in DOMAIN It(s, i).dflt |-> It(s, i).dflt[k].v]
NewObj(s, i, c) == IF It(s, i).kind = "func" THEN Only(c, PsSet(s, i)) ELSE Over(Dflts(s, i), Only(c, PsSet(s, i)))
Args(s, i) == Over(Dflts(s, i), s.obj[i])

GetObj(s, i) ==
  IF ~Ok(s) THEN s
  ELSE IF i \notin s.has THEN Fail(s, "!lookup")
  ELSE IF i \in s.on THEN RunDep(s, i)
  ELSE LET s1 == LoadCfg(s, i) IN
       IF ~Ok(s1) THEN s1
       ELSE IF i \in s1.on THEN RunDep(s1, i)
       ELSE RunDep([s1 EXCEPT !.on = @ \cup {i}, !.obj[i] = NewObj(s1, i, s1.cfg[i]), !.n[i] = @ + 1], i)

\* Selector view of i: attribute k / call
LoadDep(s, i) == IF s.ldg = <<>> THEN s ELSE Force(s, i, s.ldg[Len(s.ldg)])
ViewAttr(s, i, k) ==
  IF ~Ok(s) THEN [s |-> s, v |-> ""]
  ELSE LET s1 == GetObj(LoadDep(s, i), i) IN
       IF Ok(s1) /\ k \notin DOMAIN s1.obj[i] THEN [s |-> Fail(RunDep(s1, i), "!lookup"), v |-> ""]
       ELSE [s |-> RunDep(s1, i), v |-> IF Ok(s1) THEN s1.obj[i][k] ELSE ""]
ViewCall(s, i) ==
  IF ~Ok(s) THEN [s |-> s, v |-> ""]
  ELSE LET s1 == RunDep(GetObj(LoadDep(s, i), i), i) IN
       IF It(s, i).kind = "cls" THEN [s |-> s1, v |-> "obj:" \o i]
       ELSE Body(s1, i)

-----------------------------------------------------------------------------
(* Updates, refresh, reset, propagation *)

Would(s, i, u) == \E k \in DOMAIN u : k \in DOMAIN s.cfg[i] /\ ~Eq(s, s.cfg[i][k], u[k])

\* manager._update of item i: the values u, persistent or not
Upd(s, i, u, persist) ==
  IF ~Ok(s) THEN s
  ELSE LET vs == {u[k] : k \in DOMAIN u} \cap DOMAIN F(s).views
           s0 == LoadCfg(s, i)
           s1 == IF Ok(s0) THEN [s0 EXCEPT !.soft = @ \cup {<<F(s).views[v], i>> : v \in {w \in vs : F(s).views[w] # i}}] ELSE s0
       IN IF ~Ok(s1) \/ ~Would(s1, i, u) THEN s1
          ELSE LET s2 == Event(s1, "pre", i, KVs(s, i, u) \o "/" \o KVs(s, i, s1.cfg[i]))
                   s3 == [s2 EXCEPT !.cfg[i] = Over(@, u), !.app[i] = IF persist THEN Over(@, u) ELSE @]
                   s4 == Apply(s3, i, s3.cfg[i])
                   s5 == Event(s4, "post", i, KVs(s, i, u) \o "/" \o KVs(s, i, s4.cfg[i]))
               IN Propagate(s5, i)

\* update of the section config sec: has an effect on items loaded later
UpdSec(s, sec, u) ==
  IF \E k \in DOMAIN u : k \in DOMAIN s.scfg[sec] /\ ~Eq(s, s.scfg[sec][k], u[k])
  THEN [s EXCEPT !.scfg[sec] = Over(@, u)]
  ELSE s

Refresh(s, i) ==
  LET s1 == LoadCfg(s, i)
      r  == EvalFile(s1, i)
      fin == Over(r.d, r.s.app[i])
  IN IF ~Ok(r.s) \/ ~Would(r.s, i, fin) THEN r.s
     ELSE LET s2 == Event(r.s, "pre", i, KVs(s, i, fin) \o "/" \o KVs(s, i, r.s.cfg[i]))
              r2 == EvalFile(s2, i)
              fin2 == Over(r2.d, r2.s.app[i])
              s3 == [r2.s EXCEPT !.cfg[i] = Over(@, fin2)]
          IN IF ~Ok(r2.s) THEN r2.s
             ELSE Propagate(Event(Apply(s3, i, s3.cfg[i]), "post", i, KVs(s, i, fin2) \o "/" \o KVs(s, i, s3.cfg[i])), i)

Reset(s, i, create) ==
  LET r == EvalFile(s, i)
      o == IF create THEN EmptyF ELSE SecOverlay(r.s, i)
      def == Over(r.d, o)
      s1 == IF create THEN r.s ELSE LoadCfg(r.s, i)
      would == create \/ Would(s1, i, def)
      s2 == IF would /\ ~create THEN Event(s1, "pre", i, KVs(s, i, def) \o "/" \o KVs(s, i, s1.cfg[i])) ELSE s1
      s3 == [s2 EXCEPT !.cfg[i] = def, !.app[i] = o, !.ld = @ \cup {i},
                       !.sa = IF create THEN @ \ {i} ELSE @ \cup {i}]
  IN IF ~Ok(r.s) THEN r.s ELSE IF ~Ok(s1) THEN s1
     ELSE IF would THEN Propagate(Event(Apply(s3, i, def), "post", i, KVs(s, i, def) \o "/" \o KVs(s, i, def)), i)
     ELSE s3

\* dependents are items, and section.py files, whose values are used by items loaded or reset after the next load
SecFile(sec) == sec \o ".section"
Deps(s, i) == {p[2] : p \in {q \in s.force : q[1] = i}}
RefreshAll(s, D) ==
  IF D = {} \/ ~Ok(s) THEN s
  ELSE LET d == CHOOSE d \in D : TRUE IN RefreshAll(IF d \in Items(s) THEN Refresh(s, d) ELSE s, D \ {d})
PropLoop(s, i, todo, done) ==
  IF todo = {} \/ ~Ok(s) THEN s
  ELSE LET s1 == RefreshAll(s, todo)
           new == Deps(s1, i) \ (done \cup todo)
       IN IF ~Ok(s1) /\ Cardinality(todo) > 1 THEN [s1 EXCEPT !.amb = TRUE] ELSE PropLoop(s1, i, new, done \cup todo)
\* every item which depends on i is refreshed
\* (done by the default plugins: "nodef" is in s.pl if they were removed)
Propagate(s, i) == IF ~Ok(s) \/ "nodef" \in s.pl THEN s ELSE PropLoop(s, i, Deps(s, i), {})

-----------------------------------------------------------------------------
(* Running *)

BodyOps(s, i, ops, acc) ==
  IF ops = <<>> \/ ~Ok(s) THEN [s |-> s, v |-> acc]
  ELSE LET o == Head(ops)
           r == CASE o.op = "attr" -> ViewAttr(s, o.i, o.k)
                  [] o.op = "pattr" -> IF Args(s, i)[o.k] \in DOMAIN F(s).views
                                       THEN ViewAttr(s, F(s).views[Args(s, i)[o.k]], o.k2)
                                       ELSE [s |-> s, v |-> "-"]
                  [] o.op = "get" -> LET s1 == GetObj(s, o.i) IN
                                     IF Ok(s1) /\ o.k \notin DOMAIN s1.obj[o.i] THEN [s |-> Fail(s1, "!lookup"), v |-> ""]
                                     ELSE [s |-> s1, v |-> IF Ok(s1) THEN s1.obj[o.i][o.k] ELSE ""]
                  [] o.op = "run" -> LET s1 == RunTop(s, o.m, <<o.i>>, FALSE) IN [s |-> s1, v |-> s1.ret]
                  [] o.op = "call" -> ViewCall(s, o.i)
                  [] o.op = "upd" -> [s |-> Update(s, o.i, (o.k :> o.v), TRUE), v |-> "u"]
                  [] o.op = "raise" -> [s |-> Fail(s, "!err:" \o It(s, i).fn), v |-> ""]
                  [] o.op = "raiseif" -> IF Args(s, i)[o.k] = o.v
                                         THEN [s |-> Fail(s, "!err:" \o It(s, i).fn), v |-> ""]
                                         ELSE [s |-> s, v |-> "ok"]
                  [] o.op = "quitif" -> IF Args(s, i)[o.k] = o.v THEN [s |-> Fail(s, "!quit"), v |-> ""]
                                        ELSE [s |-> s, v |-> "ok"]
                  [] o.op = "try" -> LET s1 == RunTop(s, o.m, <<o.i>>, FALSE) IN
                                     IF Ok(s1) \/ s1.err = "!quit" THEN [s |-> s1, v |-> s1.ret]
                                     ELSE [s |-> [s1 EXCEPT !.err = ""], v |-> "caught"]
       IN BodyOps(r.s, i, Tail(ops), Append(acc, r.v))

\* items return values of several kinds
Result(rt, x) == CASE rt = "res" -> x [] rt = "list" -> "[" \o x \o "]" [] rt = "tuple" -> "(" \o x \o ")"
                   [] rt = "none" -> "N" [] rt = "zero" -> "i0" [] rt = "empty" -> "[]" [] rt = "false" -> "bFalse"
                   [] rt = "exc" -> "?ValueError" [] rt = "str" -> "s" [] rt = "dict" -> "{sk:" \o x \o "}"

\* the code of item i is executed with the values of its object
Body(s, i) ==
  IF ~Ok(s) THEN [s |-> s, v |-> ""]
  ELSE LET h == It(s, i).fn \o "@" \o Cur(s) \o "(" \o KVs(s, i, Args(s, i)) \o ")"
           s1 == [s EXCEPT !.xs = Append(@, h), !.c[i] = IF It(s, i).kind = "func" THEN 0 ELSE @ + 1]
           kv == KVs(s, i, Args(s, i))
           r == BodyOps(s1, i, It(s, i).ops, <<>>)
       IN [s |-> r.s,
           v |-> Result(It(s, i).rt, It(s, i).fn \o "#" \o (IF It(s, i).kind = "spec" THEN "1" ELSE s.lv[It(s, i).m]) \o "(" \o kv \o ")[" \o Join(r.v) \o "]")]

RunItem(s, i) ==
  IF ~Ok(s) THEN s
  ELSE IF i \notin s.has THEN Fail(s, "!lookup")
  ELSE LET s1 == GetObj(LoadCfg([s EXCEPT !.run = Append(@, i)], i), i)
           r  == Body(s1, i)
           s2 == [r.s EXCEPT !.run = SubSeq(@, 1, Len(@) - 1)]
       IN IF Ok(s2) THEN [RunDep(s2, i) EXCEPT !.ret = r.v] ELSE s2

RunSeq(s, q, n, acc) ==
  IF n > Len(q) \/ ~Ok(s) THEN [s EXCEPT !.ret = "[" \o Join(acc) \o "]"]
  ELSE LET s1 == RunNode(s, q[n]) IN RunSeq(s1, q, n + 1, Append(acc, s1.ret))

RunNode(s, p) ==
  IF ~Ok(s) THEN s
  ELSE IF p \in Items(s) THEN RunItem(s, p)
  ELSE IF p \in Secs(s) THEN RunSeq(s, s.mem[p], 1, <<>>)
  ELSE Fail(s, "!lookup")

\* one call of the runner: a path, or a list of paths
PostRun(s, lst) ==
  IF "postrun" \in s.pl /\ Ok(s)
  THEN [s EXCEPT !.ret = IF lst /\ s.ret # "[]" THEN SubSeq(s.ret, 1, Len(s.ret) - 1) \o ",extra]"
                         ELSE IF lst THEN "[extra]" ELSE "[" \o s.ret \o ",extra]"]
  ELSE s
RunnerRun(s, q, lst) == PostRun(IF lst THEN RunSeq(s, q, 1, <<>>) ELSE RunNode(s, q[1]), lst)

RunFc(s, q, n, acc) ==
  IF n > Len(q) THEN [s EXCEPT !.ret = "[" \o Join(acc) \o "]"]
  ELSE LET s1 == RunnerRun(s, <<q[n]>>, FALSE) IN
       IF s1.err = "!quit" THEN s1
       ELSE IF Ok(s1) THEN RunFc(s1, q, n + 1, Append(acc, s1.ret))
       ELSE RunFc([s1 EXCEPT !.err = "", !.errs = Append(@, q[n])], q, n + 1, acc)

\* PipelineManager.run of manager m
RunTop(s, m, q0, lst0) ==
  IF ~Ok(s) THEN s
  ELSE LET q == IF "prerun" \in s.pl THEN q0 \o F(s).prerun ELSE q0
           lst == lst0 \/ Len(q) > 1
       IN CASE F(s).mode[m] = "plain" -> RunnerRun(s, q, lst)
            [] F(s).mode[m] = "pdb" -> LET s1 == RunnerRun(s, q, lst) IN
                 IF Ok(s1) \/ s1.err = "!quit" THEN s1 ELSE [s1 EXCEPT !.err = "", !.dbg = @ + 1, !.ret = "N"]
            [] F(s).mode[m] = "fc" ->
                 LET s1 == RunFc(s, q, 1, <<>>) IN
                 IF lst \/ s1.ret = "[]" \/ ~Ok(s1) THEN s1
                 ELSE [s1 EXCEPT !.ret = SubSeq(@, 2, Len(@) - 1)]

-----------------------------------------------------------------------------
(* Batches and products.  An entry is [i, u, persist], u = sequence of [k, v] *)

AsF(q) == FoldLeft(LAMBDA f, kv : (kv.k :> kv.v) @@ f, EmptyF, q)

ApplyEntries(s, q) == FoldLeft(LAMBDA t, e : Upd(t, e.i, AsF(e.u), G(e, "persist", TRUE)), s, q)
\* the entries of the plugin "batch"; a plugin can give no entries of other managers to the updater of one manager
PlugEntries(s, base) == IF "batch" \in s.pl /\ (base = "" \/ \A e \in Rng(F(s).batch) : It(s, e.i).m = base)
                        THEN F(s).batch ELSE <<>>
BaseOf(s, a, q) == IF a.form \in {"pm", "pmview", "base"} THEN It(s, q[1].i).m ELSE ""
Batch(s, q, base) ==
  LET s1 == IF "rec" \in s.pl THEN [s EXCEPT !.ev = Append(@, [p |-> "-", x |-> "preb|"])] ELSE s
      s2 == ApplyEntries(s1, PlugEntries(s, base))
      s3 == IF "nodef" \in s.pl THEN s2 ELSE ApplyEntries(s2, q)
  IN Event(s3, "postb", "-", "")

\* pm.update: the pre_update plugin may add values
Update(s, i, u, persist) ==
  LET x  == IF "preupd" \in s.pl /\ i = F(s).preupd.i THEN AsF(F(s).preupd.u) ELSE EmptyF
      y  == IF "preupd2" \in s.pl /\ i = F(s).preupd2.i THEN AsF(F(s).preupd2.u) ELSE EmptyF
      u1 == Over(Over(u, x), y)
      s1 == Event(s, "preu", i, "")
      s2 == Upd(s1, i, u1, persist)
  IN Event(s2, "postu", i, "")

\* itertools.product of the entries grouped by path
Paths(q) == FoldLeft(LAMBDA a, e : IF e.i \in Rng(a) THEN a ELSE Append(a, e.i), <<>>, q)
RECURSIVE Cross(_, _)
Cross(q, ps) ==
  IF ps = <<>> THEN <<<<>>>>
  ELSE LET grp == SelectSeq(q, LAMBDA e : e.i = Head(ps))
           rest == Cross(q, Tail(ps))
       IN FoldLeft(LAMBDA a, e : a \o [n \in 1..Len(rest) |-> <<e>> \o rest[n]], <<>>, grp)
Cases(q) == Cross(q, Paths(q))
\* plugins: "cases" adds the case of the last entries, "onecase" adds a case with only the last entry,
\* "modcases" reverses the cases and drops what was first, "nocases" removes all cases
LastCase(q) == LET ps == Paths(q) IN
  [n \in 1..Len(ps) |-> LET g == SelectSeq(q, LAMBDA e : e.i = ps[n]) IN g[Len(g)]]
AllCases(s, q) ==
  LET b == IF "nodef" \in s.pl THEN <<>> ELSE Cases(q)
      c == IF "cases" \in s.pl THEN <<LastCase(q)>> \o b ELSE b
      d == IF "onecase" \in s.pl THEN <<<<q[Len(q)]>>>> \o c ELSE c
  IN IF "nocases" \in s.pl THEN <<>>
     ELSE IF "modcases" \in s.pl /\ Len(d) > 1 THEN [n \in 1..(Len(d) - 1) |-> d[Len(d) + 1 - n]] ELSE d
VariedKeys(cs, p) == UNION {{kv.k : kv \in Rng(e.u)} : e \in {x \in UNION {Rng(c) : c \in Rng(cs)} : x.i = p}}
\* the form "sub" is a subclass of IterativeRunner which decides which cases run
ShouldRun(form, c) == form \notin {"sub", "subgen"} \/ c[1].u[1].v \notin {"i2", "sx"}
PmForms == {"pm", "gen", "nc", "pmv", "pmgen"}

ProdStart(s, items, lst, q, form) ==
  LET cs == AllCases(s, q)
      ps == Paths(FlattenSeq(cs))
      s1 == FoldLeft(LAMBDA t, p : LoadCfg(t, p), s, ps)
  IN IF ~Ok(s1) THEN s1
     ELSE [s1 EXCEPT !.prod = [cases |-> SelectSeq(cs, LAMBDA c : ShouldRun(form, c)), items |-> items, lst |-> lst, form |-> form, dfm |-> q[1].i, next |-> 1,
             dfl |-> [p \in Rng(ps) |-> Only(s1.cfg[p], VariedKeys(cs, p))]]]

CaseEnc(cs) == Join([n \in 1..Len(cs) |->
   cs[n].i \o ":" \o Join([j \in 1..Len(cs[n].u) |-> cs[n].u[j].k \o "=" \o cs[n].u[j].v])])

RECURSIVE ProdItems(_, _, _)
ProdItems(s, q, acc) ==
  IF ~Ok(s) THEN s
  ELSE IF q = <<>> THEN [s EXCEPT !.ret = IF Len(acc) = 1 THEN acc[1] ELSE "[" \o Join(acc) \o "]"]
  ELSE LET s1 == RunTop(s, G(F(s).mof, Head(q), ""), <<Head(q)>>, FALSE) IN ProdItems(s1, Tail(q), Append(acc, s1.ret))

\* one case: every varied config gets the values of the case, the rest of the varied values their defaults
ProdCase(s, cs) ==
  LET full == [n \in 1..Len(cs) |-> [i |-> cs[n].i, persist |-> TRUE,
                 f |-> Over(s.prod.dfl[cs[n].i], AsF(cs[n].u))]]
      enc == Join([n \in 1..Len(cs) |-> full[n].i \o ":" \o KVs(s, full[n].i, full[n].f)])
      nodef == "nodef" \in s.pl
      s0 == IF "rec" \in s.pl THEN [s EXCEPT !.ev = @ \o <<[p |-> "-", x |-> "case|" \o enc]>> \o IF nodef THEN <<>> ELSE <<[p |-> "-", x |-> "preb|"]>>] ELSE s
      s1 == ApplyEntries(s0, PlugEntries(s, IF s.prod.form \in PmForms THEN It(s, s.prod.dfm).m ELSE ""))
      s2 == FoldLeft(LAMBDA t, e : Upd(t, e.i, e.f, TRUE), s1, full)
      s3 == Event(s2, "postb", "-", "")
      s4 == ProdItems(IF nodef THEN s0 ELSE s3, s.prod.items, <<>>)
  IN IF Ok(s4) THEN [s4 EXCEPT !.ret = "(" \o CaseEnc(cs) \o ")->" \o s4.ret] ELSE s4

RECURSIVE ProdAll(_, _, _)
ProdAll(s, cases, acc) ==
  IF ~Ok(s) THEN s
  ELSE IF cases = <<>> THEN [s EXCEPT !.ret = "[" \o Join(acc) \o "]"]
  ELSE LET s1 == ProdCase(s, Head(cases)) IN ProdAll(s1, Tail(cases), Append(acc, s1.ret))

-----------------------------------------------------------------------------
(* Loading, editing, creating *)

Clear(s, m) ==
  LET M == MgrItems(s, m) IN
  [s EXCEPT !.ld = @ \ M, !.sa = @ \ M, !.on = @ \ M, !.held = @ \ M,
            !.cfg = [i \in DOMAIN @ |-> IF i \in M THEN EmptyF ELSE @[i]],
            !.app = [i \in DOMAIN @ |-> IF i \in M THEN EmptyF ELSE @[i]],
            !.obj = [i \in DOMAIN @ |-> IF i \in M THEN EmptyF ELSE @[i]],
            !.c = [i \in DOMAIN @ |-> IF i \in M THEN 0 ELSE @[i]],
            !.n = [i \in DOMAIN @ |-> IF i \in M THEN (IF It(s, i).kind = "spec" THEN 1 ELSE 0) ELSE @[i]]]

\* missing config files, and missing values in them, are added with the defaults
Scaffold(s, M) ==
  [s EXCEPT !.fe = @ \cup M,
            !.wr = @ \cup {i \in M : i \notin s.fe \/ ~(DOMAIN It(s, i).dflt \subseteq DOMAIN s.file[i])},
            !.file = [i \in DOMAIN @ |-> IF i \in M
                        THEN IF i \in s.fe THEN @[i] @@ It(s, i).dflt ELSE It(s, i).dflt
                        ELSE @[i]]]

\* section.py files are executed when the manager is loaded
RECURSIVE EvalSecKeys(_, _, _), EvalSecs(_, _)
EvalSecKeys(s, sec, K) ==
  IF K = {} \/ ~Ok(s) THEN s
  ELSE LET k == CHOOSE k \in K : TRUE
           e == s.sref[sec][k]
           r == ViewAttr(Soft(s, e.i, SecFile(sec)), e.i, e.k)
       IN EvalSecKeys([r.s EXCEPT !.scfg[sec] = (k :> r.v) @@ @], sec, K \ {k})
EvalSecs(s, S) ==
  IF S = {} \/ ~Ok(s) THEN s
  ELSE LET sec == CHOOSE x \in S : TRUE
           s1 == EvalSecKeys([s EXCEPT !.ldg = Append(@, SecFile(sec))], sec, DOMAIN s.sref[sec])
       IN EvalSecs([s1 EXCEPT !.ldg = SubSeq(@, 1, Len(@) - 1)], S \ {sec})

SecsOf(s, m) == {sec \in Secs(s) : F(s).mof[sec] = m}
Reload(s, m) ==
  IF m \in s.sbad \/ SecsOf(s, m) \cap s.xbad # {} THEN Fail([s EXCEPT !.down = @ \cup {m}], "!load")
  ELSE LET S == SecsOf(s, m)
           now == UNION {Rng(s.dmem[sec]) : sec \in S} \cap Items(s)
           s1 == Clear(s, m)
           s2 == [s1 EXCEPT !.has = (@ \ MgrItems(s, m)) \cup now,
                            !.mem = [x \in DOMAIN @ |-> IF x \in S THEN s.dmem[x] ELSE @[x]],
                            !.scfg = [x \in DOMAIN @ |-> IF x \in S THEN s.sfile[x] ELSE @[x]],
                            !.lv[m] = s.mv[m], !.gen[m] = @ + 1, !.down = @ \ {m}]
       IN EvalSecs(Scaffold(s2, now), S)

Create(s, i) ==
  LET sec == It(s, i).secs[Len(It(s, i).secs)]
      s1 == [s EXCEPT !.has = @ \cup {i}, !.mem[sec] = Append(@, i), !.dmem[sec] = Append(@, i)]
  IN Reset(Scaffold(s1, {i}), i, TRUE)

-----------------------------------------------------------------------------
(* Actions *)

Blank(s) == [s EXCEPT !.wr = {}, !.ev = <<>>, !.ex = {}, !.xs = <<>>, !.err = "", !.errs = <<>>, !.dbg = 0, !.ret = ""]

\* a hold of the object of item i: "same" if it is the object held before
Hold(s, i) ==
  IF ~Ok(s) THEN s
  ELSE [s EXCEPT !.held = @ \cup {i}, !.ret = ObjEnc(s, i) \o (IF i \in s.held THEN " same" ELSE " new")]

\* the items of a section: the objects, and for classes of the main dict the class with its config
RECURSIVE GetSec(_, _, _)
GetSec(s, q, acc) ==
  IF ~Ok(s) THEN s
  ELSE IF q = <<>> THEN [s EXCEPT !.ret = "[" \o Join(acc) \o "]"]
  ELSE LET x == Head(q) IN
       IF x \notin Items(s)
       THEN LET t == GetSec(s, s.mem[x], <<>>) IN GetSec(t, Tail(q), Append(acc, x \o ":" \o t.ret))
       ELSE IF It(s, x).kind = "cls"
       THEN LET t == RunDep(LoadCfg(s, x), x) IN
            GetSec(t, Tail(q), Append(acc, "class " \o x \o "{" \o KVs(t, x, t.cfg[x]) \o "}"))
       ELSE LET t == Hold(GetObj(s, x), x) IN GetSec(t, Tail(q), Append(acc, t.ret))

\* a copy of the object of i: views in it are replaced by copies of their items
RECURSIVE CopyLoad(_, _, _)
CopyLoad(s, i, ks) ==
  IF ks = <<>> \/ ~Ok(s) THEN s
  ELSE IF Head(ks) \in DOMAIN s.obj[i] /\ s.obj[i][Head(ks)] \in DOMAIN F(s).views
       THEN LET j == F(s).views[s.obj[i][Head(ks)]]
                s1 == GetObj(s, j)
            IN CopyLoad(IF Ok(s1) THEN CopyLoad(s1, j, It(s, j).ps) ELSE s1, i, Tail(ks))
       ELSE CopyLoad(s, i, Tail(ks))
CopyEnc(s, i) ==
  LET f == [k \in DOMAIN s.obj[i] |-> IF s.obj[i][k] \in DOMAIN F(s).views THEN "obj:" \o F(s).views[s.obj[i][k]] ELSE s.obj[i][k]]
  IN ObjEnc([s EXCEPT !.obj[i] = f], i)

ViewRet(r) == IF Ok(r.s) THEN [r.s EXCEPT !.ret = r.v] ELSE r.s

Act(s, a) ==
  CASE a.op = "get" -> Hold(GetObj(s, a.i), a.i)
    [] a.op = "getsec" -> GetSec(s, s.mem[a.i], <<>>)
    [] a.op = "read" -> ViewRet(ViewAttr(s, a.i, a.k))
    [] a.op = "call" -> IF G(a, "u", <<>>) = <<>> THEN ViewRet(ViewCall(s, a.i)) ELSE
                        \* arguments of a call hold for that call only
                        LET s1 == RunDep(GetObj(LoadDep(s, a.i), a.i), a.i)
                            s2 == [s1 EXCEPT !.obj[a.i] = Over(@, AsF(a.u))]
                            r  == Body(s2, a.i)
                        IN IF Ok(s1) THEN ViewRet([s |-> [r.s EXCEPT !.obj[a.i] = s1.obj[a.i]], v |-> r.v]) ELSE s1
    [] a.op = "copy" -> LET s0 == GetObj(s, a.i)
                            s1 == IF Ok(s0) THEN CopyLoad(s0, a.i, It(s, a.i).ps) ELSE s0
                        IN IF Ok(s1) THEN [s1 EXCEPT !.ret = CopyEnc(s1, a.i)] ELSE s1
    [] a.op = "noop" -> [s EXCEPT !.ret = a.exp]               \* look ups which have no effect
    [] a.op = "noattr" -> LET r == GetObj(LoadDep(s, a.i), a.i) IN Fail(r, "!lookup")   \* an attribute which the item does not have
    \* look ups which must fail; the pre hook of a batch is called before any look up
    [] a.op = "miss" -> Fail(IF a.w \in {"batch", "batchfull"} /\ "rec" \in s.pl
                             THEN ApplyEntries([s EXCEPT !.ev = Append(@, [p |-> "-", x |-> "preb|"])],
                                               PlugEntries(s, IF a.w = "batch" THEN a.m ELSE ""))
                             ELSE s, "!lookup")
    [] a.op = "in" -> [s EXCEPT !.ret = IF a.i \in s.has \cup {x \in Secs(s) : TRUE} THEN "T" ELSE "F"]
    [] a.op = "upd" -> Update(s, a.i, AsF(a.u), a.persist)
    [] a.op = "updsec" -> UpdSec(s, a.i, AsF(a.u))
    [] a.op = "batch" -> Batch(s, a.q, BaseOf(s, a, a.q))
    [] a.op = "refresh" -> Refresh(s, a.i)
    [] a.op = "reset" -> Reset(s, a.i, FALSE)
    [] a.op = "resets" -> FoldLeft(LAMBDA t, i : Reset(t, i, FALSE), s, a.q)
    [] a.op = "reload" -> Reload(s, a.m)
    [] a.op = "run" -> RunTop(s, a.m, a.q, a.lst)
    [] a.op = "prod" -> LET s1 == ProdStart(s, a.items, a.lst, a.q, a.form)
                            s2 == ProdAll(s1, s1.prod.cases, <<>>)
                            s3 == IF a.form = "twice" THEN ProdAll(s2, s2.prod.cases, <<>>) ELSE s2 IN
                        [s3 EXCEPT !.prod = Init0(s.fx).prod,
                            !.ret = IF a.form = "nc" /\ @ # "" THEN "[]" ELSE @]
    [] a.op = "pstart" -> ProdStart(s, a.items, a.lst, a.q, a.form)
    [] a.op = "pcase" -> [ProdCase(s, s.prod.cases[a.n]) EXCEPT !.prod.next = a.n + 1]
    [] a.op = "pall" -> [ProdAll(s, s.prod.cases, <<>>) EXCEPT !.prod.next = 0]
    [] a.op = "setfile" -> [s EXCEPT !.file[a.i] = (a.k :> a.e) @@ @]
    [] a.op = "delkey" -> [s EXCEPT !.file[a.i] = Only(@, DOMAIN @ \ {a.k})]
    [] a.op = "setbad" -> [s EXCEPT !.bad = @ \cup {a.i}]
    [] a.op = "fixbad" -> [s EXCEPT !.bad = @ \ {a.i}]
    [] a.op = "setsec" -> [s EXCEPT !.sfile[a.i] = AsF(a.u),
                                   !.sref[a.i] = FoldLeft(LAMBDA f, x : (x.k :> [i |-> x.i, k |-> x.k2]) @@ f, EmptyF, G(a, "r", <<>>))]
    \* the source module is edited and the manager is reloaded (modules are imported lazily, so that which
    \* version is used between an edit and a reload is not determined)
    [] a.op = "setsrc" -> Reload([s EXCEPT !.mv[a.m] = a.v], a.m)
    [] a.op = "srcbad" -> Reload([s EXCEPT !.sbad = @ \cup {a.m}], a.m)
    [] a.op = "srcfix" -> [s EXCEPT !.sbad = @ \ {a.m}]
    [] a.op = "secbad" -> Reload([s EXCEPT !.xbad = @ \cup {a.i}], F(s).mof[a.i])
    [] a.op = "secfix" -> [s EXCEPT !.xbad = @ \ {a.i}]
    [] a.op = "adddict" -> [s EXCEPT !.dmem[a.sec] = Append(@, a.i)]
    [] a.op = "deldict" -> [s EXCEPT !.dmem[a.sec] = SelectSeq(@, LAMBDA x : x # a.i)]
    [] a.op = "create" -> Create(s, a.i)
    [] a.op = "plug" -> [s EXCEPT !.pl = @ \cup {a.p}]
    [] a.op = "unplug" -> [s EXCEPT !.pl = @ \ {a.p}]
    [] a.op = "nodef" -> [s EXCEPT !.pl = @ \cup {"nodef"}]     \* remove_default_plugins
    [] a.op = "resetpl" -> [s EXCEPT !.pl = {}]                \* reset_plugins

\* the actions which the harness may perform in a state
Mine(s, p) == G(F(s).mof, p, "-")
EnabledIn(s, m) == m \notin s.down
Enabled(s, a) ==
  CASE a.op \in {"get", "read", "copy", "noattr", "upd", "refresh", "reset"} -> a.i \in s.has /\ EnabledIn(s, It(s, a.i).m)
    [] a.op \in {"getsec", "updsec"} -> EnabledIn(s, Mine(s, a.i))
    [] a.op = "batch" -> \A n \in 1..Len(a.q) : a.q[n].i \in s.has /\ EnabledIn(s, Mine(s, a.q[n].i))
    [] a.op = "resets" -> \A n \in 1..Len(a.q) : a.q[n] \in s.has /\ EnabledIn(s, Mine(s, a.q[n]))
    [] a.op = "run" -> EnabledIn(s, a.m) /\ \A n \in 1..Len(a.q) : a.q[n] \in s.has \cup Secs(s)
    [] a.op \in {"prod", "pstart"} -> \A n \in 1..Len(a.q) : a.q[n].i \in s.has /\ EnabledIn(s, Mine(s, a.q[n].i))
    [] a.op = "pcase" -> s.prod.next = a.n /\ a.n <= Len(s.prod.cases)
    [] a.op = "pall" -> s.prod.form = "ir"
    [] a.op \in {"setfile", "setbad", "fixbad"} -> a.i \in s.fe
    [] a.op = "delkey" -> a.i \in s.fe /\ a.k \in DOMAIN s.file[a.i]
    [] a.op = "create" -> a.i \notin s.has /\ EnabledIn(s, It(s, a.i).m) /\ a.i \notin UNION {Rng(s.dmem[x]) : x \in Secs(s)}
    [] a.op = "adddict" -> a.i \notin Rng(s.dmem[a.sec])
    [] a.op = "deldict" -> a.i \in Rng(s.dmem[a.sec])
    [] a.op = "plug" -> a.p \notin s.pl
    [] a.op = "nodef" -> "nodef" \notin s.pl
    [] a.op = "unplug" -> a.p \in s.pl
    [] a.op = "srcfix" -> a.m \in s.sbad
    [] a.op = "secfix" -> a.i \in s.xbad
    [] a.op = "call" -> a.i \in s.has /\ EnabledIn(s, It(s, a.i).m) /\ (G(a, "u", <<>>) # <<>> => It(s, a.i).kind = "func")
    [] a.op = "noop" -> TRUE
    [] OTHER -> TRUE

\* an exception leaves no result, a list of errors only in force_continue mode
Step(s, a) == LET t == Act(Blank(s), a) IN
  IF Ok(t) THEN t ELSE [t EXCEPT !.ret = t.err]

\* Dependents may be refreshed in any order, so that the number of refreshes of an item which can be
\* reached in two ways is not determined (its values are).  Fixtures which compare the number of
\* changes (clauses "ev" and nn) are followed only up to such a state.
Preds(s, d) == {p[1] : p \in {q \in s.force : q[2] = d}}
RECURSIVE Anc(_, _, _)
Anc(s, S, seen) == LET N == UNION {Preds(s, d) : d \in S} \ seen IN IF N = {} THEN seen ELSE Anc(s, N, seen \cup N)
Ambiguous(s) == s.amb \/
  /\ F(s).nn \/ "ev" \in Rng(F(s).cl)
  /\ \E d \in {q[2] : q \in s.force} :
       \/ d \in UNION {Anc(s, {p}, {p}) : p \in Preds(s, d)}
       \/ \E p1, p2 \in Preds(s, d) : p1 # p2 /\ Anc(s, {p1}, {p1}) \cap Anc(s, {p2}, {p2}) # {}

\* Observations of a step
HeldEnc(s) == [i \in s.held |-> ObjEnc(s, i)]
DepEnc(D) == {p[1] \o "<-" \o p[2] : p \in D}
\* the log names what failed by its path within its manager
ErrEnc(s) == [n \in 1..Len(s.errs) |-> SubSeq(s.errs[n], Len(F(s).mof[s.errs[n]]) + 2, Len(s.errs[n]))]
Obs(s) == [ret |-> s.ret, held |-> HeldEnc(s), ev |-> s.ev, ex |-> s.ex, xs |-> s.xs,
           soft |-> DepEnc(s.soft), force |-> DepEnc(s.force), errs |-> ErrEnc(s), dbg |-> s.dbg,
           stk |-> Len(s.run) + Len(s.ldg), wr |-> s.wr]
=============================================================================
