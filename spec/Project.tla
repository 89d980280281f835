------------------------------- MODULE Project -------------------------------
(***************************************************************************)
(* Creating managers and their projects, and finding managers (C21).       *)
(*                                                                         *)
(* The file system is a function from the paths of the fixture to "" (not  *)
(* there), "dir", "new" (a file as the library creates it) or the token of *)
(* a file which the user wrote.  A manager is [no, proj, cfg, dicts, ld]:  *)
(* the number of its creation, its folder, the name of its config folder,  *)
(* its specific class dicts and the items it has loaded.                   *)
(* Step is a deterministic transformer, used by ProjectModel.tla and       *)
(* ProjectTrace.tla in the same way as the kernel's.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Fixtures == JsonDeserialize(IOEnv.PFC_FIXTURES)
Rng(q) == {q[n] : n \in 1..Len(q)}
F(s) == Fixtures[s.fx]
Paths(s) == Rng(F(s).paths)
Names(s) == Rng(F(s).names)

NoManager == [no |-> 0, proj |-> "", cfg |-> "", dicts |-> <<>>, ld |-> FALSE, items |-> <<>>]
Init0(n) ==
  [ fx |-> n, fs |-> Fixtures[n].fs,
    act |-> [m \in Rng(Fixtures[n].names) |-> NoManager],   \* the active managers
    made |-> 0, log |-> "",
    ret |-> "", warn |-> 0 ]
-----------------------------------------------------------------------------
(* The file system *)
Has(s, p) == s.fs[p] # ""
\* anc: the folders a path is in, outermost first;  under: the paths in a folder
MkDir(s, p) == [s EXCEPT !.fs = [x \in DOMAIN @ |-> IF (x = p \/ x \in Rng(F(s).anc[p])) /\ @[x] = "" THEN "dir" ELSE @[x]]]
Put(s, p, v) == LET t == FoldLeft(LAMBDA u, d : MkDir(u, d), s, F(s).anc[p]) IN [t EXCEPT !.fs[p] = v]
Rm(s, p) == [s EXCEPT !.fs = [x \in DOMAIN @ |-> IF x = p \/ x \in Rng(F(s).under[p]) THEN "" ELSE @[x]]]
Missing(s, p) == IF Has(s, p) THEN s ELSE Put(s, p, "new")
-----------------------------------------------------------------------------
(* A project: the folders and files a manager needs *)
DictFile(p, d) == p \o "/" \o d \o "_dict.py"
MainFile(p) == p \o "/pipeline_dict.py"
CfgDir(p, c) == p \o "/" \o c
Files(p, dicts) == <<MainFile(p)>> \o [n \in 1..Len(dicts) |-> DictFile(p, dicts[n])]
Create(s, a) ==
  LET t == MkDir(s, CfgDir(a.proj, a.cfg))
      u == IF s.log = "" THEN t ELSE MkDir(t, s.log)
  IN FoldLeft(LAMBDA v, f : Missing(v, f), u, Files(a.proj, a.dicts))

New(s, a) ==
  IF a.mode = "both" THEN [s EXCEPT !.ret = "ValueError"]       \* auto_pdb and force_continue
  ELSE LET t == Create(s, a) IN
       [t EXCEPT !.made = @ + 1, !.warn = IF s.act[a.m].no # 0 THEN 1 ELSE 0,
                 !.act[a.m] = [no |-> s.made + 1, proj |-> a.proj, cfg |-> a.cfg, dicts |-> a.dicts, ld |-> FALSE, items |-> <<>>],
                 !.ret = "made"]
-----------------------------------------------------------------------------
(* Loading.  tok[t]: the items which a dict file with the text t defines, with the config file of each
   within the config folder.  A config file is as scaffolded ("new") or the user's. *)
ItemsOf(s, g, f, pre) == IF s.fs[f] = "new" THEN <<>>
                         ELSE LET q == F(s).tok[s.fs[f]] IN [n \in 1..Len(q) |-> CfgDir(g.proj, g.cfg) \o pre \o "/" \o q[n]]
RECURSIVE AllDicts(_, _, _)
AllDicts(s, g, n) == IF n > Len(g.dicts) THEN <<>>
                     ELSE ItemsOf(s, g, DictFile(g.proj, g.dicts[n]), "/" \o g.dicts[n]) \o AllDicts(s, g, n + 1)
AllItems(s, g) == ItemsOf(s, g, MainFile(g.proj), "") \o AllDicts(s, g, 1)
Loadable(s, g) == g.no # 0 /\ \A f \in Rng(Files(g.proj, g.dicts)) : Has(s, f)
\* an item is its config file, with .py
Load(s, a) ==
  LET g == s.act[a.m]
      its == AllItems(s, g)
      \* the config folder and one in it for every specific class dict are there even without items
      r == FoldLeft(LAMBDA u, d : MkDir(u, d), s, <<CfgDir(g.proj, g.cfg)>> \o [n \in 1..Len(g.dicts) |-> CfgDir(g.proj, g.cfg) \o "/" \o g.dicts[n]])
      t == FoldLeft(LAMBDA u, i : Missing(u, i), r, its)
  IN [t EXCEPT !.act[a.m].ld = TRUE, !.act[a.m].items = its, !.ret = "loaded"]
\* the values of all items of a manager, read for the first time after loading it again
Vals(s, a) == LET t == Load(s, a)
                  its == t.act[a.m].items
              IN [t EXCEPT !.ret = FoldLeft(LAMBDA x, i : x \o i \o "=" \o t.fs[i] \o " ", "", its)]
-----------------------------------------------------------------------------
(* Finding *)
ByName(s, m) == IF s.act[m].no = 0 THEN "none" ELSE "manager " \o ToString(s.act[m].no)
\* the fixture says in which project a file would be ("" if in none)
ByFile(s, p) == IF \E m \in Names(s) : s.act[m].no # 0 /\ s.act[m].proj = p THEN "in " \o p ELSE "none"
\* a manager which is not loaded has no items, and is not in a Selector
Sel(s) == FoldLeft(LAMBDA x, m : IF s.act[m].ld THEN x \o m \o " " ELSE x, "", F(s).names)

Act(s, a) ==
  CASE a.op = "new"   -> New(s, a)
    [] a.op = "load"  -> Load(s, a)
    [] a.op = "vals"  -> Vals(s, a)
    [] a.op = "put"   -> Put(s, a.p, a.v)
    [] a.op = "mkdir" -> MkDir(s, a.p)
    [] a.op = "rm"    -> Rm(s, a.p)
    [] a.op = "log"   -> IF a.p = "" THEN [s EXCEPT !.log = ""] ELSE IF a.p = s.log THEN s ELSE [MkDir(s, a.p) EXCEPT !.log = a.p]
    [] a.op = "file"  -> [s EXCEPT !.ret = ByFile(s, a.proj)]
    [] a.op = "path"  -> [s EXCEPT !.ret = ByName(s, a.m)]
    [] a.op = "sel"   -> [s EXCEPT !.ret = Sel(s)]
    [] a.op = "drop"  -> s                                       \* the user drops every reference to managers
    [] a.op = "forget" -> [s EXCEPT !.act = [m \in DOMAIN @ |-> NoManager]]      \* context.reset()

Enabled(s, a) ==
  CASE a.op = "load" -> Loadable(s, s.act[a.m])
    [] a.op = "vals" -> Loadable(s, s.act[a.m])
    [] a.op = "rm"   -> Has(s, a.p)
    [] OTHER -> TRUE
Blank(s) == [s EXCEPT !.ret = "", !.warn = 0]
Step(s, a) == Act(Blank(s), a)
Obs(s) == [ret |-> s.ret, warn |-> s.warn,
           fs |-> FoldLeft(LAMBDA q, p : IF Has(s, p) THEN Append(q, p \o "=" \o s.fs[p]) ELSE q, <<>>, F(s).paths),
           act |-> FoldLeft(LAMBDA x, m : x \o m \o " " \o ByName(s, m) \o ";", "", F(s).names)]
Hidden(s) == Blank(s)
=============================================================================
