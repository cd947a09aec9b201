----------------------------- MODULE Concurrent ------------------------------
(* Programs of two or three threads over ConcurrentState, and all their sequential orders.  The programs are
   what the replayer runs under many schedules.                                                             *)
EXTENDS ConcurrentState, Json
CONSTANTS Kind, L1, L2, L3
VARIABLES prog, pc, s, sub
vars == <<prog, pc, s, sub>>
B == BOOLEAN
Ops(t) ==
  CASE Kind = "classes" -> {<<"find", n>> : n \in {"a/X", "a/X$I", "b/Y", "[I"}} \cup {<<"get", n>> : n \in {"a/X$I", "b/Y"}} \cup {<<"intarr">>, <<"objarr">>, <<"str">>, <<"class">>, <<"hand">>}
    [] Kind = "members" -> {<<"mid", c, "f", FALSE>> : c \in {"C", "Base", "Sub"}} \cup {<<"mid", "C", "f", TRUE>>, <<"mid", "C", "g", FALSE>>, <<"mid", "Sub", "g", FALSE>>, <<"fid", "C", "x", FALSE>>, <<"fid", "C", "x", TRUE>>, <<"fid", "Sub", "x", FALSE>>, <<"fid", "Base", "x", FALSE>>, <<"find", "a/Z">>, <<"run">>}
    [] Kind = "natives" -> {<<"reg", "Base", "m", "f1">>, <<"reg", "Sub", "m", "f2">>, <<"reg2", "Base", "f3">>, <<"reg2", "Sub", "f4">>, <<"nat", "Base", "m">>, <<"nat", "Sub", "m">>, <<"nat", "Sub", "n">>, <<"mid", "Sub", "f", FALSE>>, <<"run">>}
    [] Kind = "unregister" -> {<<"reg", "Base", "m", "f1">>, <<"reg", "Base", "n", "f2">>, <<"reg2", "Base", "f3">>, <<"unreg", "Base">>, <<"unreg", "Sub">>, <<"mid", "Base", "f", FALSE>>}
    [] Kind = "refs" -> {<<"gnew", "G">>, <<"gnew", "W">>, <<"gdel">>, <<"wnew", "G">>, <<"wnew", "W">>, <<"wdel">>, <<"lnew", "W">>, <<"wget">>, <<"dead">>, <<"put", "W">>, <<"class">>} \cup (IF t = 1 THEN {<<"drop">>} ELSE {})
    [] Kind = "own" -> {<<"gown">>, <<"gdel">>, <<"gget">>, <<"wown">>, <<"wdel">>, <<"wget">>, <<"dead">>}
    [] Kind = "threads" -> {<<"attach">>, <<"detach">>, <<"getenv">>, <<"vmenv">>, <<"lnew", "W">>, <<"find", "b/Y">>, <<"throw", "x">>, <<"occ">>}
    [] Kind = "exceptions" -> {<<"throw", "x">>, <<"throw", "y">>, <<"occ">>, <<"clear">>, <<"boom">>, <<"run">>}
    [] Kind = "monitors" -> {<<"menter">>, <<"mexit">>, <<"run">>}
    [] Kind = "mixed" -> {<<"find", "a/X$I">>, <<"intarr">>, <<"mid", "C", "g", FALSE>>, <<"mid", "Sub", "f", FALSE>>, <<"fid", "C", "x", FALSE>>, <<"reg2", "Sub", "f4">>, <<"nat", "Sub", "m">>, <<"gnew", "W">>, <<"gdel">>, <<"wnew", "W">>, <<"attach">>, <<"detach">>, <<"str">>, <<"boom">>, <<"run">>, <<"hand">>}
Setups ==
  CASE Kind = "classes" -> {<<>>, <<<<"get", "a/X">>>>, <<<<"get", "[I">>, <<"get", "b/Y">>>>}
    [] Kind = "members" -> {<<>>, <<<<"mid", "Base", "f", FALSE>>, <<"fid", "Base", "x", FALSE>>>>}
    [] Kind = "natives" -> {<<>>, <<<<"reg2", "Base", "f5">>>>, <<<<"reg", "Sub", "m", "f6">>>>}
    [] Kind = "unregister" -> {<<>>, <<<<"reg2", "Base", "f5">>, <<"reg", "Sub", "n", "f6">>>>}
    [] Kind = "refs" -> {<<>>, <<<<"drop">>>>}
    [] Kind = "own" -> {<<>>, <<<<"give">>>>}
    [] Kind = "mixed" -> {<<>>, <<<<"reg2", "Base", "f5">>, <<"get", "a/X">>>>}
    [] OTHER -> {<<>>}
\* threads start with an environment, except where that is the subject
Begins == IF Kind = "threads" THEN {{}, {1}, {1, 2, 3}} ELSE {{1, 2, 3}}
Tail1(q) == SubSeq(q, 2, Len(q))
Seqs(t, n) == IF n = 0 THEN {<<>>} ELSE [1..n -> Ops(t)]
UsesG(q) == \E i \in DOMAIN q : q[i] \in {<<"gnew", "G">>, <<"wnew", "G">>, <<"put", "G">>, <<"class">>, <<"menter">>, <<"run">>}
Drops(q) == \E i \in DOMAIN q : q[i] = <<"drop">>
RECURSIVE After(_, _)
After(st, q) == IF q = <<>> THEN st ELSE LET r == CHOOSE x \in Act(st, 0, Head(q)) : TRUE IN After(r.s, (IF r.more = <<>> THEN <<>> ELSE <<r.more>>) \o Tail1(q))
\* a thread does not use G while another deletes it, or after it was deleted
Sane(setup, p) == LET gone == Drops(setup) IN (~gone \/ \A i \in DOMAIN p : ~UsesG(p[i]) /\ ~Drops(p[i])) /\
  (\A i, k \in DOMAIN p : (i # k /\ Drops(p[i])) => ~UsesG(p[k])) /\
  (\A i \in DOMAIN p : \A x, y \in DOMAIN p[i] : (x < y /\ p[i][x] = <<"drop">>) => ~UsesG(<<p[i][y]>>))
Progs == {<<p, q, r>> : p \in Seqs(1, L1), q \in Seqs(2, L2), r \in Seqs(3, L3)}
Init == \E q \in Setups, p \in Progs, Begin \in Begins :
          /\ Sane(q, p) /\ prog = [setup |-> q, p |-> p] /\ pc = <<1, 1, 1>> /\ sub = <<<<>>, <<>>, <<>>>> /\ s = [After(Empty, q) EXCEPT !.att = {0} \cup Begin]
          /\ PrintT("P " \o ToJson([setup |-> q, p |-> p, att |-> Begin]))
Steps(t) == IF prog.p[t] = <<>> THEN <<>> ELSE Append(prog.p[t], <<"end">>)
Step(t) == /\ pc[t] <= Len(Steps(t)) /\ UNCHANGED prog
           /\ \E r \in Act(s, t, IF sub[t] = <<>> THEN Steps(t)[pc[t]] ELSE sub[t]) :
                s' = r.s /\ sub' = [sub EXCEPT ![t] = r.more] /\ pc' = [pc EXCEPT ![t] = IF r.more = <<>> THEN @ + 1 ELSE @]
Next == \E t \in 1..3 : Step(t)
Spec == Init /\ [][Next]_vars
TypeOK == /\ s.att \subseteq Threads /\ (s.mon[2] = 0 <=> s.mon[1] = 0) /\ (\A t \in Threads : t \notin s.att => ~s.loc[t])
Monotone == [][s.cls \subseteq s'.cls /\ s.mem \subseteq s'.mem]_vars
StaysDead == [][~Alive(s) => ~Alive(s')]_vars
\* a thread changes nothing that belongs to another one
Own == [][\A t \in 1..3 : pc'[t] = pc[t] => (s'.exc[t] = s.exc[t] /\ s'.loc[t] = s.loc[t] /\ s'.g[t] = s.g[t] /\ s'.w[t] = s.w[t] /\ s'.locq[t] = s.locq[t] /\ (t \in s'.att) = (t \in s.att))]_vars
=============================================================================
