-------------------------- MODULE ConcurrentState ---------------------------
(* Property C20.  The atomic meaning of every call on a VM shared by several threads: what it does to the
   VM and what it returns, if calls happen one at a time.  Thread 0 prepares the VM and looks at it in the end.
   Every operation is total: one that makes no sense in a state is a `skip` which the replayer recognises by
   itself (a thread without environment, a reference slot of its own that is empty or taken).                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Lenient
Threads == 0..3
ClassSeq == <<"a/X", "a/X$I", "b/Y", "[I", "[La/C;", "a/Z">>
MemSeq == << <<"m", "C", "f", FALSE>>, <<"m", "Base", "f", FALSE>>, <<"m", "Sub", "f", FALSE>>, <<"m", "C", "f", TRUE>>, <<"m", "C", "g", FALSE>>,
             <<"m", "Base", "g", FALSE>>, <<"m", "Sub", "g", FALSE>>, <<"f", "C", "x", FALSE>>, <<"f", "C", "x", TRUE>>, <<"f", "Base", "x", FALSE>>, <<"f", "Sub", "x", FALSE>> >>
NatSeq == << <<"Base", "m">>, <<"Base", "n">>, <<"Sub", "m">>, <<"Sub", "n">> >>
Empty == [cls |-> {}, mem |-> {}, nat |-> [p \in {NatSeq[i] : i \in DOMAIN NatSeq} |-> "none"], G |-> TRUE,
          W |-> TRUE, g |-> [t \in Threads |-> "none"], w |-> [t \in Threads |-> "none"], arr |-> [t \in Threads |-> FALSE],
          loc |-> [t \in Threads |-> FALSE], locq |-> [t \in Threads |-> FALSE], pin |-> [t \in Threads |-> FALSE], att |-> {0}, exc |-> [t \in Threads |-> "none"], mon |-> <<0, 0>>]
\* the one object with references: kept by the global G, references of threads, their local frames, the array,
\* and by calls in progress which have resolved a weak reference to it
Alive(s) == s.G \/ (\E t \in Threads : s.g[t] = "o" \/ s.loc[t] \/ s.arr[t] \/ s.pin[t])
\* every thread can have an object of its own, kept by its reference slot and local frame
OwnAlive(s, t) == s.g[t] = "q" \/ s.locq[t]
Path(n) == IF n = "a/X$I" THEN {"a/X", "a/X$I"} ELSE {n}
Chain(c) == IF c = "Sub" THEN <<"Sub", "Base">> ELSE <<c>>
R(s, o) == {[s |-> s, o |-> o, more |-> <<>>]}
More(s, q) == {[s |-> s, o |-> "", more |-> q]}
Skip(s) == R(s, "skip")
\* a member that is in the class or a base class, or else a new one of the class; the classes are searched one after
\* the other, other threads can run in between
Lookup(s, k, c, m, st, n) ==
  LET Search(i) == IF <<k, Chain(c)[i], m, st>> \in s.mem THEN R(s, Chain(c)[i] \o "." \o m) ELSE More(s, <<"search", k, c, m, st, i + 1>>)
  IN IF n <= Len(Chain(c)) THEN Search(n)
     ELSE IF ~Lenient THEN R(s, "null")
     ELSE R([s EXCEPT !.mem = @ \cup {<<k, c, m, st>>}, !.cls = @ \cup (IF k = "f" \/ m = "g" THEN {"a/Z"} ELSE {})], c \o "." \o m)
Native(s, c, m, n) == IF n > Len(Chain(c)) THEN R(s, "none") ELSE IF s.nat[<<Chain(c)[n], m>>] # "none" THEN R(s, s.nat[<<Chain(c)[n], m>>]) ELSE More(s, <<"nativein", c, m, n + 1>>)
Src(s, x) == IF x = "G" THEN s.G ELSE s.W /\ Alive(s)
RECURSIVE Cat(_, _)
Cat(f, i) == IF i = 0 THEN "" ELSE Cat(f, i - 1) \o f[i]
Count(s) == (IF s.G THEN 1 ELSE 0) + (IF s.W THEN 1 ELSE 0) + Cardinality({t \in Threads : s.g[t] # "none"}) + Cardinality({t \in Threads : s.w[t] # "none"})
Final(s) == Cat([i \in DOMAIN ClassSeq |-> IF ClassSeq[i] \in s.cls THEN ClassSeq[i] \o " " ELSE ""], Len(ClassSeq)) \o "| "
            \o Cat([i \in DOMAIN MemSeq |-> IF MemSeq[i] \in s.mem THEN MemSeq[i][1] \o MemSeq[i][2] \o "." \o MemSeq[i][3] \o (IF MemSeq[i][4] THEN "s " ELSE " ") ELSE ""], Len(MemSeq)) \o "| "
            \o Cat([i \in DOMAIN NatSeq |-> s.nat[NatSeq[i]] \o " "], Len(NatSeq)) \o "| " \o ToString(Count(s)) \o (IF Alive(s) THEN " alive" ELSE " dead")
            \o Cat([t \in 1..3 |-> IF OwnAlive(s, t) THEN " q" \o ToString(t) ELSE ""], 3)
Resolve(s, t, x) == IF x THEN R([s EXCEPT !.loc[t] = TRUE], "o") ELSE R(s, "null")
\* what q does if thread t calls it in state s: the set of pairs of next state and result; empty: it waits;
\* a call with `more` to do has not returned yet
Plain(s, t, q) ==
  LET op == q[1] IN
  CASE op = "attach" -> R([s EXCEPT !.att = @ \cup {t}], "own")
    [] op = "getenv" -> R([s EXCEPT !.att = @ \cup {t}], "own")
    [] op = "detach" -> R([s EXCEPT !.att = @ \ {t}, !.loc[t] = FALSE, !.locq[t] = FALSE, !.exc[t] = "none"], "ok")
    \* the thread comes to its end; it takes its environment with it
    [] op = "end" -> R([s EXCEPT !.att = @ \ {t}, !.loc[t] = FALSE, !.locq[t] = FALSE, !.exc[t] = "none"], "ok")
    [] op # "attach" /\ op # "getenv" /\ op # "detach" /\ t \notin s.att -> Skip(s)
    [] op = "vmenv" -> R(s, "own")
    [] op = "find" -> IF Lenient THEN R([s EXCEPT !.cls = @ \cup Path(q[2])], q[2]) ELSE R(s, IF q[2] \in s.cls THEN q[2] ELSE "null")
    [] op = "get" -> R([s EXCEPT !.cls = @ \cup Path(q[2])], q[2])
    [] op = "intarr" -> R([s EXCEPT !.cls = @ \cup {"[I"}], "[I")
    [] op = "objarr" -> R([s EXCEPT !.cls = @ \cup {"[La/C;"}], "[La/C;")
    [] op = "str" -> R(s, "java/lang/String")
    [] op = "mid" -> Lookup(s, "m", q[2], q[3], q[4], 1)
    [] op = "fid" -> Lookup(s, "f", q[2], q[3], q[4], 1)
    [] op = "search" -> Lookup(s, q[2], q[3], q[4], q[5], q[6])
    [] op = "run" -> R(s, "42")
    [] op = "boom" -> R([s EXCEPT !.exc[t] = "boom"], "0")
    [] op = "throw" -> R([s EXCEPT !.exc[t] = q[2]], "ok")
    [] op = "occ" -> R(s, s.exc[t])
    [] op = "clear" -> R([s EXCEPT !.exc[t] = "none"], "ok")
    [] op = "reg" -> R([s EXCEPT !.nat[<<q[2], q[3]>>] = q[4]], "ok")
    [] op = "reg2" -> R([s EXCEPT !.nat[<<q[2], "m">>] = q[3], !.nat[<<q[2], "n">>] = q[3]], "ok")
    [] op = "unreg" -> R([s EXCEPT !.nat = [p \in DOMAIN @ |-> IF p[1] = q[2] THEN "none" ELSE @[p]]], "ok")
    [] op = "nat" -> Native(s, q[2], q[3], 1)
    [] op = "nativein" -> Native(s, q[2], q[3], q[4])
    \* references
    [] op = "gnew" -> IF s.g[t] # "none" THEN Skip(s) ELSE IF Src(s, q[2]) THEN R([s EXCEPT !.g[t] = "o"], "o") ELSE R(s, "null")
    [] op = "gdel" -> IF s.g[t] = "none" THEN Skip(s) ELSE IF s.g[t] = "q" THEN R([s EXCEPT !.g[t] = "none"], IF s.locq[t] THEN "kept" ELSE "gone") ELSE R([s EXCEPT !.g[t] = "none"], "ok")
    [] op = "wnew" -> IF s.w[t] # "none" THEN Skip(s) ELSE IF Src(s, q[2]) THEN R([s EXCEPT !.w[t] = "o"], "o") ELSE R(s, "null")
    [] op = "wdel" -> IF s.w[t] = "none" THEN Skip(s) ELSE R([s EXCEPT !.w[t] = "none"], "ok")
    [] op = "lnew" -> Resolve(s, t, Src(s, q[2]))
    [] op = "give" -> R([s EXCEPT !.g = [u \in Threads |-> IF u = 0 THEN @[u] ELSE "q"]], "ok")
    [] op = "gown" -> IF s.g[t] # "none" THEN Skip(s) ELSE IF s.locq[t] \/ s.w[t] = "q" THEN Skip(s) ELSE R([s EXCEPT !.g[t] = "q"], "q" \o ToString(t))
    [] op = "gget" -> R(s, IF s.g[t] = "q" THEN "q" \o ToString(t) ELSE IF s.g[t] = "none" THEN "null" ELSE "o")
    [] op = "wown" -> IF s.w[t] # "none" \/ s.g[t] # "q" THEN Skip(s) ELSE R([s EXCEPT !.w[t] = "q"], "q" \o ToString(t))
    [] op = "wget" /\ s.w[t] = "q" -> IF OwnAlive(s, t) THEN R([s EXCEPT !.locq[t] = TRUE], "q" \o ToString(t)) ELSE R(s, "null")
    [] op = "wget" -> IF s.w[t] = "none" THEN Skip(s) ELSE Resolve(s, t, Alive(s))
    [] op = "dead" -> R(s, IF Alive(s) THEN "alive" ELSE "dead")
    [] op = "drop" -> IF s.G THEN R([s EXCEPT !.G = FALSE], "ok") ELSE Skip(s)
    [] op = "pop" -> R([s EXCEPT !.loc[t] = FALSE, !.locq[t] = FALSE], "ok")
    [] op = "put" -> IF Src(s, q[2]) THEN R([s EXCEPT !.arr[t] = TRUE], "ok") ELSE R(s, "null")
    [] op = "unput" -> R([s EXCEPT !.arr[t] = FALSE], "ok")
    [] op = "class" -> R(s, "a/O")
    \* an object of the native side which threads see for the first time
    [] op = "hand" -> R(s, "a/Sub")
    [] op = "menter" -> IF s.mon[2] = 0 \/ s.mon[1] = t THEN R([s EXCEPT !.mon = <<t, s.mon[2] + 1>>], "ok") ELSE {}
    [] op = "mexit" -> IF s.mon[2] > 0 /\ s.mon[1] = t THEN R([s EXCEPT !.mon = IF s.mon[2] = 1 THEN <<0, 0>> ELSE <<t, s.mon[2] - 1>>], "ok") ELSE Skip(s)
    [] op = "final" -> R(s, Final(s))
    [] OTHER -> R(s, "unknown operation")
\* a call that reads a weak reference may keep the object alive from there until it returns
WeakRead(s, t, q) == t \in s.att /\ (q[1] = "dead" \/ (q[1] = "wget" /\ s.w[t] = "o") \/ (q[1] \in {"gnew", "wnew", "lnew", "put"} /\ q[2] = "W"))
Act(s, t, q) == IF q[1] = "pinned" THEN {[r EXCEPT !.s.pin[t] = FALSE] : r \in Plain(s, t, q[2])}
                ELSE Plain(s, t, q) \cup (IF WeakRead(s, t, q) /\ Alive(s) THEN More([s EXCEPT !.pin[t] = TRUE], <<"pinned", q>>) ELSE {})
=============================================================================
