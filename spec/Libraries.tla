------------------------------ MODULE Libraries ------------------------------
(* Property C16.  Libraries attached to and removed from a VM through callbacks for opening, symbols and
   closing (two sets of callbacks).  A path either opens by itself, or is linked statically (opened as the
   main program, with entry points named after it), or does not open.  Every step names, per path, the
   successful openings, entry point calls and closings it caused, in order.  Entry points use the VM:
   the load entry point of na attaches nb and itself, the one of nb attaches na and a (with the same
   callbacks); the unload entry point of na removes a, the one of nb removes itself.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Paths, Sets
VARIABLES lib, avail, down, last
vars == <<lib, avail, down, last>>
View == <<lib, avail, down>>
\* how a path opens: file, static, or not at all while "late" is not available
KindOf(p) == CASE p \in {"a", "plain", "empty", "dir/lib.so", "na", "nb"} -> "file" [] p \in {"st", "stq"} -> "static" [] p = "late.so" -> "late" [] OTHER -> "never"
\* which of the entry points it has
HasLoad(p) == p \in {"a", "empty", "st", "late.so", "dir/lib.so", "na", "nb"}
HasUnload(p) == p \in {"a", "st", "late.so", "na", "nb"}
\* what the entry points attach and remove
OnLoad(p) == CASE p = "na" -> <<"nb", "na">> [] p = "nb" -> <<"na", "a">> [] OTHER -> <<>>
OnUnload(p) == CASE p = "na" -> <<"a">> [] p = "nb" -> <<"nb">> [] OTHER -> <<>>
Opens(p) == KindOf(p) \in {"file", "static"} \/ (KindOf(p) = "late" /\ avail)
None == [s \in Paths |-> <<>>]
LoadEv(p, s) == <<"open " \o s>> \o (IF HasLoad(p) THEN <<"load">> ELSE <<>>)
UnloadEv(p, s) == (IF HasUnload(p) THEN <<"unload">> ELSE <<>>) \o <<"close " \o s>>
Do(op, args, l, o) == ~down /\ lib' = l /\ last' = [op |-> op, args |-> args, obs |-> o] /\ UNCHANGED down
\* the library counts as attached while its load entry point runs, and as removed while the unload entry point runs
RECURSIVE AttachAll(_, _, _)
AttachAll(l, q, s) ==
  IF q = <<>> THEN l
  ELSE AttachAll(IF l[Head(q)] = "none" /\ Opens(Head(q)) THEN AttachAll([l EXCEPT ![Head(q)] = s], OnLoad(Head(q)), s) ELSE l, Tail(q), s)
RECURSIVE RemoveAll(_, _)
RemoveAll(l, q) ==
  IF q = <<>> THEN l
  ELSE RemoveAll(IF l[Head(q)] = "none" THEN l ELSE RemoveAll([l EXCEPT ![Head(q)] = "none"], OnUnload(Head(q))), Tail(q))
Events(l, m) == [p \in Paths |-> IF l[p] = m[p] THEN <<>> ELSE IF m[p] = "none" THEN UnloadEv(p, l[p]) ELSE LoadEv(p, m[p])]
Attach(p, s) == LET m == AttachAll(lib, <<p>>, s) IN Do("attach", <<p, s>>, m, Events(lib, m)) /\ UNCHANGED avail
Remove(p) == LET m == RemoveAll(lib, <<p>>) IN Do("remove", <<p>>, m, Events(lib, m)) /\ UNCHANGED avail
\* the file behind late.so appears or vanishes
Avail == "late.so" \in Paths /\ avail' = ~avail /\ Do("avail", <<avail'>>, lib, None)
Destroy == /\ ~down /\ down' = TRUE /\ avail' = avail /\ lib' = [p \in Paths |-> "none"]
           /\ last' = [op |-> "destroy", args |-> <<>>, obs |-> [p \in Paths |-> IF lib[p] = "none" THEN <<>> ELSE UnloadEv(p, lib[p])]]
Init == lib = [p \in Paths |-> "none"] /\ avail = FALSE /\ down = FALSE /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == (\E p \in Paths, s \in Sets : Attach(p, s)) \/ (\E p \in Paths : Remove(p)) \/ Avail \/ Destroy
Spec == Init /\ [][Next]_vars
(* ---- C16 ---- *)
Direct == [][/\ (last'.op = "attach" => \A p \in Paths : lib'[p] # lib[p] => lib[p] = "none" /\ (p = last'.args[1] \/ \E q \in Paths : lib'[q] # lib[q] /\ \E i \in DOMAIN OnLoad(q) : OnLoad(q)[i] = p))
             /\ (last'.op = "remove" => \A p \in Paths : lib'[p] # lib[p] => lib'[p] = "none" /\ (p = last'.args[1] \/ \E q \in Paths : lib'[q] # lib[q] /\ \E i \in DOMAIN OnUnload(q) : OnUnload(q)[i] = p))]_vars
TypeOK == lib \in [Paths -> Sets \cup {"none"}] /\ (down => \A p \in Paths : lib[p] = "none")
\* entry points run when the state of that path changes, and only then
OnceEach == [][last'.op # "avail" => \A p \in Paths :
     /\ (lib[p] = lib'[p]) = (last'.obs[p] = <<>>)
     /\ (lib[p] = "none" /\ lib'[p] # "none" => last'.obs[p] = LoadEv(p, lib'[p]))
     /\ (lib[p] # "none" /\ lib'[p] = "none" => last'.obs[p] = UnloadEv(p, lib[p]))]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
