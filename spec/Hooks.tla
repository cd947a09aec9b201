------------------------------- MODULE Hooks -------------------------------
(* Property C24, first part.  A native function of some shape is hooked under a fresh name of class
   t/Recv in one of the forms of hooking.  The model computes from the shape alone under which kinds
   and JNI signatures it becomes visible (to strict lookups) and what it receives through each:
     - a leading environment of either type never shows in the signature;
     - a leading class  (Class pointer, jclass) of a static form, or object (Object pointer, pointer to the class
       that is hooked) of an instance form is the receiver; the member is also visible under the
       signature in which that parameter is an ordinary argument;
     - every other parameter is an argument.
   Kinds: i instance method, s static method, f instance field, g static field.                  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Forms
VARIABLES n, last
vars == <<n, last>>
View == n

Types == {"Z", "z", "B", "C", "S", "I", "J", "F", "D", "T", "O", "R", "N", "K", "A", "X", "Y"}
Sig(t) == CASE t = "z" -> "Z" [] t = "T" -> "Ljava/lang/String;" [] t = "O" -> "Ljava/lang/Object;" [] t = "R" -> "Lt/Recv;" [] t = "N" -> "Lt/Named;"
            [] t = "K" -> "Ljava/lang/Class;" [] t = "A" -> "[I" [] t = "X" -> "[[I" [] t = "Y" -> "[Ljava/lang/String;" [] OTHER -> t
\* the argument passed for a type and what is returned for a type
Arg(t) == CASE t \in {"Z", "z"} -> "1" [] t = "J" -> "7" [] t = "T" -> "s" [] t = "O" -> "a" [] t = "R" -> "b" [] t = "N" -> "n" [] t = "K" -> "clsarg"
            [] t = "A" -> "ia" [] t = "X" -> "iaa" [] t = "Y" -> "sa" [] OTHER -> "5"
Ret(t) == CASE t = "V" -> "" [] t = "z" -> "1" [] t = "T" -> "t" [] t = "O" -> "a" [] t = "R" -> "b" [] t = "N" -> "n" [] t = "K" -> "clsarg"
            [] t = "A" -> "ia" [] t = "X" -> "iaa" [] t = "Y" -> "sa" [] OTHER -> "42"
\* leading parameters: the type they have as an argument
Lead(l) == CASE l \in {"o", "j"} -> "O" [] l = "r" -> "R" [] l \in {"c", "k"} -> "K" [] OTHER -> "M"
\* m: an unrelated class, b: the base class of the hooked one, d: a class derived from it
LSig(l) == CASE l = "m" -> "Lt/Made;" [] l = "b" -> "Lt/Parent;" [] l = "d" -> "Lt/Child;" [] OTHER -> Sig(Lead(l))
LArg(l) == CASE l = "m" -> "m" [] l = "b" -> "p" [] l = "d" -> "d" [] OTHER -> Arg(Lead(l))

RECURSIVE Cat(_), Join(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o "," \o Join(Tail(ss))
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

\* ---- shapes that exist, and the forms they can be hooked in
Lists == {[ps |-> <<>>, r |-> "V"], [ps |-> <<>>, r |-> "I"], [ps |-> <<"I">>, r |-> "V"], [ps |-> <<"I">>, r |-> "I"], [ps |-> <<"T", "J">>, r |-> "T"]}
Matrix == {[env |-> e, lead |-> l, ps |-> x.ps, r |-> x.r] : e \in {"-", "e", "n"}, l \in {"-", "o", "j", "r", "m", "c", "k"}, x \in Lists}
Related == {[env |-> e, lead |-> l, ps |-> x.ps, r |-> x.r] : e \in {"-", "e", "n"}, l \in {"b", "d"},
            x \in {[ps |-> <<>>, r |-> "V"], [ps |-> <<"I">>, r |-> "I"]}}
Typed == {[env |-> "e", lead |-> "-", ps |-> <<t>>, r |-> "V"] : t \in Types} \cup {[env |-> "e", lead |-> "-", ps |-> <<>>, r |-> t] : t \in Types}
Members == {[env |-> e, lead |-> "mf", ps |-> x.ps, r |-> x.r] : e \in {"-", "e", "n"},
            x \in {[ps |-> <<>>, r |-> "V"], [ps |-> <<"I">>, r |-> "I"], [ps |-> <<"T", "J">>, r |-> "T"]}}
Typ(s) == s \in Typed
Getter(s) == s.ps = <<>> /\ s.r # "V"
Setter(s) == Len(s.ps) = 1 /\ s.r = "V"
Ok(f, s) == CASE f \in {"inst", "instf"} -> s.lead \notin {"j", "c", "mf"}
              [] f \in {"hook", "hookp"} -> s.lead # "mf"
              [] f = "iget" -> Getter(s) /\ s.lead \in {"-", "o", "r"}
              [] f = "get" -> Getter(s) /\ s.lead \in {"-", "c", "k"}
              [] f = "iset" -> Setter(s) /\ s.lead \in {"-", "o", "r"}
              [] f = "set" -> Setter(s) /\ s.lead \in {"-", "c", "k"}
              [] f \in {"mem", "memc"} -> s.lead = "mf" \/ (Typ(s) /\ s \notin {x \in Matrix : x.ps = <<>>})
Kind(f) == CASE f \in {"inst", "instf", "mem", "memc"} -> "i" [] f \in {"hook", "hookp"} -> "s" [] f \in {"iget", "iset"} -> "f" [] f \in {"get", "set"} -> "g"
IsReceiver(f, s) == s.lead \in (IF Kind(f) \in {"i", "f"} THEN {"o", "r"} ELSE {"c", "k"})
HasLead(s) == s.lead \notin {"-", "mf"}
Method(s, withlead) == "(" \o (IF withlead THEN LSig(s.lead) ELSE "") \o Cat(Map(Sig, s.ps)) \o ")" \o Sig(s.r)
Self(f) == IF Kind(f) \in {"i", "f"} THEN "recv" ELSE "cls"

\* what is visible under a key: <<received arguments, result>>
Entries(f, s) ==
  LET k == Kind(f)
      args == Map(Arg, s.ps)
      first == IF Typ(s) /\ f \in {"mem", "memc"} THEN <<"recv">> ELSE IF s.lead = "mf" THEN <<"recv">> ELSE <<>>
  IN CASE k \in {"i", "s"} ->
          {[key |-> k \o ":" \o Method(s, HasLead(s)), obs |-> Join(first \o (IF HasLead(s) THEN <<LArg(s.lead)>> ELSE <<>>) \o args) \o "|" \o Ret(s.r)]}
          \cup (IF IsReceiver(f, s) THEN {[key |-> k \o ":" \o Method(s, FALSE), obs |-> Join(<<Self(f)>> \o args) \o "|" \o Ret(s.r)]} ELSE {})
       [] f \in {"get", "iget"} -> {[key |-> k \o ":" \o Sig(s.r), obs |-> (IF HasLead(s) THEN Self(f) ELSE "") \o "|" \o Ret(s.r)]}
       [] OTHER -> {[key |-> k \o ":" \o Sig(s.ps[1]), obs |-> Join((IF HasLead(s) THEN <<Self(f)>> ELSE <<>>) \o args) \o "|"]}

\* keys that are asked for: every reading of the shape, in every kind
Candidates(s) == LET sigs == {Method(s, FALSE)} \cup (IF HasLead(s) THEN {Method(s, TRUE)} ELSE {})
                     fld == {Sig(s.r)} \cup {Sig(s.ps[i]) : i \in DOMAIN s.ps}
                 IN SetToSeq({k \o ":" \o g : k \in {"i", "s"}, g \in sigs} \cup {k \o ":" \o g : k \in {"f", "g"}, g \in fld \ {"V"}})
Install(f, s) ==
  LET c == Candidates(s)
      e == Entries(f, s)
      o(k) == IF \E x \in e : x.key = k THEN (CHOOSE x \in e : x.key = k).obs ELSE "none"
  IN /\ Ok(f, s) = TRUE
     /\ n' = 1 - n
     /\ last' = [op |-> "install", args |-> <<f, s.env, s.lead, IF s.ps = <<>> THEN "-" ELSE Join(s.ps), s.r, c>>, obs |-> [r |-> [i \in 1..Len(c) |-> o(c[i])]]]

Init == n = 0 /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \E f \in Forms, s \in Matrix \cup Related \cup Typed \cup Members : Install(f, s)
Spec == Init /\ [][Next]_vars
\* every hook is visible under at least one and at most two keys, which are all among those asked for, and
\* the readings of one hook differ in nothing but the leading parameter
Visible == [][\E i \in DOMAIN last'.obs.r : last'.obs.r[i] # "none"]_vars
AtMostTwo == [][Cardinality({i \in DOMAIN last'.obs.r : last'.obs.r[i] # "none"}) <= 2]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
=============================================================================
