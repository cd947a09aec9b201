----------------------------- MODULE FieldBind -----------------------------
(* Property C10, the bindings themselves.  Fields are identified by class, kind (static or instance), name
   and type; they are bound, rebound and looked up in any order.  A binding of one direction (an accessor)
   replaces only that direction of that very field; a variable binds both.  A lookup finds the field in
   the class, then in its base, whichever direction is bound, and otherwise declares it in the class
   (nothing in a strict VM).  A field handle stays the field it was found for: later bindings of that
   field are seen through it, bindings of others never.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,      \* "i" instance, "s" static
          Names, Types, Vers, NV, Handles, Strict, Classes
VARIABLES decl,       \* decl[c][k]: the class has the field
          gb, sb,     \* the storage the getter and the setter of the field are bound to, 0: none
          cell,       \* content of the storage: one per class, field and version
          hd,         \* the field behind each handle
          last
vars == <<decl, gb, sb, cell, hd, last>>
View == <<decl, gb, sb, cell, hd>>
Keys == Kinds \X Names \X Types
Fields == Classes \X Keys
None == <<"", <<"", "", "">>>>
Key(k) == k[1] \o "." \o k[2] \o "." \o k[3]
Ref(f, v) == f[1] \o "." \o Key(f[2]) \o "." \o ToString(v)
Stores == {<<f, v>> : f \in Fields, v \in Vers}

Log(op, args, r, calls) == last' = [op |-> op, args |-> args, obs |-> [r |-> r, calls |-> calls,
                              cells |-> [x \in {Ref(s[1], s[2]) : s \in Stores} |-> cell'[CHOOSE s \in Stores : Ref(s[1], s[2]) = x]]]]
Cur(f, b) == <<f, b>>

(* hooks *)
HookGet(f, v) == /\ decl' = [decl EXCEPT ![f] = TRUE] /\ gb' = [gb EXCEPT ![f] = v] /\ UNCHANGED <<sb, cell, hd>>
                 /\ Log("hookget", <<f[1], f[2][1], f[2][2], f[2][3], v>>, 0, <<>>)
HookSet(f, v) == /\ decl' = [decl EXCEPT ![f] = TRUE] /\ sb' = [sb EXCEPT ![f] = v] /\ UNCHANGED <<gb, cell, hd>>
                 /\ Log("hookset", <<f[1], f[2][1], f[2][2], f[2][3], v>>, 0, <<>>)
\* a variable; bound as such it counts as version 1 without accessors: 10 marks that nothing is called
HookVar(f) == /\ decl' = [decl EXCEPT ![f] = TRUE] /\ gb' = [gb EXCEPT ![f] = 10] /\ sb' = [sb EXCEPT ![f] = 10] /\ UNCHANGED <<cell, hd>>
              /\ Log("hookvar", <<f[1], f[2][1], f[2][2], f[2][3]>>, 0, <<>>)
Ver(b) == IF b = 10 THEN 1 ELSE b

(* lookups *)
Has(c, k) == IF decl[<<c, k>>] THEN <<c, k>> ELSE IF c = "D" /\ decl[<<"B", k>>] THEN <<"B", k>> ELSE None
Find(h, c, k) == LET f == Has(c, k) IN
  /\ IF f # None THEN hd' = [hd EXCEPT ![h] = f] /\ UNCHANGED decl
     ELSE IF Strict THEN hd' = [hd EXCEPT ![h] = None] /\ UNCHANGED decl
     ELSE hd' = [hd EXCEPT ![h] = <<c, k>>] /\ decl' = [decl EXCEPT ![<<c, k>>] = TRUE]
  /\ UNCHANGED <<gb, sb, cell>>
  /\ Log("find", <<h, c, k[1], k[2], k[3]>>, IF hd'[h] = None THEN 0 ELSE 1, <<>>)
\* two handles are equal exactly if they are the same field
Same(h, g) == /\ hd[h] # None /\ hd[g] # None /\ h # g /\ UNCHANGED <<decl, gb, sb, cell, hd>>
              /\ Log("same", <<h, g>>, IF hd[h] = hd[g] THEN 1 ELSE 0, <<>>)

(* accesses *)
Calls(dir, f, b) == IF b = 0 \/ b = 10 THEN <<>> ELSE <<dir \o " " \o Ref(f, b)>>
Get(h) == LET f == hd[h] IN
  /\ f # None /\ UNCHANGED <<decl, gb, sb, cell, hd>>
  /\ Log("get", <<h>>, IF gb[f] = 0 THEN 0 ELSE cell[<<f, Ver(gb[f])>>], Calls("get", f, gb[f]))
Set(h, x) == LET f == hd[h] IN
  /\ f # None /\ cell' = (IF sb[f] = 0 THEN cell ELSE [cell EXCEPT ![<<f, Ver(sb[f])>>] = x]) /\ UNCHANGED <<decl, gb, sb, hd>>
  /\ Log("set", <<h, x>>, 0, Calls("set", f, sb[f]))
Init == /\ decl = [f \in Fields |-> FALSE] /\ gb = [f \in Fields |-> 0] /\ sb = [f \in Fields |-> 0]
        /\ cell = [s \in Stores |-> 0] /\ hd = [h \in Handles |-> None]
        /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E f \in Fields, v \in Vers : HookGet(f, v)
        \/ \E f \in Fields, v \in Vers : HookSet(f, v)
        \/ \E f \in Fields : HookVar(f)
        \/ \E h \in Handles, c \in Classes, k \in Keys : Find(h, c, k)
        \/ \E h \in Handles, g \in Handles : Same(h, g)
        \/ \E h \in Handles : Get(h)
        \/ \E h \in Handles, x \in 0..NV : Set(h, x)
Spec == Init /\ [][Next]_vars
(* ---- C10 ---- *)
TypeOK == /\ gb \in [Fields -> Vers \cup {0, 10}] /\ sb \in [Fields -> Vers \cup {0, 10}]
          /\ \A f \in Fields : (gb[f] # 0 \/ sb[f] # 0) => decl[f]
\* an access touches the storage of the field of its handle and no other
Own == [][\A s \in Stores : cell'[s] # cell[s] => (last'.op = "set" /\ s[1] = hd[last'.args[1]])]_vars
\* a binding changes the named direction of the named field and no other
OneBinding == [][(gb' # gb \/ sb' # sb) => Cardinality({f \in Fields : gb'[f] # gb[f] \/ sb'[f] # sb[f]}) = 1]_vars
\* handles never move by themselves
Stable == [][\A h \in Handles : hd'[h] # hd[h] => (last'.op = "find" /\ last'.args[1] = h)]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
