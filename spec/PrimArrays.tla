----------------------------- MODULE PrimArrays -----------------------------
(* Property C12.  Arrays of one primitive type (chosen by the first step) in a few slots.  An array is
   made by JNI (zeros), by native code from a vector, as copy of foreign memory or as view of it, or
   empty; afterwards it is one sequence of elements, read and written through regions, element
   pointers, critical pointers, native code and, for views, the foreign memory itself.  Every step
   names the length and content of all arrays afterwards.  Values are indices into boundary values.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Types, Slots, MaxLen, NV, Kinds
VARIABLES ty, arr, last
vars == <<ty, arr, last>>
View == <<ty, arr>>
Vals == 0..NV
None == [k |-> "none", d |-> <<>>]
\* what the foreign memory holds when a view or a copy is made
Pattern(n) == [i \in 1..n |-> i % (NV + 1)]
Obs(a) == [s \in Slots |-> a[s]]
Do(op, args, a, r) == /\ arr' = a /\ last' = [op |-> op, args |-> args, obs |-> [r |-> r, arr |-> Obs(a)]] /\ UNCHANGED ty
On == ty # ""
Live(s) == On /\ arr[s].k # "none"
Len1(s) == Len(arr[s].d)
Put(d, i, v) == [j \in DOMAIN d |-> IF i < j /\ j <= i + Len(v) THEN v[j - i] ELSE d[j]]

Pick(x) == ty = "" /\ ty' = x /\ arr' = arr /\ last' = [op |-> "pick", args |-> <<x>>, obs |-> [r |-> 0, arr |-> Obs(arr)]]
New(s, n) == On /\ arr[s].k = "none" /\ Do("new", <<s, n>>, [arr EXCEPT ![s] = [k |-> "jni", d |-> [i \in 1..n |-> 0]]], "[" \o ty)
Vec(s, n) == On /\ arr[s].k = "none" /\ Do("vec", <<s, n>>, [arr EXCEPT ![s] = [k |-> "vec", d |-> Pattern(n)]], 0)
Copy(s, n) == On /\ arr[s].k = "none" /\ Do("copy", <<s, n>>, [arr EXCEPT ![s] = [k |-> "copy", d |-> Pattern(n)]], 0)
Foreign(s, n) == On /\ arr[s].k = "none" /\ Do("view", <<s, n>>, [arr EXCEPT ![s] = [k |-> "view", d |-> Pattern(n)]], 0)
\* the last reference goes; the foreign memory of a view stays as it is
Drop(s) == Live(s) /\ Do("drop", <<s>>, [arr EXCEPT ![s] = None], IF arr[s].k = "view" THEN arr[s].d ELSE <<>>)
Get(s, i, n, k) == Live(s) /\ i + n <= Len1(s) /\ Do("get", <<s, i, n, k>>, arr, SubSeq(arr[s].d, i + 1, i + n))
Set(s, i, v, k) == Live(s) /\ i + Len(v) <= Len1(s) /\ Do("set", <<s, i, v, k>>, [arr EXCEPT ![s].d = Put(arr[s].d, i, v)], 0)
\* regions copied within one array or from array to array, through the element pointer of one of them
Own(s, r, i, n, j, k, w) == /\ Live(s) /\ Live(r) /\ n > 0 /\ i + n <= Len1(s) /\ j + n <= Len1(r) /\ (s = r => (i + n <= j \/ j + n <= i))
                         /\ Do("own", <<s, r, i, n, j, k, w>>, [arr EXCEPT ![r].d = Put(arr[r].d, j, SubSeq(arr[s].d, i + 1, i + n))], 0)
Ways == {"elem", "crit", "held", "native", "foreign"}
Has(s, w) == (w = "foreign") => (arr[s].k = "view")
Write(s, w, i, v, k) == Live(s) /\ i < Len1(s) /\ Has(s, w) /\ Do("write", <<s, w, i, v, k>>, [arr EXCEPT ![s].d = Put(arr[s].d, i, <<v>>)], 0)
Read(s, w, k) == Live(s) /\ Has(s, w) /\ Do("read", <<s, w, k>>, arr, arr[s].d)
\* many more arrays come and go: nothing piles up
Churn(n) == On /\ Do("churn", <<n>>, arr, "steady")
Null == On /\ Do("null", <<>>, arr, <<0, "null">>)

Seqs(n) == UNION {[1..k -> Vals] : k \in 0..n}
Init == ty = "" /\ arr = [s \in Slots |-> None] /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E x \in Types : Pick(x)
        \/ \E s \in Slots, n \in 0..MaxLen : New(s, n)
        \/ \E s \in Slots, n \in 0..MaxLen : Vec(s, n)
        \/ \E s \in Slots, n \in 0..MaxLen : Copy(s, n)
        \/ \E s \in Slots, n \in 0..MaxLen : Foreign(s, n)
        \/ \E s \in Slots : Drop(s)
        \/ \E s \in Slots, i \in 0..MaxLen, n \in 0..MaxLen, k \in Kinds : Get(s, i, n, k)
        \/ \E s \in Slots, i \in 0..MaxLen, v \in Seqs(MaxLen), k \in Kinds : Set(s, i, v, k)
        \/ \E s \in Slots, w \in Ways, i \in 0..MaxLen, v \in Vals, k \in Kinds : Write(s, w, i, v, k)
        \/ \E s \in Slots, w \in Ways, k \in Kinds : Read(s, w, k)
        \/ \E s \in Slots, r \in Slots, i \in 0..MaxLen, n \in 0..MaxLen, j \in 0..MaxLen, k \in Kinds, w \in {"get", "set"} : Own(s, r, i, n, j, k, w)
        \/ \E n \in 0..MaxLen : Churn(n)
        \/ Null
Spec == Init /\ [][Next]_vars
(* ---- C12 ---- *)
TypeOK == \A s \in Slots : arr[s].d \in Seqs(MaxLen)
FixedLength == [][\A s \in Slots : (arr[s].k # "none" /\ arr'[s].k # "none") => (Len(arr'[s].d) = Len(arr[s].d) /\ arr'[s].k = arr[s].k)]_vars
ZeroNew == [][last'.op = "new" => \A i \in DOMAIN arr'[last'.args[1]].d : arr'[last'.args[1]].d[i] = 0]_vars
OneArray == [][Cardinality({s \in Slots : arr'[s] # arr[s]}) <= 1 /\ (last'.op \in {"get", "read", "churn", "null"} => arr' = arr)]_vars
OnlyRegion == [][last'.op = "set" => LET s == last'.args[1] i == last'.args[2] v == last'.args[3]
                                     IN SubSeq(arr'[s].d, i + 1, i + Len(v)) = v /\ \A j \in DOMAIN arr[s].d : (j <= i \/ j > i + Len(v)) => arr'[s].d[j] = arr[s].d[j]]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
SimEdge == PrintT("S " \o ToJson([lv |-> TLCGet("level"), s |-> View, l |-> last', t |-> View']))
=============================================================================
