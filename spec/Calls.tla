------------------------------- MODULE Calls -------------------------------
(* Property C08.  One call: a signature (sequence of kinds), a way of calling and values.  What the
   implementation receives and what the caller gets back is exactly what was given; every form of
   calling agrees.  Kinds: the JNI primitive letters, L object, A array of int, T string, Q array of strings, W array of arrays of int.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,     \* kinds of parameters: every single one,
          PairKinds, \* all pairs of these (the classes of argument passing), and the longer lists below
          Forms, NV  \* ways of calling; value assignments per signature

VARIABLES calls, last      \* number of implementations that ran (modulo 2)
vars == <<calls, last>>
View == calls

Vals(k) == CASE k = "Z" -> <<"0", "1">>
             [] k = "B" -> <<"0", "127", "-128", "-1", "85">>
             [] k = "C" -> <<"0", "65", "32768", "65535", "65533">>
             [] k = "S" -> <<"0", "32767", "-32768", "-1", "257">>
             [] k = "I" -> <<"0", "2147483647", "-2147483648", "-1", "16909060">>
             [] k = "J" -> <<"0", "9223372036854775807", "-9223372036854775808", "-1", "72623859790382856">>
             [] k = "F" -> <<"00000000", "7f7fffff", "80000000", "ff800000", "7fc00000", "00000001", "3f8ccccd">>
             [] k = "D" -> <<"0000000000000000", "7fefffffffffffff", "8000000000000000", "fff0000000000000", "7ff8000000000000", "0000000000000001", "3ff199999999999a">>
             [] k = "L" -> <<"null", "a", "b">>
             [] k = "A" -> <<"null", "x", "y">>
             [] k = "T" -> <<"null", "s", "t">>
             [] k = "Q" -> <<"null", "q", "u">>
             [] k = "W" -> <<"null", "m", "k">>
Value(k, n) == Vals(k)[(n % Len(Vals(k))) + 1]

Extra == {<<"Z","B","C","S","I","J","F","D","L","A","T">>, <<"T","A","L","D","F","J","I","S","C","B","Z">>,
  <<"I","I","I","I","I","I","I","I","I","I","I","I">>, <<"D","D","D","D","D","D","D","D","D","D","D","D">>, <<"F","D","F","D","F","D","F","D","F","D","F","D">>,
  <<"J","I","D","L","J","I","D","L","J","I","D","L">>, <<"A","A","T","T","L","L","Z","Z">>, <<"S","B","Z","C","J">>, <<"L","J","L">>, <<"A","I","T">>, <<"T","F","A">>,
  <<"W","I">>,
  <<"I","W","J">>,
  <<"Q","J","L">>,
  <<"I","Q","D">>,
  <<"W","W","S">>,
  <<"Q","W","Q">>,
  <<"Q","Q","T","W","A","L","B">>,
  <<"I","J","D","L","F","A","I","T","J","D","S","Z","B","C","L","Q","I","J","D","F","I","J","D","I">>,
  <<"I","I","I","I","I","I","I","I","I","I","I","I","I","I","I","I","I","I","I","I","I","D","D","D","D","D","D","D","D","D","D","D","D","D","D","D","D","D","D","D","D">>}
Lists == {<<>>} \cup [1..1 -> Kinds] \cup [1..2 -> PairKinds] \cup Extra
\* a signature returns the kind of its first parameter; without parameters every kind is tried
Rets(ps) == IF ps = <<>> THEN Kinds \cup {"V"} ELSE {ps[1]}

\* form: i instance, n nonvirtual, s static, c constructor, m native-side invocation on an object,
\* t native-side invocation on a class; followed by v variadic, l argument list, a value array
Constructs(f) == f \in {"cv", "cl", "ca"}
Args(ps, v) == [i \in 1..Len(ps) |-> Value(ps[i], v * (2 * i + 1) + i)]
Call(ps, r, f, v) ==
    /\ calls' = 1 - calls
    /\ last' = [op |-> "call", args |-> <<f, IF Constructs(f) THEN "N" ELSE r, ps, Args(ps, v), IF r = "V" \/ Constructs(f) THEN "-" ELSE Value(r, v + 1)>>,
                obs |-> [n |-> 1, args |-> Args(ps, v), recv |-> 1, env |-> 1,
                         r |-> IF Constructs(f) THEN "new" ELSE IF r = "V" THEN "" ELSE Value(r, v + 1)]]

Init == calls = 0 /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \E ps \in Lists, f \in Forms, v \in 0..(NV - 1) : \E r \in Rets(ps) : Call(ps, r, f, v)
Spec == Init /\ [][Next]_vars

\* the result of a call is a function of what was asked, independent of the way of calling
Faithful == [][last'.obs.args = last'.args[4] /\ last'.obs.n = 1 /\ Len(last'.obs.args) = Len(last'.args[3])]_vars
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
=============================================================================
