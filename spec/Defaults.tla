------------------------------ MODULE Defaults -------------------------------
(* Property C23.  What a call or read yields when there is nothing to run, or what runs fails.
   A type is an element (a primitive, or a class by name) and a number of array dimensions.  `reg` are the
   classes of the application that native types have been registered for so far.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Lenient, NonZero
VARIABLES reg, last
vars == <<reg, last>>
View == reg
Prims == {"Z", "B", "C", "S", "I", "J", "F", "D"}
\* classes of the VM: with and without a default constructor
Built == {"java/lang/Object", "java/lang/String", "java/lang/Class", "java/lang/Throwable", "java/lang/reflect/Method", "java/lang/reflect/Field"}
NotBuilt == {"java/nio/ByteBuffer"}
\* classes of the application: native types exist for the first groups and may be registered or not
WithCtor == {"a/D", "a/Sub", "a/Fake"}
NoCtor == {"a/N"}
\* placeholders, also with the simple names of classes that have native types
Plain == {"a/U", "a/U$I", "U", "my/String", "b/N", "N", "a/N$N", "java/lang/ByteBuffer"}
\* the type of an element: dims brackets, then the element
RECURSIVE Br(_)
Br(n) == IF n = 0 THEN "" ELSE "[" \o Br(n - 1)
Name(e) == IF e \in Prims \cup {"V"} THEN e ELSE "L" \o e \o ";"
Type(e, n) == Br(n) \o Name(e)
Classes == Built \cup NotBuilt \cup WithCtor \cup NoCtor \cup Plain
\* types of fabricated members
Types == ({"V"} \X {0}) \cup (Prims \X (0..3)) \cup (Classes \X (0..2)) \cup ({"a/D", "a/U"} \X {3})
\* types of members whose implementation throws: there is a native type for them
Thrown == ({"V"} \X {0}) \cup (Prims \X (0..2)) \cup (({"java/lang/Object", "java/lang/String", "java/lang/Class", "java/nio/ByteBuffer", "java/lang/Throwable"} \cup WithCtor \cup NoCtor \cup {"a/U"}) \X {0}) \cup ({"java/lang/String", "a/D", "a/U", "a/Fake"} \X (1..2))

Constructed(e) == e \in Built \/ e \in WithCtor \cap reg
Unbuildable(e) == e \in NotBuilt \/ e \in NoCtor \cap reg
Value(e, n) == IF n = 0 /\ e \in Prims THEN "0" ELSE IF e = "V" THEN "void"
               ELSE IF ~NonZero THEN "null"
               ELSE IF n > 0 THEN Type(e, n) \o " empty"
               ELSE IF Unbuildable(e) THEN "null"
               ELSE e
Do(op, args, r, o) == reg' = r /\ last' = [op |-> op, args |-> args, obs |-> o]
Calls == {"virtual", "nonvirtual", "static"} \X {"var", "va", "arr"}
Fabricated(q, f) == Lenient /\ Do("fab", <<Type(q[1], q[2]), f[1], f[2]>>, reg, Value(q[1], q[2]))
\* with a null receiver, or (static) class; nonvirtual: null class
OnNull(q, f) == Lenient /\ Do("onnull", <<Type(q[1], q[2]), f[1], f[2]>>, reg, Value(q[1], q[2]))
FailedCall(q, f) == Do("thrown", <<Type(q[1], q[2]), f[1], f[2]>>, reg, Value(q[1], q[2]))
\* a constructor that nobody implemented makes an object of the class, in this sense
Ctor(e, f) == Lenient /\ Do("ctor", <<e, f>>, reg, Value(e, 0))
FailedCtor(e, f) == Do("thrownctor", <<e, f>>, reg, Value(e, 0))
\* how: unbound, with only a setter; both with a write before the read
Read(q, st, how) == q[1] # "V" /\ (how = "unbound" => Lenient) /\ (how = "setter" => q[2] = 0 /\ q[1] \in Prims \cup {"java/lang/String", "a/D", "a/U"}) /\ Do("read", <<Type(q[1], q[2]), st, how>>, reg, Value(q[1], q[2]))
NullId(t, f) == Do("nullid", <<t, f[1], f[2]>>, reg, IF t = "V" THEN "void" ELSE IF t = "L" THEN "null" ELSE "0")
NullField(t, st) == Do("nullfield", <<t, st>>, reg, IF t = "L" THEN "null" ELSE "0")
Register(e) == (e = "a/Sub" => "a/D" \in reg) /\ Do("register", <<e>>, reg \cup {e}, "ok")
Init == reg = {} /\ last = [op |-> "init", args |-> <<>>, obs |-> 0]
Next == \/ \E q \in Types, f \in Calls : Fabricated(q, f)
        \/ \E q \in {<<"V", 0>>, <<"Z", 0>>, <<"J", 0>>, <<"D", 0>>, <<"a/U", 0>>, <<"I", 1>>, <<"a/D", 1>>}, f \in Calls : OnNull(q, f)
        \/ \E q \in Thrown, f \in Calls : FailedCall(q, f)
        \/ \E e \in WithCtor \cup NoCtor \cup {"a/U"}, f \in {"var", "va", "arr"} : Ctor(e, f)
        \/ \E e \in WithCtor \cup NoCtor, f \in {"var", "va", "arr"} : FailedCtor(e, f)
        \/ \E q \in Types, st \in BOOLEAN, how \in {"unbound", "setter"} : Read(q, st, how)
        \/ \E t \in Prims \cup {"V", "L"}, f \in Calls : NullId(t, f)
        \/ \E t \in Prims \cup {"L"}, st \in BOOLEAN : NullField(t, st)
        \/ \E e \in WithCtor \cup NoCtor : Register(e)
Spec == Init /\ [][Next]_vars
TypeOK == reg \subseteq WithCtor \cup NoCtor
\* nothing but registering changes what a type yields; registering only replaces placeholders
Stable == [][\A q \in Types : Value(q[1], q[2])' # Value(q[1], q[2]) => (last'.op = "register" /\ q[2] = 0 /\ q[1] \in NoCtor)]_vars
Plainly == ~NonZero => \A q \in Types : Value(q[1], q[2]) \in {"0", "void", "null"}
Edge == PrintT("E " \o ToJson([s |-> View, l |-> last', t |-> View']))
=============================================================================
