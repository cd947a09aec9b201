--------------------------- MODULE ConcurrentTrace ---------------------------
(* Histories recorded from the real code: calls and returns in the order they happened.  A history is accepted
   if every call can be given a moment (or one for each of its steps) between its call and its return at which it happens according to
   ConcurrentState, with the result it returned.  A history that ends with all remaining threads waiting is
   accepted if they also wait there.                                                                        *)
EXTENDS ConcurrentState, Json
CONSTANTS File
VARIABLES h, pos, s, pend
vars == <<h, pos, s, pend>>
Hist == JsonDeserialize(File)
Ev(i) == Hist[h].ev[i]
\* JSON false and true arrive as BOOLEAN
Done(i) == i > Len(Hist[h].ev)
Range(q) == {q[i] : i \in DOMAIN q}
Init == /\ h \in DOMAIN Hist /\ pos = 1 /\ pend = [t \in Threads |-> <<"idle">>]
        /\ s = [Empty EXCEPT !.att = {0} \cup Range(Hist[h].att)]
Call == ~Done(pos) /\ Ev(pos).k = "i" /\ pend' = [pend EXCEPT ![Ev(pos).t] = <<"called", Ev(pos).q>>] /\ pos' = pos + 1 /\ UNCHANGED <<h, s>>
Happen(t) == /\ ~Done(pos) /\ pend[t][1] = "called"
             /\ \E r \in Act(s, t, pend[t][2]) : s' = r.s /\ pend' = [pend EXCEPT ![t] = IF r.more = <<>> THEN <<"happened", r.o>> ELSE <<"called", r.more>>]
             /\ UNCHANGED <<h, pos>>
Return == /\ ~Done(pos) /\ Ev(pos).k = "r" /\ pend[Ev(pos).t] = <<"happened", Ev(pos).o>>
          /\ pend' = [pend EXCEPT ![Ev(pos).t] = <<"idle">>] /\ pos' = pos + 1 /\ UNCHANGED <<h, s>>
\* all wait
Stuck == /\ ~Done(pos) /\ Ev(pos).k = "d"
         /\ \A t \in Threads : pend[t][1] # "happened" /\ (pend[t][1] = "called" => Act(s, t, pend[t][2]) = {})
         /\ pos' = pos + 1 /\ UNCHANGED <<h, s, pend>>
Next == Call \/ Return \/ Stuck \/ \E t \in Threads : Happen(t)
Spec == Init /\ [][Next]_vars
Accepted == Done(pos) => PrintT("A " \o ToString(h))
=============================================================================
