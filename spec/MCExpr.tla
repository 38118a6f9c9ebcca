------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* Stored expressions: trees of expression classes over literals and       *)
(* parameters have a value; anything else (calls of other functions,        *)
(* operators, attributes, statements, wrong literals) is to be rejected     *)
(* without being executed.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Fuel, Hostile, Sim
VARIABLES stack, fuel, phase
vars == <<stack, fuel, phase>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Node(h, v, a) == [h |-> h, v |-> v, a |-> a]
Vals == <<[x |-> 3, y |-> -2, a |-> 5], [x |-> -4, y |-> 0, a |-> 2], [x |-> 1, y |-> 5, a |-> -3]>>

Ints == {Node("Integer", k, <<>>) : k \in {-2,0,1,3}}
Floats == {Node("Float", k, <<>>) : k \in {-1,2,40}} \union {Node("FloatE", k, <<>>) : k \in {10, -20}}
Params == {Node("Parameter", 0, <<p>>) : p \in {"x","y","a"}}
\* literals and calls that must never be executed
BadLeaves == {Node(b, 0, <<>>) : b \in {"bad:open","bad:setattr","bad:mkdir","bad:print","bad:exit","bad:exec","bad:import","bad:vars","bad:name"}}
BadWraps == {"bad:list","bad:eval","bad:str","bad:float","bad:id","bad:tuple","bad:RX","bad:deserialize"}
BadForms == {"bad:plus","bad:attr","bad:lambda","bad:listlit","bad:semi","bad:cond","bad:walrus","bad:star","bad:index","bad:neg","bad:open2"}

\* magnitudes saturate, so that values stay in TLC's integers
RECURSIVE Mag(_), MagFold(_,_)
Cap(k) == IF k > 30000 THEN 30000 ELSE k
Abs(k) == IF k < 0 THEN -k ELSE k
Mag(n) == CASE n.h \in {"Integer","Float","FloatE"} -> Abs(n.v)
            [] n.h = "Parameter" -> 5
            [] n.h \in {"Add","Mul"} -> MagFold(n.h, n.a)
            [] n.h = "Pow" -> Cap(Mag(n.a[1]) * Mag(n.a[1]))
            [] OTHER -> 1
MagFold(o, s) == IF s = <<>> THEN 1 ELSE IF o = "Add" THEN Cap(Mag(s[1]) + MagFold(o, Tail(s))) ELSE Cap(Mag(s[1]) * MagFold(o, Tail(s)))
Small(n) == Mag(n) < 30000

Push(n) == stack' = Append(stack, n) /\ fuel' = fuel - 1 /\ UNCHANGED phase
Leaf == phase = "build" /\ fuel > 0 /\ Len(stack) < 3 /\ \E n \in Pick(Ints \union Floats \union Params) : Push(n)
BadLeaf == Hostile /\ phase = "build" /\ fuel > 0 /\ Len(stack) < 3 /\ \E n \in BadLeaves : Push(n)
Top(m) == SubSeq(stack, Len(stack)-m+1, Len(stack))
Replace(m, n) == stack' = Append(SubSeq(stack, 1, Len(stack)-m), n) /\ fuel' = fuel - 1 /\ UNCHANGED phase
Apply == phase = "build" /\ fuel > 0 /\ \E h \in {"Add","Mul"}, m \in 2..3 : m <= Len(stack) /\ Small(Node(h, 0, Top(m))) /\ Replace(m, Node(h, 0, Top(m)))
Square == phase = "build" /\ fuel > 0 /\ Len(stack) > 0 /\ Small(Node("Pow", 2, Top(1))) /\ Replace(1, Node("Pow", 2, Top(1)))
Wrap == Hostile /\ phase = "build" /\ fuel > 0 /\ Len(stack) > 0 /\ \E h \in Pick(BadWraps \union BadForms) : Replace(1, Node(h, 0, Top(1)))
Finish == phase = "build" /\ Len(stack) = 1 /\ phase' = "done" /\ UNCHANGED <<stack, fuel>>

RECURSIVE Bad(_), Value(_,_), Names(_)
IsBad(h) == h \in {n.h : n \in BadLeaves} \union BadWraps \union BadForms
Kids(n) == IF n.h = "Parameter" THEN <<>> ELSE n.a
Bad(n) == IsBad(n.h) \/ \E i \in 1..Len(Kids(n)) : Bad(Kids(n)[i])
RECURSIVE Fold(_,_,_)
Value(n, w) == CASE n.h \in {"Integer","Float","FloatE"} -> n.v
              [] n.h = "Parameter" -> w[n.a[1]]
              [] n.h \in {"Add","Mul"} -> Fold(n.h, n.a, w)
              [] n.h = "Pow" -> Value(n.a[1], w) * Value(n.a[1], w)
Fold(o, s, w) == IF s = <<>> THEN (IF o = "Add" THEN 0 ELSE 1)
                 ELSE IF o = "Add" THEN Value(s[1], w) + Fold(o, Tail(s), w) ELSE Value(s[1], w) * Fold(o, Tail(s), w)
Names(n) == IF n.h = "Parameter" THEN {n.a[1]} ELSE UNION {Names(Kids(n)[i]) : i \in 1..Len(Kids(n))}
Emit == phase = "done" /\ phase' = "out" /\ UNCHANGED <<stack, fuel>>
        /\ PrintT("@@" \o ToJson([tree |-> stack[1], bad |-> Bad(stack[1]), values |-> IF Bad(stack[1]) THEN <<>> ELSE [i \in 1..Len(Vals) |-> Value(stack[1], Vals[i])], vals |-> Vals]))
Init == stack = <<>> /\ fuel = Fuel /\ phase = "build"
Next == Leaf \/ BadLeaf \/ Apply \/ Square \/ Wrap \/ Finish \/ Emit
Spec == Init /\ [][Next]_vars
\* hostile parts cannot be hidden by what surrounds them
TaintInv == \A i \in 1..Len(stack) : LET n == stack[i] IN (\E j \in 1..Len(Kids(n)) : Bad(Kids(n)[j])) => Bad(n)
\* values are within the magnitudes that were admitted, whatever the parameters
SizeInv == \A i \in 1..Len(stack) : ~Bad(stack[i]) => \A j \in 1..Len(Vals) : Abs(Value(stack[i], Vals[j])) <= Mag(stack[i])
CleanInv == ~Hostile => \A i \in 1..Len(stack) : ~Bad(stack[i])
=============================================================================
