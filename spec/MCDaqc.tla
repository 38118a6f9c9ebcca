------------------------------- MODULE MCDaqc -------------------------------
(* Digital-analog computing: the evolution exp(-i t H) under a target         *)
(* Hamiltonian of ZZ (or NN) couplings is obtained from evolutions under a    *)
(* given device Hamiltonian of ZZ (or NN) couplings between layers of X       *)
(* gates.  Both are diagonal, so the required operator is a list of phases    *)
(* (in units of Pi/4).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Sizes, Couplings, Times, Sim
VARIABLES n, target, device, tt, dt, t, step
mvars == <<n, target, device, tt, dt, t, step>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k-1)
Pairs(k) == {p \in (0..(k-1)) \X (0..(k-1)) : p[1] < p[2]}
BitOf(i, q) == (i \div P2(n-1-q)) % 2
Val(ty, i, q) == IF ty = "NN" THEN BitOf(i, q) ELSE 1 - 2 * BitOf(i, q)
RECURSIVE SumOver(_,_)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
\* energy of basis state i
Energy(ty, g, i) == SumOver([p \in Pairs(n) |-> g[p] * Val(ty, i, p[1]) * Val(ty, i, p[2])], Pairs(n))
Phases == [i \in 1..P2(n) |-> -t * Energy(tt, target, i-1)]
\* the target can be reached when the device couples every pair that the target couples
Reachable == \A p \in Pairs(n) : target[p] # 0 => device[p] # 0
Rows(g) == LET S == Pairs(n) IN [i \in 1..n |-> [j \in 1..n |-> IF i < j THEN g[<<i-1,j-1>>] ELSE 0]]

Init == n \in Sizes /\ target = <<>> /\ device = <<>> /\ tt = "" /\ dt = "" /\ t \in Times /\ step = 0
\* a coupling for every pair, drawn one by one
RECURSIVE Draw(_)
Draw(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN (x :> RandomElement(Couplings)) @@ Draw(S \ {x})
Choice == IF Sim THEN {Draw(Pairs(n))} ELSE [Pairs(n) -> Couplings]
Some(g) == \E p \in Pairs(n) : g[p] # 0
Target == step = 0 /\ \E g \in Choice, ty \in {"ZZ","NN"} : Some(g) /\ target' = g /\ tt' = ty /\ step' = 1 /\ UNCHANGED <<n, device, dt, t>>
Device == step = 1 /\ (\/ \E g \in Choice, ty \in {"ZZ","NN"} : Some(g) /\ device' = g /\ dt' = ty
                       \/ device' = [p \in Pairs(n) |-> 1] /\ dt' = "default")
          /\ step' = 2 /\ UNCHANGED <<n, target, tt, t>>
\* shorten the target to what the device reaches, so that most sessions succeed
Restrict == step = 2 /\ ~Reachable /\ LET g == [p \in Pairs(n) |-> IF device[p] = 0 THEN 0 ELSE target[p]] IN
            Some(g) /\ target' = g /\ UNCHANGED <<n, device, tt, dt, t, step>>
Emit == step = 2 /\ step' = 3 /\ UNCHANGED <<n, target, device, tt, dt, t>>
        /\ PrintT("@@" \o ToJson([kind |-> "daqc", n |-> n, target |-> Rows(target), device |-> Rows(device), tt |-> tt, dt |-> dt, t |-> t,
                                   reachable |-> Reachable, phases |-> Phases]))
Next == Target \/ Device \/ Restrict \/ Emit
Spec == Init /\ [][Next]_mvars

(*----------------------------- meta-properties -----------------------------*)
\* the construction: flipping two qubits around an evolution under ZZ couplings flips the signs of the couplings with
\* exactly one of the two, and these sign patterns span all couplings unless n = 4
Flip(p, g) == [q \in Pairs(n) |-> IF Cardinality({q[1],q[2]} \cap {p[1],p[2]}) = 1 THEN -g[q] ELSE g[q]]
FlipInv == step >= 1 => \A p \in Pairs(n), i \in 0..(P2(n)-1) :
   LET j == i + (1 - 2*BitOf(i,p[1])) * P2(n-1-p[1]) + (1 - 2*BitOf(i,p[2])) * P2(n-1-p[2])
   IN Energy("ZZ", target, j) = Energy("ZZ", Flip(p, target), i)
\* every row of signs has the same sum 
\* (n = 4: complementary pairs flip the same couplings, so the patterns are dependent)
One == [q \in Pairs(n) |-> 1]
SpanInv == \A p, q \in Pairs(n) : p # q => ((Flip(p, One) = Flip(q, One)) <=> (n = 4 /\ {p[1],p[2]} \cap {q[1],q[2]} = {}) \/ (n = 2))
\* an NN coupling is a quarter of a ZZ coupling up to single-qubit terms and a constant
MapInv == step >= 1 => \A i \in 0..(P2(n)-1) :
   4 * Energy("NN", target, i) = Energy("ZZ", target, i) + SumOver([p \in Pairs(n) |-> target[p] * (1 - Val("ZZ",i,p[1]) - Val("ZZ",i,p[2]))], Pairs(n))
=============================================================================
