------------------------------- MODULE MCBasis -------------------------------
(***************************************************************************)
(* Named states and basis labels: the conventions by which bit strings,    *)
(* integers and amplitudes refer to each other, for every register up to   *)
(* MaxN qubits; and the programs that prepare the named states.            *)
(***************************************************************************)
EXTENDS Circuit, Json
CONSTANT MaxN
VARIABLES n, k, out
\* labels as bit sequences, qubit 0 first
Bits(m, j) == [q \in 1..m |-> Bit(m, j, q-1)]
RECURSIVE Val(_)
Val(b) == IF b = <<>> THEN 0 ELSE 2 * Val(SubSeq(b,1,Len(b)-1)) + b[Len(b)]
Flipped(b) == [i \in 1..Len(b) |-> b[Len(b)+1-i]]
Ones(m) == Pow2(m)-1
Ghz(m) == VAdd([k |-> 1, a |-> VBasis(m,0).a], [k |-> 1, a |-> VBasis(m,Ones(m)).a])
Uniform(m) == VNorm([k |-> m, a |-> [i \in 0..Ones(m) |-> ROne]])
\* programs
AllOf(g, m) == [q \in 1..m |-> Fixed(g, <<>>, <<q-1>>)]
GhzProg(m) == <<Fixed("H", <<>>, <<0>>)>> \o [q \in 1..(m-1) |-> Fixed("CNOT", <<q-1>>, <<q>>)]
ProdProg(b) == [q \in 1..Len(b) |-> Fixed(IF b[q] = 1 THEN "X" ELSE "I", <<>>, <<q-1>>)]
V0 == [x |-> 0, y |-> 0, a |-> 0, b |-> 0, z |-> 0, w |-> 0]
RECURSIVE RunAll(_,_,_)
RunAll(m, gs, v) == IF gs = <<>> THEN v ELSE RunAll(m, Tail(gs), ApplyMat(m, GateMat(gs[1],<<>>), gs[1].c, gs[1].q, v))
Prep(m, gs) == RunAll(m, gs, VBasis(m,0))
Init == n \in 1..MaxN /\ k \in 0..Ones(n) /\ out = FALSE
Emit == ~out /\ out' = TRUE /\ UNCHANGED <<n, k>>
        /\ PrintT("@@" \o ToJson([n |-> n, k |-> k, bits |-> Bits(n,k), little |-> Val(Flipped(Bits(n,k))),
              ghz |-> VOut(Ghz(n)), uniform |-> VOut(Uniform(n)), zero |-> VOut(VBasis(n,0)), one |-> VOut(VBasis(n,Ones(n))),
              prod |-> VOut(VBasis(n, Val(Bits(n,k))))]))
Next == Emit
Spec == Init /\ [][Next]_<<n,k,out>>
LabelInv == Val(Bits(n,k)) = k /\ Flipped(Flipped(Bits(n,k))) = Bits(n,k)
PrepInv == Prep(n, GhzProg(n)) = Ghz(n) /\ Prep(n, AllOf("H",n)) = Uniform(n) /\ Prep(n, AllOf("X",n)) = VBasis(n,Ones(n))
           /\ Prep(n, ProdProg(Bits(n,k))) = VBasis(n,k)
=============================================================================
