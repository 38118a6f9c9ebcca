------------------------------ MODULE MCSample ------------------------------
(***************************************************************************)
(* Sampling: a session builds a unitary program and asks for shots.  Every *)
(* shot of every element of the batch is a basis state of positive         *)
(* probability; the distribution is the exact one.                         *)
(***************************************************************************)
EXTENDS Menu
State(val) == Apply(NQ, Block, val, VBasis(NQ,0))
Probs == [i \in 1..Len(batch) |-> LET v == State(batch[i]) IN [j \in 1..Pow2(NQ) |-> VProb(v,j-1)]]
\* the index read with the bits in the opposite order
RECURSIVE RevIx(_,_)
RevIx(i, q) == IF q = NQ THEN 0 ELSE Bit(NQ,i,q) * Pow2(q) + RevIx(i, q+1)
Emit == Done /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch>>
        /\ PrintT("@@" \o ToJson([n |-> NQ, block |-> Block, batch |-> batch, probs |-> Probs, cols |-> Cols(Block,batch),
                                   states |-> [i \in 1..Len(batch) |-> VOut(State(batch[i]))],
                                   rev |-> [j \in 1..Pow2(NQ) |-> RevIx(j-1,0)]]))
Next == BuildNext \/ Emit
Spec == Init /\ [][Next]_vars
(*---- meta-properties ----*)
RECURSIVE SSum(_,_)
SSum(f, k) == IF k = 0 THEN SZero ELSE SAdd(f[k], SSum(f, k-1))
NormInv == Done => \A i \in 1..Len(batch) : SSum(Probs[i], Pow2(NQ)) = SOne /\ \A j \in 1..Pow2(NQ) : SIsReal(Probs[i][j])
\* reversing the bits twice is the identity, and it is reading the mirrored program
RevInv == Done => \A j \in 0..(Pow2(NQ)-1) : RevIx(RevIx(j,0),0) = j
=============================================================================
