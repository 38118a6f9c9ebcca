------------------------------ MODULE MCDagger ------------------------------
(* Adjoints: a session builds a program (taking adjoints on the way) and     *)
(* finally takes its adjoint.                                                *)
EXTENDS Menu
Emit == Done /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch>>
        /\ PrintT("@@" \o ToJson([n |-> NQ, block |-> Block, batch |-> batch, cols |-> Cols(Block,batch), adj |-> Cols(Dagger(Block),batch)]))
Next == BuildNext \/ Emit
Spec == Init /\ [][Next]_vars
(*---- meta-properties ----*)
\* the syntactic adjoint denotes the conjugate transpose
DaggerInv == Done => \A i \in 1..Len(batch) : IsAdjoint(NQ, Block, Dagger(Block), batch[i])
\* it is an involution
InvolutionInv == Done => SameOp(NQ, Block, Dagger(Dagger(Block)), batch[1])
\* it reverses products
ProductInv == Done /\ Block.t = "chain" => SameOp(NQ, Dagger(Block), Chain(Reverse([i \in 1..Len(Block.b) |-> Dagger(Block.b[i])])), batch[1])
=============================================================================
