----------------------------- MODULE MCCompose -----------------------------
(* Composition semantics: every finished session denotes exactly one linear *)
(* operator; sessions are emitted with their exact matrix columns.          *)
EXTENDS Menu
Emit == Done /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch>>
        /\ PrintT("@@" \o ToJson([n |-> NQ, block |-> Block, batch |-> batch, cols |-> Cols(Block,batch)]))
Next == BuildNext \/ Emit
Spec == Init /\ [][Next]_vars

(*---- meta-properties of the specification, checked exhaustively by TLC ----*)
RECURSIVE OnlyUnitary(_)
OnlyUnitary(b) == IF b.t = "gate" THEN b.g \notin {"N","Matrix","Projector"}
                  ELSE b.t \in {"chain","kron","dagger"} /\ \A i \in 1..Len(b.b) : OnlyUnitary(b.b[i])
\* programs made of gates are unitary
UnitaryInv == Done /\ OnlyUnitary(Block) => \A i \in 1..Len(batch) : IsUnitary(NQ, Block, batch[i])
\* tensor products and sums do not depend on the order of their factors / terms
OrderInv == Done /\ Block.t \in {"kron","add"} =>
              SameOp(NQ, Block, [Block EXCEPT !.b = Reverse(Block.b)], batch[1])
\* a block acts as the identity outside its support: it commutes with X elsewhere
SupportInv == Done => \A q \in (0..(NQ-1)) \ Support(Block) : \A p \in {"X","Z"} :
              SameOp(NQ, Chain(<<Block, Fixed(p,<<>>,<<q>>)>>), Chain(<<Fixed(p,<<>>,<<q>>), Block>>), batch[1])
=============================================================================
