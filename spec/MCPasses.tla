------------------------------ MODULE MCPasses ------------------------------
(* A session builds a block and sends it through a sequence of program       *)
(* transformations.  Structure-rewriting passes must not change what the     *)
(* program denotes; relabelling passes move every operation to the image of  *)
(* its qubits, nothing else.                                                 *)
EXTENDS Menu
CONSTANTS MaxPasses, Passes
VARIABLE log        \* the passes applied so far, as records [p, d]
pvars == <<built, stack, fuel, batch, phase, log>>

(*------------------------------ relabelling -------------------------------*)
MapTerm(tm, f) == [tm EXCEPT !.w = [i \in 1..Len(tm.w) |-> <<tm.w[i][1], f[tm.w[i][2]]>>]]
RECURSIVE Relabel(_,_)
Relabel(b, f) ==
  IF b.t = "gate" THEN
    IF b.g = "HamEvo"
    THEN LET ts == [i \in 1..Len(b.d) |-> MapTerm(b.d[i], f)] IN [b EXCEPT !.d = ts, !.q = SetToAsc(HamSupport(ts))]
    ELSE [b EXCEPT !.c = [i \in 1..Len(b.c) |-> f[b.c[i]]], !.q = [i \in 1..Len(b.q) |-> f[b.q[i]]]]
  ELSE [b EXCEPT !.b = [i \in 1..Len(b.b) |-> Relabel(b.b[i], f)]]
AllQs == 0..(NQ-1)
Perms == {f \in [AllQs -> AllQs] : \A i, j \in AllQs : i # j => f[i] # f[j]}
Reversal == [q \in AllQs |-> NQ - 1 - q]

(*--------------------- structure of blocks after a pass -------------------*)
\* reference flattening: no block of a type in T directly inside one of the same type
RECURSIVE Flat(_,_), FlatKids(_,_,_)
Flat(b, T) == IF b.t = "gate" THEN b
              ELSE IF b.t \in T THEN [b EXCEPT !.b = FlatKids(b.t, b.b, T)]
              ELSE [b EXCEPT !.b = [i \in 1..Len(b.b) |-> Flat(b.b[i], T)]]
FlatKids(t, bs, T) == IF bs = <<>> THEN <<>>
              ELSE (IF bs[1].t = t THEN FlatKids(t, bs[1].b, T) ELSE <<Flat(bs[1], T)>>) \o FlatKids(t, Tail(bs), T)

FlatTypes == SUBSET {"chain","kron","add"}
Apply1(p, d) == CASE p = "flatten" -> Flat(Block, d)
                  [] p \in {"reassign"} -> Relabel(Block, d)
                  [] p \in {"invert","circinvert"} -> Relabel(Block, Reversal)
                  [] OTHER -> Block
DataOut(p, d) == CASE p = "reassign" -> [i \in 1..NQ |-> d[i-1]]
                   [] p = "flatten" -> [chain |-> "chain" \in d, kron |-> "kron" \in d, add |-> "add" \in d]
                   [] OTHER -> 0
Pass(p, d) == /\ phase = "done" /\ Len(log) < MaxPasses /\ p \in Passes
              /\ built' = <<Apply1(p, d)>> \o Tail(built)
              /\ log' = Append(log, [p |-> p, d |-> DataOut(p, d)])
              /\ UNCHANGED <<stack, fuel, batch, phase>>
DoPass == \/ \E T \in Pick(FlatTypes) : Pass("flatten", T)
          \/ \E f \in Pick(Perms) : Pass("reassign", f)
          \/ \E p \in Passes \ {"flatten","reassign"} : Pass(p, 0)
\* the session's own structure before any pass is kept as the second block
StartPasses == phase = "done" /\ Len(built) = 1 /\ log = <<>> /\ built' = <<Block, Block>> /\ UNCHANGED <<stack, fuel, batch, phase, log>>
Emit == phase = "done" /\ Len(built) = 2 /\ Len(log) = MaxPasses /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch, log>>
        /\ PrintT("@@" \o ToJson([n |-> NQ, block |-> built[2], after |-> Block, log |-> log, batch |-> batch,
                                   cols |-> Cols(Block,batch), cols0 |-> Cols(built[2],batch)]))
PInit == Init /\ log = <<>>
Next == (BuildNext /\ UNCHANGED log) \/ StartPasses \/ (Len(built) = 2 /\ DoPass) \/ Emit
Spec == PInit /\ [][Next]_pvars

(*---- meta-properties ----*)
\* flattening does not change the denotation and leaves nothing of its types nested
RECURSIVE IsFlat(_,_)
IsFlat(b, T) == b.t = "gate" \/ \A i \in 1..Len(b.b) : IsFlat(b.b[i], T) /\ ~(b.t \in T /\ b.b[i].t = b.t)
FlatInv == phase = "done" /\ Len(built) = 2 /\ log = <<>> =>
             \A T \in FlatTypes : SameOp(NQ, Block, Flat(Block, T), batch[1]) /\ IsFlat(Flat(Block, T), T)
\* relabelling conjugates the operator with the permutation of the qubits
PermIx(f, i) == LET RECURSIVE S(_) S(q) == IF q < 0 THEN 0 ELSE Bit(NQ,i,q) * Pow2(NQ-1-f[q]) + S(q-1) IN S(NQ-1)
RelabelInv == phase = "done" /\ Len(built) = 2 /\ log = <<>> =>
             \A f \in Perms : LET c0 == Columns(NQ,Block,batch[1])  c1 == Columns(NQ,Relabel(Block,f),batch[1])
                              IN \A i, j \in 0..(Pow2(NQ)-1) : Entry(c0,i,j) = Entry(c1,PermIx(f,i),PermIx(f,j))
=============================================================================
