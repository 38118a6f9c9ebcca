------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* The block-building machine: a user session that pushes gates on a       *)
(* stack and composes them (chain, kron, add, scale, dagger) until one     *)
(* block is left, chooses parameter values (a batch of valuations), and    *)
(* observes it.  What the session must observe is the exact denotation.    *)
(***************************************************************************)
EXTENDS Circuit, Json

CONSTANTS NQ,        \* number of qubits of the session
          Plan,      \* what to build: sequence of [g |-> gates that may be pushed, c |-> composition
                     \*   operators that may be used, f |-> number of building steps,
                     \*   w |-> number of words in a Hamiltonian (0 = no evolutions)]
          Exprs,     \* angle expressions that may be used (even units)
          Batches,   \* set of sequences of valuations
          Sim        \* TRUE when sampling behaviours: a step draws one of its big choices

VARIABLES built,     \* the finished blocks
          stack,     \* the blocks being assembled
          fuel, batch, phase
vars == <<built, stack, fuel, batch, phase>>

Stage == Len(built) + 1
Gates == Plan[Stage].g
Comps == Plan[Stage].c
Words == Plan[Stage].w
\* a sampling aid: with Sim = FALSE all choices are explored
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
\* the register may be larger than the part of it that a program uses
Low == IF batch[1].z = 3 /\ NQ > 2 THEN 1 ELSE 0
High == IF batch[1].z = 1 /\ NQ > 2 THEN NQ-2 ELSE NQ-1
Qs == Low..High
\* ordered tuples of distinct qubits
Tup1 == {<<q>> : q \in Qs}
Asc == "asc" \in Gates     \* only placements in ascending order
Tup2 == {p \in Qs \X Qs : IF Asc THEN p[1] < p[2] ELSE p[1] # p[2]}
Tup3 == {p \in Qs \X Qs \X Qs : IF Asc THEN p[1] < p[2] /\ p[2] < p[3] ELSE p[1] # p[2] /\ p[1] # p[3] /\ p[2] # p[3]}
CtlLists == Tup1 \union Tup2 \union (IF NQ > 3 THEN Tup3 ELSE {})

OneQ   == {"I","X","Y","Z","H","S","SDagger","T","N"} \cap Gates
Rot1   == {"RX","RY","RZ","PHASE"} \cap Gates
CRot   == {"CRX","CRY","CRZ","CPHASE"} \cap Gates
MCRot  == {"MCRX","MCRY","MCRZ","MCPHASE"} \cap Gates
Two    == {"CNOT","CZ"} \cap Gates

Disj(c,q) == (Asc => c[Len(c)] < q[1]) /\ \A i \in 1..Len(c), j \in 1..Len(q) : c[i] # q[j]

Push(b) == stack' = Append(stack, b) /\ fuel' = fuel - 1 /\ UNCHANGED <<built, batch, phase>>
\* how many parts are collected before they are composed: some sessions nest, others build wide blocks
Cap == IF batch[1].y = 4 THEN 3 ELSE 6
Building == phase = "build" /\ fuel > 0 /\ Len(stack) < Cap

PushOne   == Building /\ \E g \in OneQ, q \in Tup1 : Push(Fixed(g,<<>>,q))
PushRot   == Building /\ \E g \in Rot1, q \in Tup1, e \in Exprs : Push(Par(g,<<>>,q,<<e>>))
PushU     == Building /\ "U" \in Gates /\ \E q \in Tup1, e1 \in Pick(Exprs), e2 \in Pick(Exprs), e3 \in Pick(Exprs) : Push(Par("U",<<>>,q,<<e1,e2,e3>>))
PushTwo   == Building /\ \E g \in Two, p \in Tup2 : Push(Fixed(g,<<p[1]>>,<<p[2]>>))
PushSwap  == Building /\ "SWAP" \in Gates /\ \E p \in Tup2 : Push(Fixed("SWAP",<<>>,p))
PushCRot  == Building /\ \E g \in CRot, p \in Tup2, e \in Exprs : Push(Par(g,<<p[1]>>,<<p[2]>>,<<e>>))
PushMC    == Building /\ \E g \in ({"MCZ","Toffoli"} \cap Gates), c \in CtlLists, q \in Tup1 :
                Disj(c,q) /\ (g = "Toffoli" => Len(c) = 2) /\ Push(Fixed(g,c,q))
PushMCRot == Building /\ \E g \in MCRot, c \in CtlLists, q \in Tup1, e \in Pick(Exprs) :
                Disj(c,q) /\ Push(Par(g,c,q,<<e>>))
PushCSwap == Building /\ "CSWAP" \in Gates /\ \E p \in Tup3 : Push(Fixed("CSWAP",<<p[1]>>,<<p[2],p[3]>>))
PushProj  == Building /\ "Projector" \in Gates /\
             \/ \E q \in Tup1, k, bb \in 0..1 : Push(Gate("Projector",<<>>,q,<<>>,<<k,bb>>))
             \/ \E p \in Tup2, k, bb \in 0..3 : Push(Gate("Projector",<<>>,p,<<>>,<<k,bb>>))
PushDProj == Building /\ "DProjector" \in Gates /\
             \/ \E q \in Tup1, k \in 0..1 : Push(Gate("Projector",<<>>,q,<<>>,<<k,k>>))
             \/ \E p \in Tup2, k \in 0..3 : Push(Gate("Projector",<<>>,p,<<>>,<<k,k>>))
Mats2 == { << <<0,1,0,0>>, <<0,0,0,1>>, <<1,0,0,0>>, <<0,0,-1,0>> >>,
           << <<1,0,0,2>>, <<0,1,0,0>>, <<0,3,1,0>>, <<0,0,0,-1>> >> }
Mats1 == { << <<1,2>>, <<0,-1>> >>, << <<0,-1>>, <<1,0>> >> }
PushMatrix == Building /\ "Matrix" \in Gates /\
             \/ \E q \in Tup1, m \in Mats1 : Push(Gate("Matrix",<<>>,q,<<>>,m))
             \/ \E p \in Tup2, m \in Mats2 : Push(Gate("Matrix",<<>>,p,<<>>,m))

\* Hamiltonian evolution under sums of mutually commuting words
Term(c,h,p,w) == [c |-> c, h |-> h, p |-> p, w |-> w]
CoefPars == IF "hampar" \in Comps THEN {"","z","w"} ELSE {""}
Paulis == {"X","Y","Z"}
Words1 == {<< <<P,q>> >> : P \in {"X","Y","Z","N"}, q \in Qs}
Words2 == {<< <<P[1],p[1]>>, <<P[2],p[2]>> >> : P \in (Paulis \X Paulis) \union {<<"N","N">>}, p \in Tup2}
Words3 == {<< <<P[1],p[1]>>, <<P[2],p[2]>>, <<P[3],p[3]>> >> : P \in (Paulis \X Paulis \X Paulis) \union {<<"N","N","N">>}, p \in Tup3}
PWords == {w \in Words1 \union Words2 : w[1][1] # "N"}
Terms1 == {Term(c,0,p,w) : c \in {1,-1,2}, p \in CoefPars, w \in Words1}
Terms2 == {Term(c,0,p,w) : c \in {1,-1}, p \in CoefPars, w \in Words2}
Terms3 == {Term(1,0,"",w) : w \in Words3}
AllTerms == Terms1 \union Terms2 \union Terms3
HamSupport(ts) == UNION {{ts[i].w[j][2] : j \in 1..Len(ts[i].w)} : i \in 1..Len(ts)}
SetToAsc(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE
                   LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F(T \ {m}) IN F(S)
MkHam(ts, e) == Gate("HamEvo", <<>>, SetToAsc(HamSupport(ts)), <<e>>, ts)
PushHam   == Building /\ Words > 0 /\ \E t \in Pick(AllTerms), e \in Pick(Exprs) : Push(MkHam(<<t>>, e))
\* extend the Hamiltonian on top of the stack with a commuting term
GrowHam   == Building /\ Words > 0 /\ Len(stack) > 0 /\
             LET b == stack[Len(stack)] IN
             b.t = "gate" /\ b.g = "HamEvo" /\ b.d[1].h = 0 /\ Len(b.d) < Words /\
             \E t \in Pick({tt \in AllTerms : \A i \in 1..Len(b.d) : WordsCommute(b.d[i].w, tt.w)}) :
               stack' = [stack EXCEPT ![Len(stack)] = MkHam(Append(b.d, t), b.e[1])] /\
               fuel' = fuel - 1 /\ UNCHANGED <<built, batch, phase>>

\* evolution under two anticommuting words (non-commuting terms)
PushHamA  == Building /\ Words > 1 /\ \E w1 \in Pick(PWords), c1, c2 \in {1,-1}, e \in Pick(Exprs) : \E w2 \in Pick({w \in PWords : ~WordsCommute(w1,w)}) :
               Push(MkHam(<<Term(c1,1,"",w1), Term(c2,1,"",w2)>>, e))

(*------------------------------ composition -------------------------------*)
TopN(m) == SubSeq(stack, Len(stack)-m+1, Len(stack))
Replace(m, b) == stack' = Append(SubSeq(stack, 1, Len(stack)-m), b) /\ fuel' = fuel - 1 /\ UNCHANGED <<built, batch, phase>>
Closing == phase = "build" /\ fuel > 0
MkChain == Closing /\ "chain" \in Comps /\ \E m \in 1..Cap : m <= Len(stack) /\ Replace(m, Chain(TopN(m)))
MkKron  == Closing /\ "kron" \in Comps /\ \E m \in 2..Cap : m <= Len(stack) /\
             (\A i, j \in 1..m : i < j => Support(TopN(m)[i]) \cap Support(TopN(m)[j]) = {}) /\
             Replace(m, Kron(TopN(m)))
MkAdd   == Closing /\ "add" \in Comps /\ \E m \in 2..Cap : m <= Len(stack) /\ Replace(m, Add(TopN(m)))
Scalars == { [t |-> "num", k |-> 0, r |-> <<2,0,0,0>>], [t |-> "num", k |-> 0, r |-> <<-1,0,0,0>>],
             [t |-> "num", k |-> 0, r |-> <<0,0,1,0>>], [t |-> "num", k |-> 2, r |-> <<1,0,0,0>>],
             [t |-> "par", c |-> <<0,1,0>>], [t |-> "par", c |-> <<0,0,1>>], [t |-> "par", c |-> <<1,0,2>>],
             [t |-> "cos", e |-> <<0,2,0,0,0>>], [t |-> "cos", e |-> <<4,0,0,2,2>>] }
\* real scalars only: keeps Hermitian observables Hermitian
RealScalars == Scalars \ {[t |-> "num", k |-> 0, r |-> <<0,0,1,0>>]}
ScalarsNow == IF "scale" \in Comps THEN Scalars ELSE IF "rscale" \in Comps THEN RealScalars
              ELSE IF "pscale" \in Comps THEN {s \in RealScalars : s.t # "cos"}
              ELSE IF "nscale" \in Comps THEN {s \in RealScalars : s.t = "num"} ELSE {}
MkScale == Closing /\ Len(stack) > 0 /\ \E s \in ScalarsNow : Replace(1, Scale(s, stack[Len(stack)]))
MkDag   == Closing /\ "dagger" \in Comps /\ Len(stack) > 0 /\ Replace(1, Dag(stack[Len(stack)]))

\* finish a block: whatever is left is chained in order (or summed, for observables); go on with the next one of the plan
Finish == phase = "build" /\ Len(stack) > 0 /\ (fuel = 0 \/ Len(stack) = 1)
          /\ built' = Append(built, IF Len(stack) = 1 THEN stack[1]
                                   ELSE IF "chain" \in Comps THEN Chain(stack) ELSE Add(stack))
          /\ stack' = <<>>
          /\ phase' = (IF Stage = Len(Plan) THEN "done" ELSE "build")
          /\ fuel' = (IF Stage = Len(Plan) THEN 0 ELSE Plan[Stage+1].f)
          /\ UNCHANGED batch

Init == built = <<>> /\ stack = <<>> /\ fuel = Plan[1].f /\ phase = "build" /\ batch \in Batches
BuildNext == PushOne \/ PushRot \/ PushU \/ PushTwo \/ PushSwap \/ PushCRot \/ PushMC \/ PushMCRot
        \/ PushCSwap \/ PushProj \/ PushDProj \/ PushMatrix \/ PushHam \/ PushHamA \/ GrowHam
        \/ MkChain \/ MkKron \/ MkAdd \/ MkScale \/ MkDag \/ Finish

Done == phase = "done"
Block == built[1]
=============================================================================
