------------------------------ MODULE MCMeasure ------------------------------
(***************************************************************************)
(* Estimating observables by measuring Pauli words.  A session builds a    *)
(* circuit and Hermitian observables, writes each observable as a sum of   *)
(* Pauli words, measures the words in the prepared state (every word is    *)
(* +1 or -1 in each shot, with mean <W>) and combines them.                *)
(* It may also ask for an observable made of words that the state          *)
(* stabilises (|<W>| = 1): its estimate does not fluctuate at all.         *)
(***************************************************************************)
EXTENDS Menu
CONSTANTS MaxDet      \* how many stabilised words are combined at most
VARIABLE det          \* sequence of [w |-> word, s |-> scalar]
mvars == <<built, stack, fuel, batch, phase, det>>
Obs == SubSeq(built, 2, Len(built))
State(val) == Apply(NQ, Block, val, VBasis(NQ,0))
Letters == {"I","X","Y","Z"}
\* words in the order of their index in base four, letter of qubit 0 first
LetterOf == <<"I","X","Y","Z">>
RECURSIVE Pow4(_)
Pow4(m) == IF m = 0 THEN 1 ELSE 4 * Pow4(m-1)
WordIx == 0..(Pow4(NQ)-1)
WordAt(ix) == [q \in 1..NQ |-> LetterOf[((ix \div Pow4(NQ-q)) % 4) + 1]]
RECURSIVE SeqFrom(_,_)
SeqFrom(w, q) == IF q > NQ THEN <<>> ELSE (IF w[q] = "I" THEN <<>> ELSE << <<w[q], q-1>> >>) \o SeqFrom(w, q+1)
Letts(ix) == SeqFrom(WordAt(ix), 1)
WApply(ix, v) == ApplyWord(NQ, Letts(ix), v)
\* W |j> = w^Ph(j) |Flip(j)>
Flip(wd, j) == LET RECURSIVE F(_,_) F(q, i) == IF q > NQ THEN i ELSE F(q+1, IF wd[q] \in {"X","Y"} THEN SetBit(NQ,i,q-1,1-Bit(NQ,i,q-1)) ELSE i) IN F(1, j)
Ph(wd, j) == LET RECURSIVE F(_) F(q) == IF q > NQ THEN 0 ELSE F(q+1) +
                   (LET b == Bit(NQ,j,q-1) IN IF wd[q] = "Y" THEN 2 + 4*b ELSE IF wd[q] = "Z" THEN 4*b ELSE 0) IN F(1)
WExpect(ix, psi) == LET wd == WordAt(ix) IN
   SNorm([k |-> 2*psi.k, r |-> RSum([j \in 0..(Pow2(NQ)-1) |-> IF psi.a[j] = RZero THEN RZero ELSE
        RMul(RW(Ph(wd,j)), RMul(RConj(psi.a[Flip(wd,j)]), psi.a[j]))], 0, Pow2(NQ)-1)])
RECURSIVE SumF(_,_)
SumF(f, k) == IF k = 0 THEN SZero ELSE SAdd(f[k], SumF(f, k-1))
D == Pow2(NQ)
\* trace(W O) / 2^n
CoefOf(ix, cols) == LET wd == WordAt(ix) IN
   SMul([k |-> 2*NQ, r |-> ROne], SumF([j \in 1..D |-> SNorm([k |-> cols[j].k, r |-> RMul(RW(-Ph(wd,j-1)), cols[j].a[Flip(wd,j-1)])])], D))
Decomp(o) == LET cols == TLCEval(Columns(NQ, o, batch[1]))
                 cf == TLCEval([ix \in WordIx |-> SNorm(CoefOf(ix, cols))])
                 RECURSIVE L(_) L(ix) == IF ix = Pow4(NQ) THEN <<>>
                     ELSE (IF cf[ix].r = RZero THEN <<>> ELSE << [w |-> ix, c |-> cf[ix]] >>) \o L(ix+1)
             IN L(0)
Diagonal(dc) == \A i \in 1..Len(dc) : \A q \in 1..NQ : WordAt(dc[i].w)[q] \in {"I","Z"}
Probs == [i \in 1..Len(batch) |-> LET v == State(batch[i]) IN [j \in 1..D |-> VProb(v,j-1)]]

(*----------------- observables that do not fluctuate ----------------------*)
States == [i \in 1..Len(batch) |-> State(batch[i])]
IsOne(s) == SNorm(s) \in {SInt(1), SInt(-1)}
Stabilised(ps) == {ix \in WordIx \ {0} : Cardinality({q \in 1..NQ : WordAt(ix)[q] # "I"}) <= 2 /\ \A i \in 1..Len(ps) : IsOne(WExpect(ix, ps[i]))}
DetScalars == {[k |-> 0, r |-> RInt(1)], [k |-> 0, r |-> RInt(-2)], [k |-> 2, r |-> RInt(3)]}
AddDet == Done /\ Len(det) < MaxDet /\ \E ix \in Pick(Stabilised(TLCEval(States))), s \in Pick(DetScalars) :
            (\A i \in 1..Len(det) : det[i].w # ix) /\ det' = Append(det, [w |-> ix, s |-> s]) /\ UNCHANGED vars
DetVal(psi) == SumF([i \in 1..Len(det) |-> SMul(det[i].s, WExpect(det[i].w, psi))], Len(det))

Emit == Done /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch, det>>
        /\ LET ps == TLCEval(States)
               dcs == TLCEval([o \in 1..Len(Obs) |-> Decomp(Obs[o])])
           IN PrintT("@@" \o ToJson([n |-> NQ, block |-> Block, obs |-> Obs, batch |-> batch,
                 states |-> [i \in 1..Len(ps) |-> VOut(ps[i])],
                 probs |-> Probs,
                 words |-> [ix \in 1..Pow4(NQ) |-> WordAt(ix-1)],
                 dec |-> dcs,
                 diag |-> [o \in 1..Len(Obs) |-> Diagonal(dcs[o])],
                 means |-> [i \in 1..Len(ps) |-> [o \in 1..Len(Obs) |-> [j \in 1..Len(dcs[o]) |-> WExpect(dcs[o][j].w, ps[i])]]],
                 vals |-> [i \in 1..Len(ps) |-> [o \in 1..Len(Obs) |-> Expect(NQ, Obs[o], batch[i], ps[i])]],
                 det |-> det, detvals |-> [i \in 1..Len(ps) |-> DetVal(ps[i])]]))
MInit == Init /\ det = <<>>
MBuild == BuildNext /\ UNCHANGED det
Next == MBuild \/ AddDet \/ Emit
Spec == MInit /\ [][Next]_mvars

(*---- meta-properties ----*)
\* words act as the product of their letters
WordInv == Done => \A ix \in WordIx, j \in 0..(D-1) : VEq(WApply(ix, VBasis(NQ,j)), VScale([k |-> 0, r |-> RW(Ph(WordAt(ix),j))], VBasis(NQ,Flip(WordAt(ix),j))))
RECURSIVE VSum(_,_)
VSum(f, k) == IF k = 0 THEN VZero(NQ) ELSE VAdd(f[k], VSum(f, k-1))
\* the decomposition is the observable, with real coefficients
DecompInv == Done => LET Dec1 == TLCEval(Decomp(Obs[1])) IN
                     /\ \A i \in 1..Len(Dec1) : SIsReal(Dec1[i].c)
                     /\ \A j \in 0..(D-1) : VEq(Apply(NQ, Obs[1], batch[1], VBasis(NQ,j)),
                                               VSum([i \in 1..Len(Dec1) |-> VScale(Dec1[i].c, WApply(Dec1[i].w, VBasis(NQ,j)))], Len(Dec1)))
\* combining the means of the words gives the expectation value
LinearInv == Done => LET Dec1 == TLCEval(Decomp(Obs[1])) IN \A i \in 1..Len(batch) : LET psi == TLCEval(State(batch[i])) IN
               SNorm(SumF([j \in 1..Len(Dec1) |-> SMul(Dec1[j].c, WExpect(Dec1[j].w, psi))], Len(Dec1))) = SNorm(Expect(NQ, Obs[1], batch[1], psi))
\* a pure state: the squares of the means of all the words sum to 2^n
PureInv == Done => LET psi == TLCEval(State(batch[1])) IN
             SNorm(SumF([ix \in 1..Pow4(NQ) |-> LET m == WExpect(ix-1, psi) IN SMul(m,m)], Pow4(NQ))) = SInt(D)
\* a diagonal observable is determined by the probabilities of the bit strings
DiagInv == Done => LET Dec1 == TLCEval(Decomp(Obs[1])) IN (Diagonal(Dec1) => \A i \in 1..Len(batch) : LET psi == TLCEval(State(batch[i])) IN
             SNorm(SumF([j \in 1..D |-> SMul(VProb(psi,j-1), VInner(VBasis(NQ,j-1), Apply(NQ, Obs[1], batch[1], VBasis(NQ,j-1))))], D))
             = SNorm(Expect(NQ, Obs[1], batch[1], psi)))
=============================================================================
