------------------------------ MODULE MCExpect ------------------------------
(* A session builds a circuit and one or more Hermitian observables and asks *)
(* for expectation values, gradients and second derivatives.                 *)
EXTENDS Menu, Jets
CONSTANTS Pairs,     \* sequence of pairs of parameters to differentiate in
          WithCols   \* also emit the operators of the circuit and the observables
Obs == SubSeq(built, 2, Len(built))
State(val) == Apply(NQ, Block, val, VBasis(NQ,0))
Vals == [i \in 1..Len(batch) |-> [o \in 1..Len(Obs) |-> Expect(NQ, Obs[o], batch[i], State(batch[i]))]]
JOut(J) == [v |-> J.v, p |-> J.p, q |-> J.q, pq |-> J.pq]
Grads == [i \in 1..Len(batch) |-> [o \in 1..Len(Obs) |-> [k \in 1..Len(Pairs) |->
             JOut(JExpect(NQ, Block, Obs[o], batch[i], Pairs[k][1], Pairs[k][2]))]]]
\* the part of the derivatives in the parameters of generators, in units of Pi/4
GPar(b) == LET S == GenPars(b) IN SelectSeq(<<"z","w">>, LAMBDA p : p \in S)
GGrads == LET ps == GPar(Block) IN [k \in 1..Len(ps) |-> [p |-> ps[k], g |-> [i \in 1..Len(batch) |-> [o \in 1..Len(Obs) |-> GExpect(NQ, Block, Obs[o], batch[i], ps[k])]]]]
Probs == [i \in 1..Len(batch) |-> LET v == State(batch[i]) IN [j \in 1..Pow2(NQ) |-> VProb(v,j-1)]]
Emit == Done /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch>>
        /\ PrintT("@@" \o ToJson([n |-> NQ, block |-> Block, obs |-> Obs, batch |-> batch, pairs |-> Pairs,
              states |-> [i \in 1..Len(batch) |-> VOut(State(batch[i]))],
              ccols |-> IF WithCols THEN Cols(Block,batch) ELSE <<>>,
              ocols |-> IF WithCols THEN [o \in 1..Len(Obs) |-> Cols(Obs[o],batch)] ELSE <<>>,
              probs |-> Probs, vals |-> Vals, grads |-> IF Pairs = <<>> THEN <<>> ELSE Grads,
              ggrads |-> IF Pairs = <<>> THEN <<>> ELSE GGrads]))
Next == BuildNext \/ Emit
Spec == Init /\ [][Next]_vars

(*---- meta-properties of the specification ----*)
\* expectation values of Hermitian observables are real, probabilities sum to one
RealInv == Done => \A i \in 1..Len(batch), o \in 1..Len(Obs) : SIsReal(Vals[i][o])
RECURSIVE SSum(_,_)
SSum(f, k) == IF k = 0 THEN SZero ELSE SAdd(f[k], SSum(f, k-1))
NormInv == Done => \A i \in 1..Len(batch) : SSum(Probs[i], Pow2(NQ)) = SOne
\* the derivative agrees with the parameter-shift rule when only single-gap gates carry the parameter
ShiftRule(p) == LET up(d) == [batch[1] EXCEPT ![p] = @ + d]
                    E(val) == Expect(NQ, Obs[1], val, State(val))
                IN SMul([k |-> 2, r |-> ROne], SSub(E(up(2)), E(up(-2))))
RECURSIVE Occurs(_,_)
Occurs(b,p) == IF b.t = "gate" THEN Cardinality({j \in 1..Len(b.e) : b.e[j][Idx[p]] # 0}) * (IF b.g \in {"RX","RY","RZ","PHASE","U"} THEN 1 ELSE 9)
               ELSE IF b.t = "scale" /\ b.s.t = "cos" /\ b.s.e[Idx[p]] # 0 THEN 99 ELSE LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE Occurs(b.b[k],p) + S(k-1) IN S(Len(b.b))
RECURSIVE CoefOf(_,_)
CoefOf(b,p) == IF b.t = "gate" THEN LET J == {j \in 1..Len(b.e) : b.e[j][Idx[p]] # 0} IN IF J = {} THEN 0 ELSE b.e[CHOOSE j \in J : TRUE][Idx[p]]
               ELSE LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE CoefOf(b.b[k],p) + S(k-1) IN S(Len(b.b))
ShiftInv == Done => (Occurs(Block,"x") = 1 /\ CoefOf(Block,"x") \in {1,-1} /\ Occurs(Obs[1],"x") = 0
              => JExpect(NQ, Block, Obs[1], batch[1], "x", "x").p = ShiftRule("x"))
\* Euler: for one evolution generated by z W for the time c x, t d/dt = z d/dz
EulerInv == Done => (Block.t = "gate" /\ Block.g = "HamEvo" /\ Len(Block.d) = 1 /\ Block.d[1].p = "z" /\ GenPars(Obs[1]) = {} =>
   LET e == Block.e[1]  val == batch[1] IN
     SMul(SInt(val["z"] * e[2]), GExpect(NQ, Block, Obs[1], val, "z")) = SMul(SInt(Ev(e,val)), JExpect(NQ, Block, Obs[1], val, "x", "x").p))
=============================================================================
