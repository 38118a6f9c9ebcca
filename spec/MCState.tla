------------------------------- MODULE MCState -------------------------------
(***************************************************************************)
(* States as data: two programs prepare |u> and |v>; the session asks for  *)
(* overlaps, density matrices, reductions to an ordered list of qubits,    *)
(* and the functionals of (mixed) states.  Mixed states are the reductions *)
(* and mixtures p |u><u| + (1-p) |v><v| with dyadic p.                     *)
(***************************************************************************)
EXTENDS Menu
CONSTANT AllKeeps      \* TRUE: every ordered list of qubits; FALSE: drawn
VARIABLES keep, wt
svars == <<built, stack, fuel, batch, phase, keep, wt>>
\* the second program has parameters of its own
Swap12(e) == <<e[1], e[3], e[2], e[5], e[4]>>
RECURSIVE Ren(_)
Ren(b) == CASE b.t = "gate" -> [b EXCEPT !.e = [i \in 1..Len(b.e) |-> Swap12(b.e[i])]]
            [] b.t = "scale" -> b
            [] OTHER -> [b EXCEPT !.b = [i \in 1..Len(b.b) |-> Ren(b.b[i])]]
Bra == built[1]
\* (or shares the parameters of the first)
Ket == IF wt = 2 THEN built[2] ELSE Ren(built[2])
St(b, val) == Apply(NQ, b, val, VBasis(NQ,0))

(*---------------------------- density matrices ----------------------------*)
\* [k, m]: entries m[r][c] / Sqrt2^k, indices from 0
Dm(v) == [k |-> 2*v.k, m |-> [r \in DOMAIN v.a |-> [c \in DOMAIN v.a |-> RMul(v.a[r], RConj(v.a[c]))]]]
DUp(d, kk) == [k |-> kk, m |-> [r \in DOMAIN d.m |-> [c \in DOMAIN d.m |-> RUp(d.m[r][c], kk - d.k)]]]
DScale(s, d) == [k |-> d.k + s.k, m |-> [r \in DOMAIN d.m |-> [c \in DOMAIN d.m |-> RMul(s.r, d.m[r][c])]]]
DAdd(a, b) == LET kk == IF a.k > b.k THEN a.k ELSE b.k  x == DUp(a,kk)  y == DUp(b,kk)
              IN [k |-> kk, m |-> [r \in DOMAIN a.m |-> [c \in DOMAIN a.m |-> RAdd(x.m[r][c], y.m[r][c])]]]
RECURSIVE DNorm(_)
DNorm(d) == IF d.k > 0 /\ \A r, c \in DOMAIN d.m : RHalvable(d.m[r][c])
            THEN DNorm([k |-> d.k-1, m |-> [r \in DOMAIN d.m |-> [c \in DOMAIN d.m |-> RDivSqrt2(d.m[r][c])]]]) ELSE d
DTop(d) == Cardinality(DOMAIN d.m) - 1
DMul(a, b) == [k |-> a.k + b.k, m |-> [r \in DOMAIN a.m |-> [c \in DOMAIN a.m |->
                 RSum([j \in DOMAIN a.m |-> RMul(a.m[r][j], b.m[j][c])], 0, DTop(a))]]]
Tr(d) == SNorm([k |-> d.k, r |-> RSum([j \in DOMAIN d.m |-> d.m[j][j]], 0, DTop(d))])
\* Tr(a b) without building the product
Tr2(a, b) == SNorm([k |-> a.k + b.k, r |-> RSum([i \in DOMAIN a.m |-> RSum([j \in DOMAIN a.m |-> RMul(a.m[i][j], b.m[j][i])], 0, DTop(a))], 0, DTop(a))])
Others(K) == SetToAsc((0..(NQ-1)) \ {K[i] : i \in 1..Len(K)})
\* the state of the qubits K alone, in the order of K
Reduce(d, K) ==
  LET R == Others(K)  m == Len(K)
      Emb(j, e) == SetLocal(NQ, SetLocal(NQ, 0, K, j), R, e)
      T == Pow2(Len(R)) - 1
  IN DNorm([k |-> d.k, m |-> [r \in 0..(Pow2(m)-1) |-> [c \in 0..(Pow2(m)-1) |->
              RSum([e \in 0..T |-> d.m[Emb(r,e)][Emb(c,e)]], 0, T)]]])
\* quarters p of the first state
Quarter(p) == [k |-> 4, r |-> RInt(p)]
Mix(p, a, b) == DNorm(DAdd(DScale(Quarter(p), a), DScale(Quarter(4-p), b)))
DOut(d) == [k |-> d.k, m |-> [r \in 1..(DTop(d)+1) |-> [c \in 1..(DTop(d)+1) |-> d.m[r-1][c-1]]]]
Det2(d) == SNorm([k |-> 2*d.k, r |-> RSub(RMul(d.m[0][0], d.m[1][1]), RMul(d.m[0][1], d.m[1][0]))])

Fid(u, v) == LET s == VInner(u,v) IN SMul(s, SConj(s))
Us == [i \in 1..Len(batch) |-> St(Bra, batch[i])]
Vs == [i \in 1..Len(batch) |-> St(Ket, batch[i])]

(*-------------------------------- session ---------------------------------*)
Keeps == UNION {{f \in [1..m -> 0..(NQ-1)] : \A i, j \in 1..m : i # j => f[i] # f[j]} : m \in 1..NQ}
Choose == Done /\ keep = <<>> /\ \E K \in (IF AllKeeps THEN Keeps ELSE Pick(Keeps)), p \in (IF AllKeeps THEN {1} ELSE Pick(1..3)) : keep' = K /\ wt' = p
          /\ UNCHANGED vars
Emit == Done /\ keep # <<>> /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch, keep, wt>>
        /\ LET us == TLCEval(Us)  vs == TLCEval(Vs)
               B == Len(batch)
               du == TLCEval([i \in 1..B |-> Dm(us[i])])
               dv == TLCEval([i \in 1..B |-> Dm(vs[i])])
               ru == TLCEval([i \in 1..B |-> Reduce(du[i], keep)])
               rv == TLCEval([i \in 1..B |-> Reduce(dv[i], keep)])
               mx == TLCEval([i \in 1..B |-> Mix(wt, ru[i], rv[i])])
           IN PrintT("@@" \o ToJson([n |-> NQ, bra |-> Bra, ket |-> Ket, batch |-> batch, keep |-> keep, wt |-> wt,
                 us |-> [i \in 1..B |-> VOut(us[i])], vs |-> [i \in 1..B |-> VOut(vs[i])],
                 ov |-> [i \in 1..B |-> [j \in 1..B |-> Fid(us[i], vs[j])]],
                 ru |-> [i \in 1..B |-> DOut(ru[i])], rv |-> [i \in 1..B |-> DOut(rv[i])], mx |-> [i \in 1..B |-> DOut(mx[i])],
                 pur |-> [i \in 1..B |-> <<Tr2(ru[i],ru[i]), Tr2(rv[i],rv[i]), Tr2(mx[i],mx[i])>>],
                 pur3 |-> [i \in 1..B |-> Tr2(mx[i], DMul(mx[i],mx[i]))],
                 det |-> IF Len(keep) = 1 THEN [i \in 1..B |-> <<Det2(ru[i]), Det2(rv[i]), Det2(mx[i])>>] ELSE <<>>,
                 trc |-> [i \in 1..B |-> <<Tr2(ru[i],rv[i]), Tr2(ru[i],mx[i])>>],
                 \* <u| M |u> for the mixture M of the unreduced states: squared fidelity with a pure state
                 pm |-> [i \in 1..B |-> SAdd(Quarter(wt), SMul(Quarter(4-wt), Fid(us[i],vs[i])))]]))
SInit == Init /\ keep = <<>> /\ wt = 0
SNext == (BuildNext /\ UNCHANGED <<keep, wt>>) \/ Choose \/ Emit
SSpec == SInit /\ [][SNext]_svars

(*----------------------------- meta-properties ----------------------------*)
Ready == Done /\ keep # <<>>
Hermitian(d) == \A r, c \in DOMAIN d.m : d.m[r][c] = RConj(d.m[c][r])
TraceInv == Ready => \A d \in {Dm(St(Bra,batch[1])), Dm(St(Ket,batch[1]))} :
               LET x == Reduce(d, keep) IN Tr(x) = SOne /\ Hermitian(x)
\* both halves of a pure state are equally mixed
HalfInv == Ready /\ Len(keep) < NQ => LET d == Dm(St(Bra,batch[1]))  a == Reduce(d, keep)  b == Reduce(d, Others(keep)) IN Tr2(a,a) = Tr2(b,b)
\* reducing in two steps is reducing at once; a pure state stays pure on all qubits
PureInv == Ready => LET d == Dm(St(Bra,batch[1])) IN Tr2(d,d) = SOne /\ Fid(St(Bra,batch[1]), St(Bra,batch[1])) = SOne
                    /\ (Len(keep) = NQ => LET x == Reduce(d,keep) IN Tr2(x,x) = SOne)
SymInv == Ready => Fid(St(Bra,batch[1]), St(Ket,batch[1])) = Fid(St(Ket,batch[1]), St(Bra,batch[1]))
                   /\ Fid(St(Bra,batch[1]), St(Ket,batch[1])) = Tr2(Dm(St(Bra,batch[1])), Dm(St(Ket,batch[1])))
=============================================================================
