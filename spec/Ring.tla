-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Exact arithmetic for quantum amplitudes.                                *)
(*                                                                         *)
(* A ring element is <<a,b,c,d>> = a + b w + c w^2 + d w^3 with            *)
(* w = exp(i*Pi/4), so w^4 = -1.  An amplitude is a ring element divided   *)
(* by Sqrt2^k for a common exponent k; vectors carry one k for all of      *)
(* their entries: [k |-> Nat, a |-> [0..D-1 -> Ring]].                     *)
(* No floating point is involved, so equality in the specification is      *)
(* exact equality of complex numbers.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RZero == <<0,0,0,0>>
ROne  == <<1,0,0,0>>
RI    == <<0,0,1,0>>
RSqrt2 == <<0,1,0,-1>>

RAdd(x,y) == <<x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4]>>
RNeg(x)   == <<-x[1],-x[2],-x[3],-x[4]>>
RSub(x,y) == RAdd(x,RNeg(y))
RMul(x,y) == <<x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
               x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
               x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
               x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]>>
RInt(n)   == <<n,0,0,0>>
RConj(x)  == <<x[1], -x[4], -x[3], -x[2]>>
RTimesSqrt2(x) == <<x[2]-x[4], x[1]+x[3], x[2]+x[4], x[3]-x[1]>>

\* w^m for any integer m
RW(m) == LET r == m % 8 IN
         CASE r = 0 -> <<1,0,0,0>>  [] r = 1 -> <<0,1,0,0>>
           [] r = 2 -> <<0,0,1,0>>  [] r = 3 -> <<0,0,0,1>>
           [] r = 4 -> <<-1,0,0,0>> [] r = 5 -> <<0,-1,0,0>>
           [] r = 6 -> <<0,0,-1,0>> [] r = 7 -> <<0,0,0,-1>>

\* Sqrt2 * cos(h*Pi/4), Sqrt2 * sin(h*Pi/4)
RC(h) == LET r == h % 8 IN
         CASE r = 0 -> RSqrt2 [] r = 1 -> ROne [] r = 2 -> RZero
           [] r = 3 -> RNeg(ROne) [] r = 4 -> RNeg(RSqrt2) [] r = 5 -> RNeg(ROne)
           [] r = 6 -> RZero [] r = 7 -> ROne
RS(h) == RC(h - 2)

\* divisibility by Sqrt2
RHalvable(x) == (x[1] + x[3]) % 2 = 0 /\ (x[2] + x[4]) % 2 = 0
RDivSqrt2(x) == LET y == RTimesSqrt2(x) IN <<y[1] \div 2, y[2] \div 2, y[3] \div 2, y[4] \div 2>>

RECURSIVE RUp(_,_)
RUp(x, j) == IF j = 0 THEN x ELSE IF j >= 2 THEN RUp(<<2*x[1],2*x[2],2*x[3],2*x[4]>>, j-2)
             ELSE RTimesSqrt2(x)

RECURSIVE Pow2(_)
Pow2(m) == IF m = 0 THEN 1 ELSE 2 * Pow2(m-1)

(*-------------------------------- vectors --------------------------------*)
RECURSIVE VNorm(_)
VNorm(v) ==
  IF v.k > 0 /\ \A i \in DOMAIN v.a : RHalvable(v.a[i])
  THEN VNorm([k |-> v.k - 1, a |-> [i \in DOMAIN v.a |-> RDivSqrt2(v.a[i])]])
  ELSE v
VZero(n)   == [k |-> 0, a |-> [i \in 0..(Pow2(n)-1) |-> RZero]]
VBasis(n,j) == [k |-> 0, a |-> [i \in 0..(Pow2(n)-1) |-> IF i = j THEN ROne ELSE RZero]]
VUp(v, kk) == IF kk = v.k THEN v ELSE [k |-> kk, a |-> [i \in DOMAIN v.a |-> RUp(v.a[i], kk - v.k)]]
VAdd(u,v)  == LET kk == IF u.k > v.k THEN u.k ELSE v.k
                  uu == VUp(u,kk)  vv == VUp(v,kk)
              IN VNorm([k |-> kk, a |-> [i \in DOMAIN u.a |-> RAdd(uu.a[i], vv.a[i])]])
\* scalar s = [k, r] = r / Sqrt2^k
VScale(s,v) == VNorm([k |-> v.k + s.k, a |-> [i \in DOMAIN v.a |-> RMul(s.r, v.a[i])]])
VEq(u,v)    == VNorm(u) = VNorm(v)

RECURSIVE RSum(_,_,_)
RSum(f, i, j) == IF i > j THEN RZero ELSE RAdd(f[i], RSum(f, i+1, j))
RECURSIVE SNorm(_)
SNorm(s) == IF s.k > 0 /\ RHalvable(s.r) THEN SNorm([k |-> s.k-1, r |-> RDivSqrt2(s.r)]) ELSE s
\* <u|v>
VInner(u,v) == SNorm([k |-> u.k + v.k,
                r |-> RSum([i \in DOMAIN u.a |-> RMul(RConj(u.a[i]), v.a[i])], 0, Cardinality(DOMAIN u.a)-1)])
SAdd(s,t) == LET kk == IF s.k > t.k THEN s.k ELSE t.k
             IN SNorm([k |-> kk, r |-> RAdd(RUp(s.r, kk-s.k), RUp(t.r, kk-t.k))])
SMul(s,t) == SNorm([k |-> s.k + t.k, r |-> RMul(s.r, t.r)])
SNeg(s)   == [k |-> s.k, r |-> RNeg(s.r)]
SSub(s,t) == SAdd(s, SNeg(t))
SInt(n)   == [k |-> 0, r |-> RInt(n)]
SConj(s)  == [k |-> s.k, r |-> RConj(s.r)]
SZero == SInt(0)
SOne  == SInt(1)
SIsReal(s) == LET c == SNorm(s) IN c.r = RConj(c.r)
\* probability of index i
VProb(v,i) == SNorm([k |-> 2*v.k, r |-> RMul(RConj(v.a[i]), v.a[i])])
\* vectors as tuples, for output
VOut(v) == [k |-> v.k, a |-> [i \in 1..Cardinality(DOMAIN v.a) |-> v.a[i-1]]]
=============================================================================
