-------------------------------- MODULE Jets --------------------------------
(***************************************************************************)
(* Exact first and second derivatives.  A jet of a vector with respect to  *)
(* two parameters p, q is [v, p, q, pq]: the vector, its derivatives in p  *)
(* and q and its mixed second derivative.  Derivatives are with respect to *)
(* the parameter itself (radians), so a unit of angle contributes no       *)
(* factor: every angle is a linear form in the parameters.                 *)
(* Jets contain the dependence of evolutions on their time; the first      *)
(* derivatives through the coefficients of their generator are multiples   *)
(* of Pi/4 and are kept apart (GExpect).                                   *)
(***************************************************************************)
EXTENDS Circuit
Idx == [x |-> 2, y |-> 3, a |-> 4, b |-> 5]
\* derivative of an angle / a scalar with respect to parameter p
DCoef(e, p) == IF p \in DOMAIN Idx THEN e[Idx[p]] ELSE 0
VZ(v) == [k |-> 0, a |-> [i \in DOMAIN v.a |-> RZero]]
VMulInt(m, v) == IF m = 0 THEN VZ(v) ELSE VScale(SInt(m), v)

\* j-th derivative (j = 0,1,2) of the gate with respect to its angle, applied to v
DMat(g, u, j) ==
  LET M(uu) == GateMat(g, <<uu>>) IN
  IF g.g \in {"PHASE","CPHASE","MCPHASE"}
  THEN [k |-> 0, m |-> [r \in 0..1 |-> [c \in 0..1 |-> IF r = 1 /\ c = 1 THEN RW(u + 2*j) ELSE RZero]]]
  ELSE [k |-> M(u + 4*j).k + 2*j, m |-> M(u + 4*j).m]       \* d/dt exp(-itP/2) = 1/2 exp(-i(t+Pi)P/2)
\* apply a matrix only where all controls are set, zero elsewhere
ApplyMatProj(n, M, cs, qs, v) ==
  VNorm([k |-> v.k + M.k,
         a |-> [i \in DOMAIN v.a |->
                 IF \A q \in 1..Len(cs) : Bit(n,i,cs[q]) = 1
                 THEN RowSum(n, M, qs, v, i, LocalIx(n,i,qs), Pow2(Len(qs)) - 1)
                 ELSE RZero]])
\* j-th derivative of a one-parameter gate
DGate(n, b, val, j, v) ==
  LET u == Ev(b.e[1], val) IN
  IF b.g = "HamEvo" THEN
    LET H(w) == VScale([k |-> 0, r |-> RNeg(RI)], ApplySum(n, b.d, val, w))
        w0 == ApplyExp(n, b.d, val, u, v)
    IN IF j = 0 THEN w0 ELSE IF j = 1 THEN H(w0) ELSE H(H(w0))
  ELSE IF j = 0 THEN Apply(n, b, val, v)
  ELSE ApplyMatProj(n, DMat(b, u, j), b.c, b.q, v)

JMap(F(_), J) == [v |-> F(J.v), p |-> F(J.p), q |-> F(J.q), pq |-> F(J.pq)]
JAdd(J, K) == [v |-> VAdd(J.v,K.v), p |-> VAdd(J.p,K.p), q |-> VAdd(J.q,K.q), pq |-> VAdd(J.pq,K.pq)]
\* product of a scalar jet (s,sp,sq,spq) with a vector jet
JScale(S, J) ==
  [v |-> VScale(S.v, J.v),
   p |-> VAdd(VScale(S.p, J.v), VScale(S.v, J.p)),
   q |-> VAdd(VScale(S.q, J.v), VScale(S.v, J.q)),
   pq |-> VAdd(VAdd(VScale(S.pq, J.v), VScale(S.p, J.q)), VAdd(VScale(S.q, J.p), VScale(S.v, J.pq)))]
SJet(s, val, p, q) ==
  CASE s.t = "num" -> [v |-> EvScal(s,val), p |-> SZero, q |-> SZero, pq |-> SZero]
    [] s.t = "par" -> LET d(x) == SInt(IF x = "z" THEN s.c[2] ELSE IF x = "w" THEN s.c[3] ELSE 0)
                      IN [v |-> EvScal(s,val), p |-> d(p), q |-> d(q), pq |-> SZero]
    [] s.t = "cos" -> LET u == Ev(s.e,val)
                          msin == SNorm([k |-> 1, r |-> RNeg(RS(u))])
                          mcos == SNorm([k |-> 1, r |-> RNeg(RC(u))])
                          d(x) == SMul(SInt(DCoef(s.e,x)), msin)
                      IN [v |-> EvScal(s,val), p |-> d(p), q |-> d(q),
                          pq |-> SMul(SInt(DCoef(s.e,p) * DCoef(s.e,q)), mcos)]

RECURSIVE JApply(_,_,_,_,_,_), JChain(_,_,_,_,_,_), JSum(_,_,_,_,_,_)
JApply(n, b, val, p, q, J) ==
  CASE b.t = "gate" ->
       IF Len(b.e) = 0 THEN JMap(LAMBDA w : Apply(n, b, val, w), J)
       ELSE IF b.g = "U" THEN JChain(n, <<Par("RZ",<<>>,b.q,<<b.e[1]>>), Par("RY",<<>>,b.q,<<b.e[2]>>), Par("RZ",<<>>,b.q,<<b.e[3]>>)>>, val, p, q, J)
       ELSE LET cp == DCoef(b.e[1], p)  cq == DCoef(b.e[1], q)
                G(j,w) == DGate(n, b, val, j, w)
            IN IF cp = 0 /\ cq = 0 THEN JMap(LAMBDA w : G(0,w), J)
               ELSE [v |-> G(0,J.v),
                     p |-> VAdd(G(0,J.p), VMulInt(cp, G(1,J.v))),
                     q |-> VAdd(G(0,J.q), VMulInt(cq, G(1,J.v))),
                     pq |-> VAdd(VAdd(G(0,J.pq), VMulInt(cp*cq, G(2,J.v))),
                                 VAdd(VMulInt(cp, G(1,J.q)), VMulInt(cq, G(1,J.p))))]
    [] b.t \in {"chain","kron"} -> JChain(n, b.b, val, p, q, J)
    [] b.t = "add" -> JSum(n, b.b, val, p, q, J)
    [] b.t = "scale" -> JScale(SJet(b.s, val, p, q), JApply(n, b.b[1], val, p, q, J))
    [] b.t = "dagger" -> JApply(n, Dagger(b.b[1]), val, p, q, J)
JChain(n, bs, val, p, q, J) == IF bs = <<>> THEN J ELSE JChain(n, Tail(bs), val, p, q, JApply(n, bs[1], val, p, q, J))
JSum(n, bs, val, p, q, J) == IF Len(bs) = 1 THEN JApply(n, bs[1], val, p, q, J)
                             ELSE JAdd(JApply(n, bs[1], val, p, q, J), JSum(n, Tail(bs), val, p, q, J))

JBasis0(n) == LET v == VBasis(n,0) IN [v |-> v, p |-> VZ(v), q |-> VZ(v), pq |-> VZ(v)]
\* value, gradient and mixed second derivative of <0| C^dagger O C |0>
JExpect(n, c, o, val, p, q) ==
  LET S == JApply(n, c, val, p, q, JBasis0(n))
      W == JApply(n, o, val, p, q, S)
  IN [v |-> VInner(S.v, W.v),
      p |-> SAdd(VInner(S.p, W.v), VInner(S.v, W.p)),
      q |-> SAdd(VInner(S.q, W.v), VInner(S.v, W.q)),
      pq |-> SAdd(SAdd(VInner(S.pq, W.v), VInner(S.p, W.q)), SAdd(VInner(S.q, W.p), VInner(S.v, W.pq)))]

(*--------- derivatives through the coefficients of the generators ---------*)
\* exp(-i t H) with commuting terms: -i t (dH/dp) exp(-i t H), in units of Pi/4
DHam(n, ts, val, p, w) == LET S == SelectSeq(ts, LAMBDA t : t.p = p)
                              T == [i \in 1..Len(S) |-> [S[i] EXCEPT !.p = ""]]
                          IN ApplySum(n, T, val, w)
RECURSIVE GApply(_,_,_,_,_), GChain(_,_,_,_,_), GSum(_,_,_,_,_)
GApply(n, b, val, p, J) ==
  CASE b.t = "gate" ->
       IF b.g = "HamEvo" /\ \E i \in 1..Len(b.d) : b.d[i].p = p
       THEN LET w == Apply(n, b, val, J.v) IN
            [v |-> w, p |-> VAdd(Apply(n, b, val, J.p), VScale([k |-> 0, r |-> RMul(RInt(-Ev(b.e[1],val)), RI)], DHam(n, b.d, val, p, w)))]
       ELSE [v |-> Apply(n, b, val, J.v), p |-> Apply(n, b, val, J.p)]
    [] b.t \in {"chain","kron"} -> GChain(n, b.b, val, p, J)
    [] b.t = "add" -> GSum(n, b.b, val, p, J)
    [] b.t = "scale" -> LET K == GApply(n, b.b[1], val, p, J)  s == EvScal(b.s, val) IN [v |-> VScale(s, K.v), p |-> VScale(s, K.p)]
    [] b.t = "dagger" -> GApply(n, Dagger(b.b[1]), val, p, J)
GChain(n, bs, val, p, J) == IF bs = <<>> THEN J ELSE GChain(n, Tail(bs), val, p, TLCEval(GApply(n, bs[1], val, p, J)))
GSum(n, bs, val, p, J) == IF Len(bs) = 1 THEN GApply(n, bs[1], val, p, J)
                          ELSE LET K == GApply(n, bs[1], val, p, J)  L == GSum(n, Tail(bs), val, p, J) IN [v |-> VAdd(K.v,L.v), p |-> VAdd(K.p,L.p)]
GExpect(n, c, o, val, p) ==
  LET v0 == VBasis(n,0)  S == GApply(n, c, val, p, [v |-> v0, p |-> VZ(v0)])
  IN SAdd(VInner(S.p, Apply(n, o, val, S.v)), VInner(S.v, Apply(n, o, val, S.p)))
RECURSIVE GenPars(_)
GenPars(b) == IF b.t = "gate" THEN (IF b.g = "HamEvo" THEN {b.d[i].p : i \in 1..Len(b.d)} \ {""} ELSE {})
              ELSE UNION {GenPars(b.b[i]) : i \in 1..Len(b.b)}
=============================================================================
