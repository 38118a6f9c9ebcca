------------------------------- MODULE Circuit -------------------------------
(***************************************************************************)
(* Abstract syntax and exact denotation of qadence programs.               *)
(*                                                                         *)
(* Block syntax (records):                                                 *)
(*   gate   [t |-> "gate", g |-> name, c |-> controls, q |-> targets,      *)
(*           e |-> <<expr,...>>, d |-> data]                               *)
(*   chain  [t |-> "chain", b |-> <<block,...>>]   in time order           *)
(*   kron   [t |-> "kron",  b |-> <<block,...>>]   disjoint supports       *)
(*   add    [t |-> "add",   b |-> <<block,...>>]                           *)
(*   scale  [t |-> "scale", s |-> scal, b |-> <<block>>]                   *)
(*   dagger [t |-> "dagger", b |-> <<block>>]                              *)
(*                                                                         *)
(* An expression is an integer tuple <<c0, cx, cy, ca, cb>> denoting       *)
(* c0 + cx*x + cy*y + ca*a + cb*b in units of Pi/4; x,y are feature        *)
(* parameters and a,b variational ones.  A scalar is either a number       *)
(* [t |-> "num", k, r] or a parameter expression in the integer-valued     *)
(* parameters z (feature) and w (variational):                             *)
(* [t |-> "par", c |-> <<c0,cz,cw>>] or [t |-> "cos", e |-> expr].         *)
(* A valuation is a record giving integers to x,y,a,b,z,w.                 *)
(*                                                                         *)
(* Qubit 0 is the most significant bit of a basis index.                   *)
(***************************************************************************)
EXTENDS Ring

Bit(n,i,q)  == (i \div Pow2(n-1-q)) % 2
SetBit(n,i,q,b) == i + (b - Bit(n,i,q)) * Pow2(n-1-q)
\* local index of basis state i on the qubit list qs (qs[1] most significant)
RECURSIVE LocalIx(_,_,_)
LocalIx(n,i,qs) == IF qs = <<>> THEN 0
                   ELSE LocalIx(n,i,SubSeq(qs,1,Len(qs)-1)) * 2 + Bit(n,i,qs[Len(qs)])
RECURSIVE SetLocal(_,_,_,_)
SetLocal(n,i,qs,j) == IF qs = <<>> THEN i
                      ELSE SetLocal(n, SetBit(n,i,qs[Len(qs)], j % 2), SubSeq(qs,1,Len(qs)-1), j \div 2)

(*------------------------------ parameters -------------------------------*)
Ev(e, val) == e[1] + e[2]*val.x + e[3]*val.y + e[4]*val.a + e[5]*val.b
EvScal(s, val) ==
  CASE s.t = "num" -> [k |-> s.k, r |-> s.r]
    [] s.t = "par" -> SInt(s.c[1] + s.c[2]*val.z + s.c[3]*val.w)
    [] s.t = "cos" -> SNorm([k |-> 1, r |-> RC(Ev(s.e, val))])
ENeg(e) == <<-e[1],-e[2],-e[3],-e[4],-e[5]>>
EConst(c) == <<c,0,0,0,0>>

(*--------------------------------- gates ---------------------------------*)
\* target matrix of a gate: [k, m] with m : row -> col -> Ring, 0-based functions
Mat2(k,a,b,c,d) == [k |-> k, m |-> [r \in 0..1 |-> [cc \in 0..1 |->
                     IF r = 0 THEN (IF cc = 0 THEN a ELSE b) ELSE (IF cc = 0 THEN c ELSE d)]]]
Diag2(a,d) == Mat2(0,a,RZero,RZero,d)
MX == Mat2(0,RZero,ROne,ROne,RZero)
MZ == Diag2(ROne,RNeg(ROne))
MRX(u) == LET h == u \div 2 IN Mat2(1,RC(h),RMul(RNeg(RI),RS(h)),RMul(RNeg(RI),RS(h)),RC(h))
MRY(u) == LET h == u \div 2 IN Mat2(1,RC(h),RNeg(RS(h)),RS(h),RC(h))
MRZ(u) == LET h == u \div 2 IN Diag2(RW(-h),RW(h))
MPH(u) == Diag2(ROne,RW(u))
MMul2(A,B) == [k |-> A.k + B.k, m |-> [r \in 0..1 |-> [c \in 0..1 |->
                 RAdd(RMul(A.m[r][0],B.m[0][c]), RMul(A.m[r][1],B.m[1][c]))]]]
MSwap == [k |-> 0, m |-> [r \in 0..3 |-> [c \in 0..3 |->
            IF (r \div 2) = (c % 2) /\ (r % 2) = (c \div 2) THEN ROne ELSE RZero]]]
\* |ket><bra| for bit strings given as integers on m qubits
MProj(m,ket,bra) == [k |-> 0, m |-> [r \in 0..(Pow2(m)-1) |-> [c \in 0..(Pow2(m)-1) |->
            IF r = ket /\ c = bra THEN ROne ELSE RZero]]]

GateMat(g, us) ==
  CASE g.g = "I" -> Diag2(ROne,ROne)
    [] g.g \in {"X","CNOT","Toffoli"} -> MX
    [] g.g = "Y" -> Mat2(0,RZero,RNeg(RI),RI,RZero)
    [] g.g \in {"Z","CZ","MCZ"} -> MZ
    [] g.g = "H" -> Mat2(1,ROne,ROne,ROne,RNeg(ROne))
    [] g.g = "S" -> MPH(2)
    [] g.g = "SDagger" -> MPH(-2)
    [] g.g = "T" -> MPH(1)
    [] g.g = "TDagger" -> MPH(-1)
    [] g.g = "N" -> Diag2(RZero,ROne)
    [] g.g = "Zero" -> Diag2(RZero,RZero)
    [] g.g \in {"RX","CRX","MCRX"} -> MRX(us[1])
    [] g.g \in {"RY","CRY","MCRY"} -> MRY(us[1])
    [] g.g \in {"RZ","CRZ","MCRZ"} -> MRZ(us[1])
    [] g.g \in {"PHASE","CPHASE","MCPHASE"} -> MPH(us[1])
    [] g.g = "U" -> MMul2(MRZ(us[3]), MMul2(MRY(us[2]), MRZ(us[1])))
    [] g.g \in {"SWAP","CSWAP"} -> MSwap
    [] g.g = "Projector" -> MProj(Len(g.q), g.d[1], g.d[2])
    [] g.g = "Matrix" -> [k |-> 0, m |-> [r \in 0..(Pow2(Len(g.q))-1) |-> [c \in 0..(Pow2(Len(g.q))-1) |->
                             RInt(g.d[r+1][c+1])]]]

RECURSIVE RowSum(_,_,_,_,_,_,_)
RowSum(n, M, qs, v, i, r, j) ==
  IF j < 0 THEN RZero
  ELSE LET e == M.m[r][j] IN
       IF e = RZero THEN RowSum(n,M,qs,v,i,r,j-1)
       ELSE RAdd(RMul(e, v.a[SetLocal(n,i,qs,j)]), RowSum(n,M,qs,v,i,r,j-1))

ApplyMat(n, M, cs, qs, v) ==
  LET D == Pow2(Len(qs)) - 1 IN
  VNorm([k |-> v.k + M.k,
         a |-> [i \in DOMAIN v.a |->
                 IF \A q \in 1..Len(cs) : Bit(n,i,cs[q]) = 1
                 THEN RowSum(n, M, qs, v, i, LocalIx(n,i,qs), D)
                 ELSE RUp(v.a[i], M.k)]])

(*-------------------- Hamiltonians: sums of Pauli words -------------------*)
\* a term is [c |-> integer, h |-> Nat, p |-> "" or parameter name, w |-> << <<P, qubit>>, ... >>]
\* with P in X,Y,Z,N (a word is either made of X,Y,Z or of N only); its coefficient is
\* c / Sqrt2^h times the value of p.
TCoef(tm, val) == tm.c * (IF tm.p = "" THEN 1 ELSE val[tm.p])
WordIsN(w) == Len(w) > 0 /\ w[1][1] = "N"
RECURSIVE ApplyWord(_,_,_)
ApplyWord(n, w, v) ==
  IF w = <<>> THEN v
  ELSE ApplyWord(n, Tail(w), ApplyMat(n, GateMat([g |-> w[1][1]], <<>>), <<>>, <<w[1][2]>>, v))
RECURSIVE ApplySum(_,_,_,_)
ApplySum(n, ts, val, v) ==
  IF ts = <<>> THEN [k |-> 0, a |-> [i \in DOMAIN v.a |-> RZero]]
  ELSE VAdd(VScale([k |-> ts[1].h, r |-> RInt(TCoef(ts[1],val))], ApplyWord(n, ts[1].w, v)), ApplySum(n, Tail(ts), val, v))
\* exp(-i * (Pi/4) * u * c * W) v
ApplyExpWord(n, tm, val, u, v) ==
  LET m == u * TCoef(tm, val) IN
  IF WordIsN(tm.w)
  THEN LET pw == ApplyWord(n, tm.w, v)     \* projector part
       IN VAdd(v, VScale([k |-> 0, r |-> RSub(RW(-m), ROne)], pw))
  ELSE VAdd(VScale([k |-> 1, r |-> RC(m)], v),
            VScale([k |-> 1, r |-> RMul(RNeg(RI), RS(m))], ApplyWord(n, tm.w, v)))
RECURSIVE ApplyExpC(_,_,_,_,_)
ApplyExpC(n, ts, val, u, v) == IF ts = <<>> THEN v
                         ELSE ApplyExpC(n, Tail(ts), val, u, ApplyExpWord(n, ts[1], val, u, v))
\* exp(-i * (Pi/4) * u * H) v: either all terms have h = 0 and commute, or H is the
\* normalised sum of two anticommuting words (h = 1, c = 1 or -1) so that H H = 1
ApplyExp(n, ts, val, u, v) ==
  IF ts[1].h = 0 THEN ApplyExpC(n, ts, val, u, v)
  ELSE VAdd(VScale([k |-> 1, r |-> RC(u)], v),
            VScale([k |-> 1, r |-> RMul(RNeg(RI), RS(u))], ApplySum(n, ts, val, v)))

WordsCommute(w1, w2) ==
  \/ WordIsN(w1) /\ WordIsN(w2)
  \/ WordIsN(w1) /\ \A j \in 1..Len(w2) : w2[j][1] = "Z" \/ \A i \in 1..Len(w1) : w1[i][2] # w2[j][2]
  \/ WordIsN(w2) /\ \A j \in 1..Len(w1) : w1[j][1] = "Z" \/ \A i \in 1..Len(w2) : w2[i][2] # w1[j][2]
  \/ ~WordIsN(w1) /\ ~WordIsN(w2) /\
     Cardinality({p \in (1..Len(w1)) \X (1..Len(w2)) : w1[p[1]][2] = w2[p[2]][2] /\ w1[p[1]][1] # w2[p[2]][1]}) % 2 = 0

(*--------------------------- support and structure ------------------------*)
RECURSIVE Support(_), SupportSeq(_)
Support(b) == CASE b.t = "gate" -> {b.c[i] : i \in 1..Len(b.c)} \union {b.q[i] : i \in 1..Len(b.q)}
                [] OTHER -> SupportSeq(b.b)
SupportSeq(bs) == UNION {Support(bs[i]) : i \in 1..Len(bs)}
RECURSIVE Size(_), SizeSeq(_)
Size(b) == IF b.t = "gate" THEN 1 ELSE 1 + SizeSeq(b.b)
SizeSeq(bs) == IF bs = <<>> THEN 0 ELSE Size(bs[1]) + SizeSeq(Tail(bs))

Gate(g,c,q,e,d) == [t |-> "gate", g |-> g, c |-> c, q |-> q, e |-> e, d |-> d]
Fixed(g,c,q) == Gate(g,c,q,<<>>,<<>>)
Par(g,c,q,e) == Gate(g,c,q,e,<<>>)
Chain(bs) == [t |-> "chain", b |-> bs]
Kron(bs)  == [t |-> "kron",  b |-> bs]
Add(bs)   == [t |-> "add",   b |-> bs]
Dag(b) == [t |-> "dagger", b |-> <<b>>]
Scale(s,b) == [t |-> "scale", s |-> s, b |-> <<b>>]

(*-------------------------------- adjoint --------------------------------*)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
SelfAdjoint == {"I","X","Y","Z","H","N","Zero","CNOT","CZ","MCZ","Toffoli","SWAP","CSWAP"}
RECURSIVE Dagger(_)
Dagger(b) ==
  CASE b.t = "gate" ->
        (CASE b.g \in SelfAdjoint -> b
           [] b.g = "S" -> [b EXCEPT !.g = "SDagger"]
           [] b.g = "SDagger" -> [b EXCEPT !.g = "S"]
           [] b.g = "T" -> [b EXCEPT !.g = "TDagger"]
           [] b.g = "TDagger" -> [b EXCEPT !.g = "T"]
           [] b.g = "U" -> [b EXCEPT !.e = <<ENeg(b.e[3]), ENeg(b.e[2]), ENeg(b.e[1])>>]
           [] b.g = "Projector" -> [b EXCEPT !.d = <<b.d[2], b.d[1]>>]
           [] b.g = "Matrix" -> [b EXCEPT !.d = [r \in 1..Len(b.d) |-> [c \in 1..Len(b.d) |-> b.d[c][r]]]]
           [] OTHER -> [b EXCEPT !.e = [j \in 1..Len(b.e) |-> ENeg(b.e[j])]])
    [] b.t = "chain" -> Chain([i \in 1..Len(b.b) |-> Dagger(b.b[Len(b.b)+1-i])])
    [] b.t = "kron" -> Kron([i \in 1..Len(b.b) |-> Dagger(b.b[i])])
    [] b.t = "add" -> Add([i \in 1..Len(b.b) |-> Dagger(b.b[i])])
    [] b.t = "dagger" -> b.b[1]
    [] b.t = "scale" -> Scale(IF b.s.t = "num" THEN [t |-> "num", k |-> b.s.k, r |-> RConj(b.s.r)] ELSE b.s, Dagger(b.b[1]))
(*------------------------------- denotation ------------------------------*)
RECURSIVE Apply(_,_,_,_), ApplyChain(_,_,_,_), ApplyAdd(_,_,_,_)
Apply(n, b, val, v) ==
  CASE b.t = "gate" ->
        IF b.g = "HamEvo" THEN ApplyExp(n, b.d, val, Ev(b.e[1], val), v)
        ELSE ApplyMat(n, GateMat(b, [j \in 1..Len(b.e) |-> Ev(b.e[j], val)]), b.c, b.q, v)
    [] b.t = "chain" -> ApplyChain(n, b.b, val, v)
    [] b.t = "kron"  -> ApplyChain(n, b.b, val, v)
    [] b.t = "add"   -> ApplyAdd(n, b.b, val, v)
    [] b.t = "scale" -> VScale(EvScal(b.s, val), Apply(n, b.b[1], val, v))
    [] b.t = "dagger" -> Apply(n, Dagger(b.b[1]), val, v)
ApplyChain(n, bs, val, v) == IF bs = <<>> THEN v ELSE ApplyChain(n, Tail(bs), val, Apply(n, bs[1], val, v))
ApplyAdd(n, bs, val, v) == IF bs = <<>> THEN [k |-> 0, a |-> [i \in DOMAIN v.a |-> RZero]]
                           ELSE VAdd(Apply(n, bs[1], val, v), ApplyAdd(n, Tail(bs), val, v))

\* the operator denoted by a block, as its sequence of columns
Columns(n, b, val) == [j \in 1..Pow2(n) |-> VNorm(Apply(n, b, val, VBasis(n, j-1)))]
SameOp(n, b1, b2, val) == Columns(n,b1,val) = Columns(n,b2,val)
\* <i| B |j>
Entry(cols, i, j) == SNorm([k |-> cols[j+1].k, r |-> cols[j+1].a[i]])
IsAdjoint(n, b1, b2, val) ==
  LET c1 == Columns(n,b1,val)  c2 == Columns(n,b2,val)
  IN \A i, j \in 0..(Pow2(n)-1) : Entry(c1,i,j) = SConj(Entry(c2,j,i))
IsUnitary(n, b, val) ==
  LET c == Columns(n,b,val) IN
  \A i, j \in 1..Pow2(n) : VInner(c[i],c[j]) = IF i = j THEN SOne ELSE SZero
Expect(n, o, val, v) == VInner(v, Apply(n, o, val, v))

=============================================================================
