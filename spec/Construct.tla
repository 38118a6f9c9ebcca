------------------------------ MODULE Construct ------------------------------
(* What the constructors of circuits build: ansaetze, feature maps, Hamiltonians *)
(* and the Fourier transform, as blocks of the syntax of Circuit.  Parameters    *)
(* get their values here: the k-th parameter of a family has the angle Ang, and  *)
(* the list of parameters used is part of a construction.                        *)
EXTENDS Circuit
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Range(a, b, s) == IF b < a THEN <<>> ELSE [i \in 1..(((b - a) \div s) + 1) |-> a + (i-1)*s]
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
\* the value of the k-th parameter of a family, in units of Pi/4, even
Ang(sd, fam, k) == 2 * ((sd + 3*fam + k + (k \div 2) + (k \div 5)) % 4)
Odd(sd, k) == (sd + 3*k) % 8
OfTurn == {"RX","RY","RZ","CRX","CRY","CRZ"}
Constant == {"CNOT","CZ"}

(*----------------------- hardware-efficient ansatz ------------------------*)
\* c: [n, depth, sup, ops, ent, per, strat, m, sd]
RotIx(c, d, o, q) == (d * Len(c.ops) + (o-1)) * c.n + (q-1)
RotLayer(c, d) == Flat([o \in 1..Len(c.ops) |-> [q \in 1..c.n |-> Par(c.ops[o], <<>>, <<c.sup[q]>>, <<EConst(Ang(c.sd, 0, RotIx(c,d,o,q)))>>)]])
RotPars(c, d) == Flat([o \in 1..Len(c.ops) |-> [q \in 1..c.n |-> [f |-> "rot", l |-> d, i |-> RotIx(c,d,o,q), v |-> Ang(c.sd, 0, RotIx(c,d,o,q))]]])
\* the pairs entangled in a layer, in order: positions on the support
HeaPairs(c) == Map(LAMBDA i : <<i, i+1>>, Range(0, c.n - 2, 2))
               \o (IF c.n > 2 THEN Map(LAMBDA i : <<i, (i+1) % c.n>>, Range(1, IF c.per THEN c.n - 1 ELSE c.n - 2, 2)) ELSE <<>>)
AlaSub(c, d, sj) == LET s == IF d % 2 = 0 THEN 0 ELSE (-c.m) \div 2 IN
   Flat(Map(LAMBDA j : Map(LAMBDA i : <<i+j, i+j+1>>, SelectSeq(Range(s, c.n - 1, c.m), LAMBDA i : i+j+1 < c.n /\ j+1 < c.m /\ i+j >= 0)), Range(sj, c.m - 1, 2)))
AlaPairs(c, d) == AlaSub(c, d, 0) \o (IF c.m > 2 THEN AlaSub(c, d, 1) ELSE <<>>)
LayerPairs(c, d) == IF c.kind = "ala" THEN AlaPairs(c, d) ELSE HeaPairs(c)
RECURSIVE EntBase(_,_)
EntBase(c, d) == IF d = 0 THEN 0 ELSE EntBase(c, d-1) + Len(LayerPairs(c, d-1))
EntGate(g, cq, tq, u) == IF g \in Constant THEN Fixed(g, <<cq>>, <<tq>>) ELSE Par(g, <<cq>>, <<tq>>, <<EConst(u)>>)
EntLayer(c, d) == LET ps == LayerPairs(c, d)  b == EntBase(c, d) IN
   [j \in 1..Len(ps) |-> EntGate(c.ent, c.sup[ps[j][1]+1], c.sup[ps[j][2]+1], Ang(c.sd, 1, b+j-1))]
EntPars(c, d) == LET ps == LayerPairs(c, d)  b == EntBase(c, d) IN
   IF c.ent \in Constant THEN <<>> ELSE [j \in 1..Len(ps) |-> [f |-> "ent", l |-> d, i |-> b+j-1, v |-> Ang(c.sd, 1, b+j-1)]]
\* analog entanglers: evolution under couplings of all pairs (NN: number operators)
AllPairsSeq(n) == Flat([a \in 1..n |-> Map(LAMBDA b : <<a-1, b>>, Range(a, n-1, 1))])
PairWord(P, p) == <<<<P, p[1]>>, <<P, p[2]>>>>
GenTerms(gen, n) == IF gen = "N1" THEN [q \in 1..n |-> [c |-> q, h |-> 0, p |-> "", w |-> <<<<"Z", q-1>>>>]]
                    ELSE Map(LAMBDA p : [c |-> IF gen = "ZZ" THEN 1 + p[1] ELSE 1, h |-> 0, p |-> "", w |-> PairWord(IF gen = "ZZ" THEN "Z" ELSE "N", p)], AllPairsSeq(n))
EvoTime(c, d) == Odd(c.sd, d + 1)
AnalogLayer(c, d) == <<Gate("HamEvo", <<>>, [q \in 1..c.n |-> q-1], <<EConst(EvoTime(c,d))>>, GenTerms(c.ent, c.n))>>
Layered(c) == Chain(Flat([d \in 1..c.depth |-> RotLayer(c, d-1) \o (IF c.strat = "sdaqc" THEN AnalogLayer(c, d-1) ELSE EntLayer(c, d-1))]))
LayeredPars(c) == Flat([d \in 1..c.depth |-> RotPars(c, d-1) \o (IF c.strat = "sdaqc" THEN <<[f |-> "t", l |-> d-1, i |-> d-1, v |-> EvoTime(c,d-1)]>> ELSE EntPars(c, d-1))])

(*----------------------- identity-initialised ansatz ----------------------*)
IiaPairs(c) == Map(LAMBDA i : <<i, (i+1) % c.n>>, Range(0, IF c.per THEN c.n - 1 ELSE c.n - 2, 1))
IiaIx(c, o, q) == (q-1) + c.n * (o-1)
IiaSide(c, l, side) == LET os == IF side = 0 THEN Range(1, Len(c.ops), 1) ELSE Reverse(Range(1, Len(c.ops), 1)) IN
   Flat(Map(LAMBDA o : [q \in 1..c.n |-> Par(c.ops[o], <<>>, <<q-1>>, <<EConst(Ang(c.sd, 2 + side + l, IiaIx(c,o,q)))>>)], os))
IiaEnt(c, l) == IF c.strat = "sdaqc" THEN <<Gate("HamEvo", <<>>, [q \in 1..c.n |-> q-1], <<EConst(EvoTime(c,l))>>, GenTerms(c.ent, c.n))>>
   ELSE LET ps == IiaPairs(c) IN [j \in 1..Len(ps) |-> EntGate(c.ent, ps[j][1], ps[j][2], Ang(c.sd, 4 + l, j-1))]
IiaLayer(c, l) == IiaSide(c,l,0) \o IiaEnt(c,l) \o [q \in 1..c.n |-> Par("RX", <<>>, <<q-1>>, <<EConst(Ang(c.sd, 6, l + q))>>)] \o Reverse(IiaEnt(c,l)) \o IiaSide(c,l,1)
Iia(c) == Chain(Flat([l \in 1..c.depth |-> IiaLayer(c, l-1)]))
IiaLayerPars(c, l) ==
   Flat([s \in 1..2 |-> Flat([o \in 1..Len(c.ops) |-> [q \in 1..c.n |-> [f |-> IF s = 1 THEN "alpha" ELSE "beta", l |-> l, i |-> IiaIx(c,o,q), v |-> Ang(c.sd, 1 + s + l, IiaIx(c,o,q))]]])])
   \o [q \in 1..c.n |-> [f |-> "gamma", l |-> l, i |-> q-1, v |-> Ang(c.sd, 6, l + q)]]
   \o (IF c.strat = "sdaqc" THEN <<[f |-> "tent", l |-> l, i |-> l, v |-> EvoTime(c,l)]>>
       ELSE IF c.ent \in Constant THEN <<>> ELSE [j \in 1..Len(IiaPairs(c)) |-> [f |-> "eta", l |-> l, i |-> j-1, v |-> Ang(c.sd, 4 + l, j-1)]])
IiaPars(c) == Flat([l \in 1..c.depth |-> IiaLayerPars(c, l-1)])
\* with opposite rotations and no other angle a layer is the identity
IiaStart(c, l) == LET neg(gs) == Map(LAMBDA g : [g EXCEPT !.e = <<ENeg(g.e[1])>>], gs)
                      still(gs) == Map(LAMBDA g : IF g.e = <<>> THEN g ELSE [g EXCEPT !.e = <<EConst(0)>>], gs)
                  IN IiaSide(c,l,0) \o still(IiaEnt(c,l)) \o Reverse(still(IiaEnt(c,l))) \o neg(Reverse(IiaSide(c,l,0)))

Ansatz(c) == IF c.kind = "iia" THEN Iia(c) ELSE Layered(c)
AnsatzPars(c) == IF c.kind = "iia" THEN IiaPars(c) ELSE LayeredPars(c)

(*------------------------------- feature maps ------------------------------*)
\* the factor of the i-th upload (from 0)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k-1)
Upload(rs, i) == CASE rs = "CONSTANT" -> 1 [] rs = "TOWER" -> i + 1 [] rs = "EXP" -> P2(i) [] rs = "alt" -> 1 - 2*(i % 2) [] rs = "lin" -> 3*i + 1
\* f: [fr |-> <<lo,hi>>, tr |-> <<lo,hi>>] ranges; a feature is mapped linearly
ScaledOk(f, x) == ((f.tr[2] - f.tr[1]) * (x - f.fr[1])) % (f.fr[2] - f.fr[1]) = 0
Scaled(f, x) == f.tr[1] + ((f.tr[2] - f.tr[1]) * (x - f.fr[1])) \div (f.fr[2] - f.fr[1])
\* the transformed feature; for the Chebyshev basis x is the arc cosine of the scaled feature
\* and the trainable factor t is a sign
Transformed(f, x, t) == CASE f.basis = "FOURIER" -> t * Scaled(f, x)
                          [] f.basis = "CHEBYSHEV" -> IF t = 1 THEN x ELSE 4 - x
                          [] f.basis = "lin2" -> 2 * t * Scaled(f, x) + 2
                          [] f.basis = "neg" -> -(t * Scaled(f, x))
Train(f, i) == IF ~f.train THEN 1 ELSE IF f.basis = "CHEBYSHEV" THEN 1 - 2*((f.sd + i) % 2) ELSE <<1,3,-1,2>>[((f.sd + i) % 4) + 1]
FmAngle(f, x, i) == f.mult * Upload(f.rs, i) * Transformed(f, x, Train(f, i))
FmGates(f, sup, x) == [i \in 1..Len(sup) |-> Par(f.op, <<>>, <<sup[i]>>, <<EConst(FmAngle(f, x, i-1))>>)]
FmOk(f, k, x) == (f.basis = "CHEBYSHEV" \/ ScaledOk(f, x)) /\ (f.op # "PHASE" => \A i \in 0..(k-1) : FmAngle(f, x, i) % 2 = 0)
FmPars(f, k) == (IF f.train THEN [i \in 1..k |-> [f |-> "train", l |-> 0, i |-> i-1, v |-> Train(f, i-1)]] ELSE <<>>)

(*-------------------------------- Hamiltonians -----------------------------*)
HNum(c) == [t |-> "num", k |-> 2, r |-> RInt(c)]           \* halves
Word1(P, q) == Fixed(P, <<>>, <<q>>)
Inter(ty, a, b) == LET pair(P) == Kron(<<Word1(P,a), Word1(P,b)>>) IN
   CASE ty = "ZZ" -> pair("Z") [] ty = "NN" -> pair("N") [] ty = "XY" -> Add(<<pair("X"), pair("Y")>>)
     [] ty = "XYZ" -> Add(<<pair("X"), pair("Y"), pair("Z")>>)
     [] ty = "custom" -> Add(<<Kron(<<Word1("X",a), Word1("Z",b)>>), Scale([t |-> "num", k |-> 0, r |-> RInt(-2)], Word1("Y",b))>>)
     [] ty = "ising" -> IF a = 0 THEN Add(<<pair("Z"), Word1("Z",b)>>) ELSE IF a = 1 /\ b = 2 THEN Add(<<pair("Z"), Word1("Z",0)>>) ELSE pair("Z")
\* h: [det |-> "" or Pauli, int |-> "" or type, dw |-> qubit -> halves, iw |-> list of [p, v]]
HamTerms(h, n) == (IF h.det = "" THEN <<>> ELSE [q \in 1..n |-> Scale(HNum(h.dw[q]), Word1(h.det, q-1))])
                  \o (IF h.int = "" THEN <<>> ELSE Map(LAMBDA e : Scale(HNum(e.v), Inter(h.int, e.p[1], e.p[2])), h.iw))
Ham(h, n) == Add(HamTerms(h, n))

(*----------------------------- Fourier transform ---------------------------*)
RECURSIVE RevBits(_,_)
RevBits(k, j) == IF k = 0 THEN 0 ELSE (j % 2) * P2(k-1) + RevBits(k-1, j \div 2)
\* f: [n, sup, inv, rev, swaps]; the amplitude of |row> in the image of |col> is
\* exp(2 Pi i e / 2^n) / Sqrt(2^n), with e = -1 for zero amplitude
Order(f) == IF f.rev THEN Reverse(f.sup) ELSE f.sup
QftExp(f, tot, row, col) ==
  LET o == Order(f)  j == LocalIx(tot, row, o)  k == LocalIx(tot, col, o)
      rest == SetLocal(tot, row, o, k) = col        \* the other qubits are left alone
      out(z) == IF f.swaps THEN z ELSE RevBits(f.n, z)
  IN IF ~rest THEN -1 ELSE IF f.inv THEN (P2(f.n) - ((out(k) * j) % P2(f.n))) % P2(f.n) ELSE (out(j) * k) % P2(f.n)
QftTable(f, tot) == [r \in 1..P2(tot) |-> [c \in 1..P2(tot) |-> QftExp(f, tot, r-1, c-1)]]
\* the circuit of Hadamards and controlled phases (up to three qubits have angles in the units)
QftLayer(f, l) == LET o == Order(f) IN <<Fixed("H", <<>>, <<o[l]>>)>> \o Map(LAMBDA j : Par("CPHASE", <<o[j]>>, <<o[l]>>, <<EConst(8 \div P2(j - l + 1))>>), Range(l+1, f.n, 1))
QftSwaps(f) == LET o == Order(f) IN IF f.swaps THEN Map(LAMBDA i : Fixed("SWAP", <<>>, <<o[i+1], o[f.n - i]>>), Range(0, (f.n \div 2) - 1, 1)) ELSE <<>>
QftCircuit(f) == LET g == Chain(Flat([l \in 1..f.n |-> QftLayer(f, l)]) \o QftSwaps(f)) IN IF f.inv THEN Dagger(g) ELSE g
QftAmp(f, e) == IF e < 0 THEN [k |-> 0, r |-> RZero] ELSE SNorm([k |-> f.n, r |-> RW(e * (8 \div P2(f.n)))])
==============================================================================
