------------------------------- MODULE MCNoise -------------------------------
(***************************************************************************)
(* Noisy programs.  A session builds a circuit, attaches noise channels to *)
(* its gates by one of several routes, possibly transforms the program,    *)
(* and looks at the density matrix, at expectation values and at samples   *)
(* (with a faulty readout).                                                *)
(*                                                                         *)
(* A density matrix on NQ qubits is a vector on 2*NQ qubits: qubits        *)
(* 0..NQ-1 index its rows, NQ..2*NQ-1 its columns.                         *)
(***************************************************************************)
EXTENDS Menu
CONSTANTS Channels,     \* channels a gate may carry
          MaxPer,       \* how many channels on one gate at most
          Cfgs          \* <<route, transformation, readout>> combinations
VARIABLES ns,           \* channels chosen for the gates, in leaf order
          cfg           \* the rest of the session's choices
nvars == <<built, stack, fuel, batch, phase, ns, cfg>>
N2 == 2 * NQ
Obs == SubSeq(built, 2, Len(built))

(*------------------------------- channels --------------------------------*)
\* [c |-> name, p |-> <<integers>>, d |-> denominator exponent]: probabilities p / 2^d
Ch(c,p,d) == [c |-> c, p |-> p, d |-> d]
Sup(k, f(_,_)) == [k |-> k, m |-> [r \in 0..3 |-> [c \in 0..3 |-> f(r,c)]]]
Par4(r) == ((r \div 2) + r) % 2          \* row bit + column bit
Sgn(r) == IF Par4(r) = 1 THEN -1 ELSE 1
\* probabilities i,x,y,z over 2^d of the four Paulis
PauliSup(i,x,y,z,d) == Sup(2*d, LAMBDA r,c : IF r = c THEN RInt(i + Sgn(r)*z) ELSE IF r + c = 3 THEN RInt(x + Sgn(r)*y) ELSE RZero)
\* damping towards |to> at rate g = 1/2 (h = 1) or 3/4 (h = 2); sqrt(1-g) = 1/Sqrt2^h; weight w/4
DampEntry(to,h,r,c) ==      \* over Sqrt2^4 = 4
  LET g4 == IF h = 1 THEN 2 ELSE 3
      s  == IF h = 1 THEN RTimesSqrt2(RInt(2)) ELSE RInt(2)
      frm == 3 - 3*to
      t3  == 3*to
  IN IF r = c THEN (IF r = t3 THEN RInt(4) ELSE IF r = frm THEN RInt(4-g4) ELSE s)
     ELSE IF r = t3 /\ c = frm THEN RInt(g4) ELSE RZero
PDampEntry(h,r,c) == IF r # c THEN RZero ELSE IF Par4(r) = 0 THEN RInt(4) ELSE IF h = 1 THEN RTimesSqrt2(RInt(2)) ELSE RInt(2)
SupOf(ch) ==
  CASE ch.c = "BitFlip" -> PauliSup(Pow2(ch.d)-ch.p[1], ch.p[1], 0, 0, ch.d)
    [] ch.c = "PhaseFlip" -> PauliSup(Pow2(ch.d)-ch.p[1], 0, 0, ch.p[1], ch.d)
    [] ch.c = "Depolarizing" -> LET t == ch.p[1] \div 3 IN PauliSup(Pow2(ch.d)-ch.p[1], t, t, t, ch.d)
    [] ch.c = "PauliChannel" -> PauliSup(Pow2(ch.d)-ch.p[1]-ch.p[2]-ch.p[3], ch.p[1], ch.p[2], ch.p[3], ch.d)
    [] ch.c = "AmplitudeDamping" -> Sup(4, LAMBDA r,c : DampEntry(0, IF ch.d = 1 THEN 1 ELSE 2, r, c))
    [] ch.c = "PhaseDamping" -> Sup(4, LAMBDA r,c : PDampEntry(IF ch.d = 1 THEN 1 ELSE 2, r, c))
    \* p = <<weight of decay (over 4), rate (over 4)>>
    [] ch.c = "GeneralizedAmplitudeDamping" ->
         LET h == IF ch.p[2] = 2 THEN 1 ELSE 2 IN
         Sup(8, LAMBDA r,c : RAdd(RMul(RInt(ch.p[1]), DampEntry(0,h,r,c)), RMul(RInt(4-ch.p[1]), DampEntry(1,h,r,c))))
AllChannels == {Ch("BitFlip",<<1>>,2), Ch("BitFlip",<<1>>,0), Ch("PhaseFlip",<<1>>,2), Ch("PhaseFlip",<<1>>,1),
                Ch("Depolarizing",<<3>>,2), Ch("Depolarizing",<<3>>,3), Ch("PauliChannel",<<1,2,3>>,3), Ch("PauliChannel",<<2,1,0>>,2),
                Ch("AmplitudeDamping",<<1>>,1), Ch("AmplitudeDamping",<<3>>,2), Ch("PhaseDamping",<<1>>,1), Ch("PhaseDamping",<<3>>,2),
                Ch("GeneralizedAmplitudeDamping",<<3,2>>,2), Ch("GeneralizedAmplitudeDamping",<<1,3>>,2)}
KindChannels == {Ch("BitFlip",<<1>>,2), Ch("PhaseFlip",<<1>>,1), Ch("Depolarizing",<<3>>,3), Ch("PauliChannel",<<1,2,3>>,3), Ch("AmplitudeDamping",<<1>>,1), Ch("PhaseDamping",<<3>>,2), Ch("GeneralizedAmplitudeDamping",<<1,3>>,2)}
ChanLists == {<<>>} \union {<<c>> : c \in Channels} \union (IF MaxPer > 1 THEN Channels \X Channels ELSE {})

\* binary digits a list of channels adds to the entries: sessions stay within TLC's integers
Digits(ch) == IF ch.c = "GeneralizedAmplitudeDamping" THEN 4 ELSE IF ch.c \in {"AmplitudeDamping","PhaseDamping"} THEN 2 ELSE ch.d
RECURSIVE DigitsOf(_)
DigitsOf(cs) == IF cs = <<>> THEN 0 ELSE Digits(cs[1]) + DigitsOf(Tail(cs))
RECURSIVE DigitsAll(_)
DigitsAll(ls) == IF ls = <<>> THEN 0 ELSE DigitsOf(ls[1]) + DigitsAll(Tail(ls))
MaxDigits == 13
(*--------------------- gates and their noise, in order --------------------*)
RECURSIVE Annot(_,_,_), AnnotSeq(_,_,_)
\* number of leaves and the block with field ns on every gate, starting at leaf i
Annot(b, s, i) == IF b.t = "gate" THEN [b |-> [x \in DOMAIN b \union {"ns"} |-> IF x = "ns" THEN s[i] ELSE b[x]], i |-> i+1]
                  ELSE LET r == AnnotSeq(b.b, s, i) IN [b |-> [b EXCEPT !.b = r.b], i |-> r.i]
AnnotSeq(bs, s, i) == IF bs = <<>> THEN [b |-> <<>>, i |-> i]
                  ELSE LET h == Annot(bs[1], s, i)  t == AnnotSeq(Tail(bs), s, h.i) IN [b |-> <<h.b>> \o t.b, i |-> t.i]
RECURSIVE Leaves(_), LeavesSeq(_)
Leaves(b) == IF b.t = "gate" THEN <<b>> ELSE LeavesSeq(b.b)
LeavesSeq(bs) == IF bs = <<>> THEN <<>> ELSE Leaves(bs[1]) \o LeavesSeq(Tail(bs))
LeafCount == Len(Leaves(Block))

\* the route by which noise comes in: "gate" (constructor), "set" (all gates of a class get the list,
\* replacing what they had), "call", "config", "model" (all gates)
IsA(g, cls) == cls = "all" \/ g = cls \/ <<g,cls>> \in {<<"CRX","MCRX">>,<<"CRY","MCRY">>,<<"CRZ","MCRZ">>,<<"CPHASE","MCPHASE">>,<<"CZ","MCZ">>}
Effective(g) == IF cfg.r = "gate" \/ (cfg.r = "set" /\ ~IsA(g.g, cfg.cls)) THEN g.ns ELSE cfg.hs
Noisy == Annot(Block, ns, 1).b
\* transformations a program may go through before it runs
Program == CASE cfg.tr = "dagger" -> Dagger(Noisy) [] OTHER -> Noisy

(*------------------------------- semantics -------------------------------*)
RECURSIVE Shift(_)
Shift(b) == [b EXCEPT !.c = [i \in 1..Len(b.c) |-> b.c[i]+NQ], !.q = [i \in 1..Len(b.q) |-> b.q[i]+NQ]]
VConj(v) == [k |-> v.k, a |-> [i \in DOMAIN v.a |-> RConj(v.a[i])]]
OnBoth(g, val, rho) == VConj(Apply(N2, Shift(g), val, VConj(Apply(N2, g, val, rho))))
RECURSIVE ApplyChans(_,_,_)
ApplyChans(cs, q, rho) == IF cs = <<>> THEN rho
                          ELSE ApplyChans(Tail(cs), q, ApplyMat(N2, SupOf(cs[1]), <<>>, <<q, q+NQ>>, rho))
RECURSIVE RunSeq(_,_,_)
RunSeq(gs, val, rho) == IF gs = <<>> THEN rho
       ELSE RunSeq(Tail(gs), val, ApplyChans(Effective(gs[1]), gs[1].q[1], OnBoth(gs[1], val, rho)))
\* |psi><psi| for the initial state: a basis state, or an even superposition with a phase
Psi0 == IF cfg.psi[1] = cfg.psi[2] THEN VBasis(NQ, cfg.psi[1])
        ELSE [k |-> 1, a |-> [i \in 0..(Pow2(NQ)-1) |-> IF i = cfg.psi[1] THEN ROne ELSE IF i = cfg.psi[2] THEN RI ELSE RZero]]
Rho0 == [k |-> 2*Psi0.k, a |-> [i \in 0..(Pow2(N2)-1) |-> RMul(Psi0.a[i \div Pow2(NQ)], RConj(Psi0.a[i % Pow2(NQ)]))]]
Rho(val) == RunSeq(Leaves(Program), val, Rho0)
DiagIx(j) == j * Pow2(NQ) + j
Trace(rho) == SNorm([k |-> rho.k, r |-> RSum([j \in 0..(Pow2(NQ)-1) |-> rho.a[DiagIx(j)]], 0, Pow2(NQ)-1)])
ExpVal(o, val, rho) == Trace(Apply(N2, o, val, rho))
\* derivative in parameter p where only one-qubit rotations carry it: per occurrence, half the
\* difference of the values with that rotation advanced and set back by a quarter turn
PIdx == [x |-> 2, y |-> 3, a |-> 4, b |-> 5]
Bump(gs, i, d) == [gs EXCEPT ![i] = [@ EXCEPT !.e = <<[@[1] EXCEPT ![1] = @ + d]>>]]
Shiftable == \A i \in 1..LeafCount : Leaves(Program)[i].g \in {"RX","RY","RZ","PHASE"} \/ Leaves(Program)[i].e = <<>>
             \/ \A j \in 1..Len(Leaves(Program)[i].e) : \A k \in 2..5 : Leaves(Program)[i].e[j][k] = 0
RECURSIVE DSum(_,_,_,_,_)
DSum(gs, i, p, o, val) ==
  IF i = 0 THEN SZero
  ELSE LET c == IF gs[i].e = <<>> THEN 0 ELSE gs[i].e[1][PIdx[p]] IN
       IF c = 0 THEN DSum(gs, i-1, p, o, val)
       ELSE SAdd(DSum(gs, i-1, p, o, val),
                 SMul([k |-> 2, r |-> RInt(c)], SSub(ExpVal(o,val,RunSeq(Bump(gs,i,2),val,Rho0)), ExpVal(o,val,RunSeq(Bump(gs,i,-2),val,Rho0)))))
(*-------------------------------- readout --------------------------------*)
\* confusion of qubit q: probability over 8 of reading o when the bit is i
Conf(q, o, i) == LET a == 8 - ((q % 3) + 1)  b == ((2*q) % 5) + 1      \* P(0|0), P(0|1)
                 IN IF o = 0 THEN (IF i = 0 THEN a ELSE b) ELSE (IF i = 0 THEN 8-a ELSE 8-b)
RECURSIVE ConfProd(_,_,_)
ConfProd(o, i, q) == IF q < 0 THEN 1 ELSE Conf(q, Bit(NQ,o,q), Bit(NQ,i,q)) * ConfProd(o, i, q-1)
Corr(o, i) == IF o = i THEN 5 ELSE IF o = (i+1) % Pow2(NQ) THEN 3 ELSE 0     \* over 8
ReadEntry(o,i) == CASE cfg.ro = "none" -> (IF o = i THEN 1 ELSE 0) [] cfg.ro = "independent" -> ConfProd(o,i,NQ-1) [] cfg.ro = "correlated" -> Corr(o,i)
ReadDen == CASE cfg.ro = "none" -> 0 [] cfg.ro = "independent" -> 6*NQ [] cfg.ro = "correlated" -> 6
Probs(rho) == [j \in 0..(Pow2(NQ)-1) |-> SNorm([k |-> rho.k, r |-> rho.a[DiagIx(j)]])]
ReadProbs(rho) == LET p == Probs(rho) IN [o \in 1..Pow2(NQ) |->
    LET RECURSIVE S(_)
        S(i) == IF i < 0 THEN SZero ELSE SAdd(SMul(SInt(ReadEntry(o-1,i)), p[i]), S(i-1))
        s == S(Pow2(NQ)-1)
    IN SNorm([k |-> s.k + ReadDen, r |-> s.r])]

(*------------------------------ the session ------------------------------*)
AllCfgs == {<<"gate",t,o>> : t \in {"none","flatten","serial","invert","dagger","copy","modelserial"}, o \in {"none"}}
        \union {<<"set",t,"none">> : t \in {"none","flatten","serial","invert"}}
        \union {<<r,"none",o>> : r \in {"call","config","model"}, o \in {"none","independent","correlated"}}
FewCfgs == {<<"gate","none","independent">>, <<"gate","dagger","none">>, <<"set","none","correlated">>, <<"call","none","none">>}
NoCfg == [r |-> "", cls |-> "", hs |-> <<>>, tr |-> "", ro |-> "", psi |-> <<0,0>>, m |-> 0]
Classes == {"all"} \union {Leaves(Block)[i].g : i \in 1..LeafCount}
Basis == 0..(Pow2(NQ)-1)
\* the adjoint of T cannot be run (a listed finding of another property)
HasT == \E i \in 1..LeafCount : Leaves(Block)[i].g = "T"
Choose == /\ Done /\ cfg = NoCfg
          /\ \E c \in Pick({x \in Cfgs : HasT => x[2] # "dagger"}), cl \in Pick(Classes), h \in Pick({l \in ChanLists : DigitsOf(l) * LeafCount <= MaxDigits}), q1 \in Pick(Basis), q2 \in Pick(Basis), zero \in (IF Sim THEN Pick({TRUE,FALSE}) ELSE {FALSE}), m \in (IF Sim THEN Pick(0..5) ELSE {0}) :
               cfg' = [r |-> c[1], cls |-> IF c[1] = "set" THEN cl ELSE "all", hs |-> IF c[1] \in {"call","config","model"} /\ h = <<>> THEN <<Ch("BitFlip",<<1>>,0)>> ELSE h,
                       tr |-> c[2], ro |-> c[3], psi |-> IF zero THEN <<0,0>> ELSE <<q1,q2>>, m |-> m]
          /\ UNCHANGED <<built, stack, fuel, batch, phase, ns>>
Attach == /\ Done /\ cfg # NoCfg /\ Len(ns) < LeafCount
          /\ \E l \in Pick(IF cfg.r \in {"gate","set"} THEN {x \in ChanLists : DigitsOf(x) + DigitsAll(ns) + (IF cfg.r = "set" THEN DigitsOf(cfg.hs) * LeafCount ELSE 0) <= MaxDigits} ELSE {<<>>}) : ns' = Append(ns, l)
          /\ UNCHANGED <<built, stack, fuel, batch, phase, cfg>>
Ready == Done /\ cfg # NoCfg /\ Len(ns) = LeafCount
RECURSIVE RevIx(_,_)
RevIx(i, q) == IF q = NQ THEN 0 ELSE Bit(NQ,i,q) * Pow2(q) + RevIx(i, q+1)
Emit == /\ Sim /\ Ready /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch, ns, cfg>>
        /\ LET R == [i \in 1..Len(batch) |-> Rho(batch[i])] IN
           PrintT("@@" \o ToJson([n |-> NQ, block |-> Block, obs |-> Obs, batch |-> batch, ns |-> ns, cfg |-> cfg,
              psi |-> VOut(Psi0), rho |-> [i \in 1..Len(batch) |-> VOut(R[i])],
              vals |-> [i \in 1..Len(batch) |-> [o \in 1..Len(Obs) |-> ExpVal(Obs[o], batch[i], R[i])]],
              grads |-> IF Shiftable THEN [i \in 1..Len(batch) |-> [p \in {"x","y","a","b"} |-> DSum(Leaves(Program), LeafCount, p, Obs[1], batch[i])]] ELSE <<>>,
              conf |-> [q \in 1..NQ |-> <<<<Conf(q-1,0,0),Conf(q-1,0,1)>>,<<Conf(q-1,1,0),Conf(q-1,1,1)>>>>],
              corr |-> [o \in 1..Pow2(NQ) |-> [i \in 1..Pow2(NQ) |-> Corr(o-1,i-1)]],
              rev |-> [j \in 1..Pow2(NQ) |-> RevIx(j-1,0)],
              probs |-> [i \in 1..Len(batch) |-> ReadProbs(R[i])]]))
NInit == Init /\ ns = <<>> /\ cfg = NoCfg
Next == (BuildNext /\ UNCHANGED <<ns,cfg>>) \/ Choose \/ Attach \/ Emit
Spec == NInit /\ [][Next]_nvars

(*---- meta-properties: states stay states ----*)
TraceInv == Ready => \A i \in 1..Len(batch) : Trace(Rho(batch[i])) = SOne
HermInv == Ready => \A i \in 1..Len(batch) : LET r == Rho(batch[i]) IN
             \A x, y \in Basis : r.a[x*Pow2(NQ)+y] = RConj(r.a[y*Pow2(NQ)+x])
\* without noise the state is the pure one
PureInv == Ready /\ (\A i \in 1..LeafCount : Effective(Leaves(Program)[i]) = <<>>) =>
             \A j \in 1..Len(batch) : LET v == Apply(NQ, Program, batch[j], Psi0) IN
               VEq(Rho(batch[j]), [k |-> 2*v.k, a |-> [i \in 0..(Pow2(N2)-1) |-> RMul(v.a[i \div Pow2(NQ)], RConj(v.a[i % Pow2(NQ)]))]])
RECURSIVE SSum(_,_)
SSum(f, k) == IF k = 0 THEN SZero ELSE SAdd(f[k], SSum(f, k-1))
ReadInv == Ready => \A i \in 1..Len(batch) : SSum(ReadProbs(Rho(batch[i])), Pow2(NQ)) = SOne
\* diagonal entries are non-negative probabilities: real
DiagInv == Ready => \A i \in 1..Len(batch) : \A j \in Basis : SIsReal(Probs(Rho(batch[i]))[j])
=============================================================================
