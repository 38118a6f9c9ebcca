------------------------------ MODULE MCAnalog ------------------------------
(***************************************************************************)
(* Analog programs on a register of interacting qubits.  A session chooses *)
(* a register, a device (interaction, Rydberg level, addressing pattern),  *)
(* a sequence of analog rotations, free evolutions and digital gates and   *)
(* parameter values.  The specification turns every analog block into the  *)
(* Hamiltonians it is the evolution of (and their duration):               *)
(*   H = sum_i [ Om/2 (cos(ph) X_i - sin(ph) Y_i) - de N_i ]  + H_int      *)
(*       + sum_i [ A/2 wa_i X_i + |D| wd_i N_i ]                           *)
(* A coefficient is [n,d |-> rational, pi |-> power of Pi, s |-> ring      *)
(* scalar, r2 |-> squared distance of a pair or <<0,1>>].  Times are in    *)
(* microseconds, [n,d,pi].                                                 *)
(***************************************************************************)
EXTENDS Circuit, Lattice, Json
CONSTANTS Lats, Spacings, Devs, Batches, MaxSegs, Sim
VARIABLES lat, sp, dev, batch, prog, phase
avars == <<lat, sp, dev, batch, prog, phase>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
N == Len(lat.pts)
Qs == 0..(N-1)
All == [i \in 1..N |-> i-1]

\* registers
AllLats == {Line(1), Line(2), Line(3), Tri(1,1), Rect(2,2), Free(<< <<0,0>>, <<2,1>>, <<-1,4>> >>), Free(<< <<0,0>>, <<4,3>> >>), Free(<< <<0,0>>, <<2,0>>, <<11,2>> >>), Free(<< <<0,0>>, <<9,-3>>, <<1,1>>, <<-2,0>> >>), Free(<< <<1,-2>>, <<3,0>>, <<0,5>>, <<-2,-1>> >>)}
FewLats == {Line(1), Line(2), Free(<< <<0,0>>, <<2,1>>, <<-1,4>> >>)}
Dist2(i,j) == LET g == MinD2(lat) IN <<sp[1]*sp[1]*D2(lat,i,j), sp[2]*sp[2]*g>>
\* devices; weights in quarters, amplitudes in halves
NoPat == [on |-> FALSE, wa |-> <<0,0,0,0>>, wd |-> <<0,0,0,0>>, amp |-> 0, det |-> 0]
Pat(wa,wd,amp,det) == [on |-> TRUE, wa |-> wa, wd |-> wd, amp |-> amp, det |-> det]
Dev(i,l,p) == [int |-> i, lvl |-> l, pat |-> p]
AllDevs == {Dev("NN",60,NoPat), Dev("NN",50,NoPat), Dev("NN",70,NoPat), Dev("XY",60,NoPat),
            Dev("NN",60,Pat(<<1,2,0,3>>,<<2,0,1,4>>,4,21)), Dev("NN",55,Pat(<<3,1,4,0>>,<<0,1,2,3>>,9,6)), Dev("XY",60,Pat(<<0,1,3,2>>,<<1,0,4,2>>,5,11))}
FewDevs == {Dev("NN",60,NoPat), Dev("XY",60,NoPat), Dev("NN",60,Pat(<<1,2,0,3>>,<<2,0,1,4>>,4,21))}

(*------------------------------ Hamiltonians ------------------------------*)
Coef(n,d,pi,s) == [n |-> n, d |-> d, pi |-> pi, s |-> s, r2 |-> <<0,1>>]
TermOf(w,c) == [w |-> w, c |-> c]
COS(u) == SNorm([k |-> 1, r |-> RC(u)])
SIN(u) == SNorm([k |-> 1, r |-> RS(u)])
FlatS(S, f(_)) == LET RECURSIVE F(_) F(k) == IF k > Len(S) THEN <<>> ELSE f(S[k]) \o F(k+1) IN F(1)
\* Om = on/od * Pi^op, de = dn/dd * Pi^dp, phase in units of Pi/4
Drive(sup, on, od, op, dn, dd, dp, ph) == FlatS(sup, LAMBDA q :
   << TermOf(<< <<"X",q>> >>, Coef(on, 2*od, op, COS(ph))), TermOf(<< <<"Y",q>> >>, Coef(-on, 2*od, op, SIN(ph))), TermOf(<< <<"N",q>> >>, Coef(-dn, dd, dp, SOne)) >>)
Pair(i,j) == LET c == [Coef(1,1,0,SOne) EXCEPT !.r2 = Dist2(i,j)] IN
   IF dev.int = "NN" THEN << TermOf(<< <<"N",i>>, <<"N",j>> >>, c) >>
   ELSE << TermOf(<< <<"X",i>>, <<"X",j>> >>, c), TermOf(<< <<"Y",i>>, <<"Y",j>> >>, c) >>
Interact == FlatS(PairSeq(lat), LAMBDA p : Pair(p[1],p[2]))
\* a pattern acts on a qubit as long as the local limit (amplitude 3, detuning 2 Pi 20) is respected
PatTerms == IF ~dev.pat.on THEN <<>> ELSE FlatS(All, LAMBDA q : LET wa == dev.pat.wa[q+1]  wd == dev.pat.wd[q+1] IN
   (IF wa > 0 /\ dev.pat.amp * wa < 24 THEN << TermOf(<< <<"X",q>> >>, Coef(dev.pat.amp*wa, 16, 0, SOne)) >> ELSE <<>>)
   \o (IF wd > 0 THEN << TermOf(<< <<"N",q>> >>, Coef(dev.pat.det*wd, 8, 0, SOne)) >> ELSE <<>>))
Background(b) == Interact \o (IF b.pat THEN PatTerms ELSE <<>>)

(*-------------------------------- programs --------------------------------*)
Exprs == {EConst(2), EConst(3), <<0,1,0,0,0>>, <<1,2,0,0,0>>, <<2,0,0,1,0>>, <<0,1,0,1,0>>}
Supp(b) == IF b.sup = <<>> THEN All ELSE b.sup
Rot(g,e,sup,pat) == [t |-> g, e |-> e, sup |-> sup, pat |-> pat, du |-> 0, om |-> 0, omp |-> "", de |-> 0, ph |-> 0]
Gen(du,om,omp,de,ph,sup,pat) == [t |-> "rot", e |-> EConst(0), sup |-> sup, pat |-> pat, du |-> du, om |-> om, omp |-> omp, de |-> de, ph |-> ph]
Wait(du,sup,pat) == [t |-> "wait", e |-> EConst(0), sup |-> sup, pat |-> pat, du |-> du, om |-> 0, omp |-> "", de |-> 0, ph |-> 0]
Kro(bs) == [t |-> "kron", b |-> bs]
Dig(b) == [t |-> "dig", b |-> b]
Time(n,d,pi) == [n |-> n, d |-> d, pi |-> pi]
\* what a block is the evolution of, for a valuation; dt: derivative of the time in x and a, dh: Hamiltonian derivative in x
Seg(h, t, dx, da, hx) == [h |-> h, t |-> t, dx |-> dx, da |-> da, hx |-> hx]
Segment(b, val) ==
  IF b.t = "wait" THEN Seg(Background(b), Time(b.du,1000,0), 0, 0, <<>>)
  ELSE IF b.t = "rot"
    THEN LET op == IF b.omp = "" THEN 0 ELSE 1
             on == IF b.omp = "" THEN b.om ELSE val[b.omp]
             od == IF b.omp = "" THEN 2 ELSE 4
         IN Seg(Background(b) \o Drive(Supp(b), on, od, op, b.de, 2, 0, b.ph), Time(b.du,1000,0), 0, 0,
                IF b.omp = "x" THEN Drive(Supp(b), 1, 1, 0, 0, 1, 0, b.ph) ELSE <<>>)
    \* rotations by an angle: Om = Pi (or de = Pi), duration angle/Pi
    ELSE Seg(Background(b) \o (IF b.t = "rz" THEN Drive(Supp(b),0,1,0,1,1,1,0) ELSE Drive(Supp(b),1,1,1,0,1,0,IF b.t = "rx" THEN 0 ELSE -2)),
             Time(Ev(b.e,val),4,0), b.e[2], b.e[4], <<>>)
DigSeg(b, val) == LET c == Columns(N, b.b, val) IN [cols |-> [j \in 1..Len(c) |-> VOut(c[j])]]
\* local blocks next to each other are applied one after the other, each with the interaction;
\* free evolutions among them are part of those evolutions, and one evolution when alone
RECURSIVE Unfold(_,_)
Unfold(p, val) == IF p = <<>> THEN <<>> ELSE
   (LET b == p[1] IN IF b.t = "dig" THEN << [g |-> TRUE, s |-> DigSeg(b,val)] >>
    ELSE IF b.t # "kron" THEN << [g |-> FALSE, s |-> Segment(b,val)] >>
    ELSE LET rs == SelectSeq(b.b, LAMBDA x : x.t # "wait") IN
         IF rs = <<>> THEN << [g |-> FALSE, s |-> Segment(b.b[1],val)] >> ELSE [i \in 1..Len(rs) |-> [g |-> FALSE, s |-> Segment(rs[i],val)]]) \o Unfold(Tail(p), val)

(*-------------------------------- sessions --------------------------------*)
Choose == phase = "new" /\ \E l \in Pick(Lats), s \in Pick(Spacings), d \in Pick(Devs), bt \in Pick(Batches) :
            lat' = l /\ sp' = s /\ dev' = d /\ batch' = bt /\ prog' = <<>> /\ phase' = "build"
Push(b) == prog' = Append(prog, b) /\ UNCHANGED <<lat, sp, dev, batch, phase>>
Building == phase = "build" /\ Len(prog) < MaxSegs
PatOpts == IF dev.pat.on THEN {TRUE, FALSE} ELSE {TRUE}
Locals == {<<q>> : q \in Qs} \union (IF N > 2 THEN {p \in Qs \X Qs : p[1] # p[2]} ELSE {})
Gens(du, sup) == {Gen(du,om[1],om[2],de,ph,sup,p) : om \in {<<0,"">>,<<3,"">>,<<6,"">>,<<0,"x">>}, de \in {0,5,-2}, ph \in {0,1,2,-3}, p \in PatOpts}
Valid(b) == b.t # "rot" \/ b.om # 0 \/ b.omp # "" \/ b.de # 0
PushGlobal == Building /\ \E g \in {"rx","ry","rz"}, e \in Pick(Exprs), p \in Pick(PatOpts) : Push(Rot(g,e,<<>>,p))
PushGen == Building /\ \E du \in Pick({100,350,1000,4000}) : \E b \in Pick({x \in Gens(du,<<>>) : Valid(x)}) : Push(b)
PushWait == Building /\ \E du \in Pick({150,700,3000}), p \in Pick(PatOpts) : Push(Wait(du,<<>>,p))
PushLocal == Building /\ \E s \in Pick(Locals), g \in Pick({"rx","ry","rz"}), e \in Pick(Exprs), p \in Pick(PatOpts) : Push(Kro(<<Rot(g,e,s,p)>>))
PushKron == Building /\ N > 1 /\ \E q \in Pick({p \in Qs \X Qs : p[1] # p[2]}), e \in Pick(Exprs), g1 \in Pick({"rx","ry","rz"}), g2 \in Pick({"rx","ry","rz"}) :
               Push(Kro(<<Rot(g1,e,<<q[1]>>,TRUE), Rot(g2,e,<<q[2]>>,TRUE)>>))
PushKron2 == Building /\ N > 1 /\ \E q \in Pick({p \in Qs \X Qs : p[1] # p[2]}), du \in Pick({250,600}) : \E b \in Pick({x \in Gens(du,<<q[1]>>) : Valid(x)}) :
               \E o \in {0,1,2} : Push(Kro(CASE o = 0 -> <<b, Wait(du,<<q[2]>>,TRUE)>> [] o = 1 -> <<Wait(du,<<q[1]>>,TRUE), Wait(du,<<q[2]>>,TRUE)>>
                                            [] o = 2 -> <<[b EXCEPT !.sup = <<q[2]>>], [b EXCEPT !.ph = 1]>>))
PushDig == Building /\ \E q \in Pick(Qs) : \E g \in {"X","H","S"} : Push(Dig(Fixed(g,<<>>,<<q>>)))
PushDigR == Building /\ \E q \in Pick(Qs), e \in Pick({EConst(2), <<0,2,0,0,0>>, <<0,0,0,2,0>>}) : Push(Dig(Par("RY",<<>>,<<q>>,<<e>>)))
PushDigC == Building /\ N > 1 /\ \E q \in Pick({p \in Qs \X Qs : p[1] # p[2]}) : Push(Dig(Fixed("CNOT",<<q[1]>>,<<q[2]>>)))
Emit == phase = "build" /\ prog # <<>> /\ (Sim => Len(prog) >= MaxSegs) /\ phase' = "out" /\ UNCHANGED <<lat,sp,dev,batch,prog>>
        /\ PrintT("@@" \o ToJson([n |-> N, pts |-> lat.pts, m |-> lat.m, sp |-> sp, dev |-> dev, batch |-> batch, prog |-> prog,
                      segs |-> [i \in 1..Len(batch) |-> Unfold(prog, batch[i])]]))
Init == lat = Line(1) /\ sp = <<1,1>> /\ dev = Dev("NN",60,NoPat) /\ batch = <<>> /\ prog = <<>> /\ phase = "new"
Next == Choose \/ PushGlobal \/ PushGen \/ PushWait \/ PushLocal \/ PushKron \/ PushKron2 \/ PushDig \/ PushDigR \/ PushDigC \/ Emit
Spec == Init /\ [][Next]_avars
VA(x,a) == [x |-> x, y |-> 0, a |-> a, b |-> 0, z |-> 0, w |-> 0]
MenuBatches == {<<VA(2,1)>>, <<VA(5,3)>>, <<VA(2,4), VA(4,4)>>, <<VA(1,2), VA(3,2), VA(6,2)>>}
OneBatchA == {<<VA(2,1)>>}

(*---- meta-properties ----*)
Blocks1 == {i \in 1..Len(prog) : prog[i].t \notin {"kron","dig"}}
\* coefficients are real: Hamiltonians are Hermitian
HermInv == \A bi \in Blocks1 : LET b == prog[bi]  h == Segment(b,batch[1]).h IN \A i \in 1..Len(h) : SIsReal(h[i].c.s)
\* every pair of qubits interacts exactly once in every evolution
PairInv == \A bi \in Blocks1 : LET b == prog[bi]  h == Segment(b,batch[1]).h
                                  S == {i \in 1..Len(h) : h[i].c.r2[1] # 0 /\ h[i].w[1][1] \in {"N","X"}} IN
              /\ Cardinality(S) = (N*(N-1)) \div 2
              /\ \A i, j \in S : i # j => {h[i].w[1][2],h[i].w[2][2]} # {h[j].w[1][2],h[j].w[2][2]}
\* the drive of a rotation by the angle th is th/2 times the Pauli operator: Om/2 * t = th/2
AngleInv == \A bi \in Blocks1 : prog[bi].t = "rx" => LET b == prog[bi]  s == Segment(b,batch[1])
                  S == {i \in 1..Len(s.h) : s.h[i].w[1][1] = "X" /\ s.h[i].c.pi = 1 /\ s.h[i].c.r2[1] = 0} IN
              /\ Cardinality(S) = Len(Supp(b))
              /\ \A i \in S : s.h[i].c.n * s.t.n * 8 = Ev(b.e,batch[1]) * s.h[i].c.d * s.t.d * 1
TimeInv == \A bi \in Blocks1 : Segment(prog[bi],batch[1]).t.n > 0
=============================================================================
