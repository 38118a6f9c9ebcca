----------------------------- MODULE MCConstruct -----------------------------
(* A session chooses the options of a constructor step by step and obtains    *)
(* the operator that it builds, on all qubits of the circuit.                 *)
EXTENDS Construct, Json, Randomization
CONSTANTS Kinds, Sizes, Sim
VARIABLES kind, n, c, ph
mvars == <<kind, n, c, ph>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Seeds == IF Sim THEN 0..3 ELSE {1}
OneOf(S) == IF Sim THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE

Perms(S, k) == {s \in [1..k -> S] : \A i, j \in 1..k : i # j => s[i] # s[j]}
OpLists == {<<"RX","RY">>, <<"RZ">>, <<"RX","RY","RX">>, <<"PHASE","RY">>, <<"RY","RZ","RX">>}
FewOps == {<<"RX","RY">>, <<"RZ">>}
Ents == {"CNOT","CZ","CRX","CRY","CRZ","CPHASE"}
Ident(k) == [i \in 1..k |-> i-1]

\* --- ansaetze: sizes of the ansatz up to the size of the register
AnsatzChoice ==
  {[kind |-> k, strat |-> st, n |-> m, sup |-> su, depth |-> d, ops |-> o, ent |-> e, per |-> p, m |-> b, sd |-> s, dflt |-> FALSE] :
     k \in Pick({"hea","ala","iia"}), st \in Pick({"digital","sdaqc"}), m \in Pick(1..n), su \in Pick(Perms(0..(n-1), n)), d \in Pick(IF Sim THEN 1..3 ELSE {2}),
     o \in Pick(IF Sim THEN OpLists ELSE FewOps), e \in Pick(Ents \union {"NN","ZZ","N1"}), p \in Pick(BOOLEAN), b \in Pick(2..4), s \in Pick(Seeds)}
AnsatzOk(x) == /\ (x.strat = "sdaqc") = (x.ent \in {"NN","ZZ","N1"})
               /\ x.kind = "ala" => x.strat = "digital" /\ ~x.per /\ x.m <= x.n + 1
               /\ x.kind # "ala" => x.m = 2
               /\ x.strat = "sdaqc" => ~x.per /\ (x.ent # "N1" => x.n > 1)
               /\ x.n = 1 => x.strat = "sdaqc"
               \* every sublayer entangles some pair
               /\ x.kind = "ala" => \A d \in 0..(x.depth-1) : AlaSub(x, d, 0) # <<>> /\ (x.m > 2 => AlaSub(x, d, 1) # <<>>)
               /\ (x.per /\ x.kind = "iia") => x.n > 2
Cut(x) == [x EXCEPT !.sup = IF x.strat = "sdaqc" \/ x.kind = "iia" THEN Ident(x.n) ELSE SubSeq(x.sup, 1, x.n), !.depth = IF n = 4 /\ x.depth = 3 THEN 2 ELSE x.depth]

\* --- feature maps
Ranges == {<<0,8>>, <<0,2>>, <<-2,2>>, <<1,5>>, <<-4,0>>}
FmChoice ==
  {[op |-> o, basis |-> b, rs |-> r, fr |-> f, tr |-> t, mult |-> m, train |-> w, sd |-> s, sup |-> su, x |-> x, y |-> y, mname |-> mn, pk |-> pk, how |-> h] :
     o \in Pick({"RX","RY","RZ","PHASE"}), b \in Pick({"FOURIER","CHEBYSHEV","lin2","neg"}), r \in Pick({"CONSTANT","TOWER","EXP","alt","lin"}),
     f \in Pick(Ranges), t \in Pick(Ranges), m \in Pick({1,1,2,3,-1}), w \in Pick(BOOLEAN), s \in Pick(Seeds), su \in Pick(UNION {Perms(0..(n-1), k) : k \in 1..n}),
     x \in Pick(0..4), y \in Pick(0..4), mn \in Pick({"num","name","expr"}), pk \in Pick({"name","feature","variational"}), h \in Pick({"default","given"})}
\* without given ranges the map between the ranges is the identity
FmFix(f) == IF f.how = "default" THEN [f EXCEPT !.fr = <<0,8>>, !.tr = <<0,8>>] ELSE f
\* --- exponential Fourier: range of the feature in plain numbers
ExpChoice == {[sup |-> su, x |-> x, fr |-> f] : su \in Pick(UNION {Perms(0..(n-1), k) : k \in 1..n}), x \in Pick(0..7), f \in Pick({<<0,0>>, <<0,4>>, <<-1,3>>, <<2,10>>})}
ExpRange(f) == IF f.fr = <<0,0>> THEN <<0, P2(Len(f.sup))>> ELSE f.fr
ExpAngle(f, i) == (P2(i) * 8 * (f.x - ExpRange(f)[1])) \div (ExpRange(f)[2] - ExpRange(f)[1])
ExpOk(f) == \A i \in 0..(Len(f.sup)-1) : LET d == P2(i) * 8 * (f.x - ExpRange(f)[1])  w == ExpRange(f)[2] - ExpRange(f)[1] IN d % w = 0 /\ (d \div w) % 2 = 0
ExpBlock(f) == Chain([i \in 1..Len(f.sup) |-> Fixed("H", <<>>, <<f.sup[i]>>)] \o [i \in 1..Len(f.sup) |-> Par("RZ", <<>>, <<f.sup[i]>>, <<EConst(ExpAngle(f, i-1))>>)])

\* --- Hamiltonians: register graph, interactions and detunings with strengths
PairsOf(k) == {p \in (0..(k-1)) \X (0..(k-1)) : p[1] < p[2]}
Graphs == IF n = 1 THEN {[t |-> "all", e |-> {}]} ELSE {[t |-> "all", e |-> PairsOf(n)]} \union {[t |-> "line", e |-> {<<i, i+1>> : i \in 0..(n-2)}]}
          \union {[t |-> "graph", e |-> E] : E \in (SUBSET PairsOf(n)) \ {{}}}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2]) IN <<x>> \o SeqOf(S \ {x})
Strength(how, sd, k) == IF how = "none" THEN 2 ELSE <<1,2,-2,3,4,-1,0,5>>[((sd + 3*k) % 8) + 1]
HamChoice == {[g |-> g, det |-> d, int |-> i, dh |-> dh, ih |-> ih, all |-> a, sd |-> s] :
     g \in Pick(Graphs), d \in Pick({"","N","X","Y","Z"}), i \in Pick({"","ZZ","NN","XY","XYZ","custom","ising"}), dh \in Pick({"none","list","numpy","tensor","name"}),
     ih \in Pick({"none","list","numpy","tensor","name"}), a \in Pick(BOOLEAN), s \in Pick(0..7)}
HamOk(h) == h.det # "" \/ (h.int # "" /\ n > 1)
HamEdges(h) == SeqOf(IF h.all THEN PairsOf(n) ELSE h.g.e)
HamRec(h) == LET es == HamEdges(h) IN [det |-> h.det, int |-> h.int, dw |-> [q \in 1..n |-> Strength(h.dh, h.sd, q)],
                iw |-> [k \in 1..Len(es) |-> [p |-> es[k], v |-> Strength(h.ih, h.sd + 1, es[k][1] + 2*es[k][2])]]]

\* --- a layer of the Rydberg ansatz: three pulses
RydChoice == {[g |-> g, dr |-> dr, de |-> de, phase |-> p, sc |-> sc, sd |-> s, layers |-> l] :
     g \in Pick(Graphs), dr \in Pick({"none","list","short","var"}), de \in Pick({"none","list","short","var"}), p \in Pick({-1,0,1,2,5}), sc \in Pick({1,2,-1}), s \in Pick(0..7), l \in Pick(0..2)}
\* the ansatz has named weights (var) or none, scaling 1
RydOk(r) == n > 1 /\ (r.layers = 0 => r.dr # "var" /\ r.de # "var") /\ (r.layers > 0 => r.dr \in {"none","var"} /\ r.de \in {"none","var"} /\ r.sc = 1)
RydW(how, sd, q) == IF how = "none" THEN 2 ELSE IF how = "short" /\ q = n THEN 0 ELSE <<1,3,-2,4,-1,2,5,0>>[((sd + q) % 8) + 1]
Half(cc, x) == SNorm([k |-> 2, r |-> RMul(RInt(cc), x)])
RydGen(r) == LET es == SeqOf(r.g.e) IN
   [drive |-> Flat([q \in 1..n |-> LET w == r.sc * RydW(r.dr, r.sd, q) IN
                IF r.phase < 0 THEN <<Scale(HNum(w), Word1("X", q-1))>>
                ELSE <<Scale(SNorm([k |-> 3, r |-> RMul(RInt(w), RC(r.phase))]), Word1("X", q-1)),
                       Scale(SNorm([k |-> 3, r |-> RMul(RInt(-w), RS(r.phase))]), Word1("Y", q-1))>>]),
    inter |-> [k \in 1..Len(es) |-> Inter("NN", es[k][1], es[k][2])],
    det |-> [q \in 1..n |-> Scale(HNum(RydW(r.de, r.sd+1, q)), Word1("N", q-1))]]
AsScal(s) == [t |-> "num", k |-> s.k, r |-> s.r]
RydBlock(bs) == Add(Map(LAMBDA b : IF b.t = "scale" THEN [b EXCEPT !.s = AsScal(b.s)] ELSE b, bs))
Duration(r, l, j) == 1 + ((r.sd + 2*l + 3*j) % 4)

\* --- Fourier transform
QftChoice == {[n |-> Len(su), sup |-> su, inv |-> i, rev |-> r, swaps |-> w, strat |-> st, gen |-> g, sd |-> s] :
     su \in Pick(UNION {Perms(0..(n-1), k) : k \in 1..n}), i \in Pick(BOOLEAN), r \in Pick(BOOLEAN), w \in Pick(BOOLEAN), st \in Pick(IF Sim THEN {"digital","sdaqc"} ELSE {"digital"}),
     g \in Pick(IF Sim THEN {"default","ZZ","NN"} ELSE {"default"}), s \in Pick(IF Sim THEN 0..7 ELSE {0})}
QftFix(f) == IF f.strat = "sdaqc" THEN [f EXCEPT !.sup = Ident(n), !.n = n] ELSE f
QftOk(f) == f.strat = "digital" \/ n \in {2,3,5}

(*-------------------------------- the session ------------------------------*)
Val0 == [x |-> 0, y |-> 0, a |-> 0, b |-> 0, z |-> 0, w |-> 0]
Cols(k, b) == [j \in 1..P2(k) |-> VOut(VNorm(Apply(k, b, Val0, VBasis(k, j-1))))]
\* --- names of the parameters of large ansaetze: only their number is compared
BigChoice == {[kind |-> k, strat |-> "digital", n |-> m, sup |-> Ident(m), depth |-> d, ops |-> <<"RX","RY">>, ent |-> e, per |-> FALSE, m |-> 2, sd |-> 0] :
     k \in {"hea","iia"}, m \in {3,6}, d \in {11,12}, e \in {"CNOT","CRX"}}
\* the code writes layer and index of a parameter of the identity-initialised ansatz without a separator
Label(p) == <<p.f, IF p.f \in {"alpha","beta","gamma","eta"} THEN ToString(p.l) \o ToString(p.i) ELSE ToString(p.i)>>
Labels(P) == Cardinality({Label(P[i]) : i \in 1..Len(P)})
Init == kind \in Kinds /\ n \in Sizes /\ c = <<>> /\ ph = "new"
Choose == /\ ph = "new"
          /\ \/ kind = "ansatz" /\ \E x \in AnsatzChoice : AnsatzOk(x) /\ c' = <<Cut(x)>>
             \/ kind = "fm" /\ \E f \in FmChoice : LET g == FmFix(f) IN FmOk(g, Len(g.sup), g.x) /\ FmOk(g, Len(g.sup), g.y) /\ c' = <<g>>
             \/ kind = "expfm" /\ \E f \in ExpChoice : ExpOk(f) /\ c' = <<f>>
             \/ kind = "ham" /\ \E h \in HamChoice : HamOk(h) /\ c' = <<h>>
             \/ kind = "ryd" /\ \E r \in RydChoice : RydOk(r) /\ c' = <<r>>
             \/ kind = "big" /\ \E x \in BigChoice : c' = <<x>>
             \/ kind = "qft" /\ \E f \in QftChoice : LET g == QftFix(f) IN QftOk(g) /\ c' = <<g>>
          /\ ph' = "chosen" /\ UNCHANGED <<kind, n>>
\* random choices that do not fit are drawn again
Again == Sim /\ ph = "new" /\ UNCHANGED mvars
Out == CASE kind = "ansatz" -> [block |-> Cols(n, Ansatz(c[1])), pars |-> AnsatzPars(c[1]), e |-> <<>>]
         [] kind = "fm" -> [block |-> Cols(n, Chain(FmGates(c[1], c[1].sup, c[1].x))), pars |-> FmPars(c[1], Len(c[1].sup)),
                            e |-> <<Cols(n, Chain(FmGates(c[1], c[1].sup, c[1].y)))>>]
         [] kind = "expfm" -> [block |-> Cols(n, ExpBlock(c[1])), pars |-> <<>>, e |-> <<>>]
         [] kind = "ham" -> [block |-> Cols(n, Ham(HamRec(c[1]), n)), pars |-> <<>>, e |-> <<HamRec(c[1])>>]
         [] kind = "ryd" -> LET g == RydGen(c[1]) IN
              [block |-> <<>>, pars |-> <<>>, e |-> <<Cols(n, RydBlock(g.drive \o g.inter)), Cols(n, RydBlock(g.inter)), Cols(n, RydBlock(g.det)),
                 [l \in 1..3 |-> [j \in 1..3 |-> Duration(c[1], l, j)]], [q \in 1..n |-> RydW(c[1].dr, c[1].sd, q)], [q \in 1..n |-> RydW(c[1].de, c[1].sd + 1, q)]>>]
         [] kind = "big" -> LET P == TLCEval(AnsatzPars(c[1])) IN [block |-> <<>>, pars |-> <<>>, e |-> <<Len(P), Labels(P)>>]
         [] kind = "qft" -> [block |-> <<>>, pars |-> <<>>, e |-> QftTable(c[1], n)]
Emit == (Sim \/ kind = "big") /\ ph = "chosen" /\ ph' = "out" /\ UNCHANGED <<kind, n, c>>
        /\ PrintT("@@" \o ToJson([kind |-> kind, n |-> n, c |-> c[1], out |-> TLCEval(Out)]))
Next == Choose \/ Again \/ Emit
Spec == Init /\ [][Next]_mvars

(*----------------------------- meta-properties -----------------------------*)
Is(k) == ph = "chosen" /\ kind = k
Id(k) == [j \in 1..P2(k) |-> VBasis(k, j-1)]
OpCols(k, b) == [j \in 1..P2(k) |-> VNorm(Apply(k, b, Val0, VBasis(k, j-1)))]
\* ansaetze: identity at the start; every qubit of the support has its rotations; no parameter is used twice in hea and ala
StartInv == Is("ansatz") /\ c[1].kind = "iia" => \A l \in 0..(c[1].depth-1) : OpCols(n, Chain(IiaStart(c[1], l))) = Id(n)
PairsInv == Is("ansatz") /\ c[1].kind # "iia" =>
   \A d \in 0..(c[1].depth-1) : \A p \in {LayerPairs(c[1], d)[i] : i \in 1..Len(LayerPairs(c[1], d))} : p[1] # p[2] /\ p[1] \in 0..(c[1].n-1) /\ p[2] \in 0..(c[1].n-1)
CountInv == Is("ansatz") /\ c[1].kind # "iia" => LET P == AnsatzPars(c[1]) IN Cardinality({<<P[i].f, P[i].i>> : i \in 1..Len(P)}) = Len(P)
\* the brickwork of the hardware-efficient ansatz covers a line (a ring of even length when periodic) exactly once
CoverInv == Is("ansatz") /\ c[1].kind = "hea" /\ c[1].n > 2 => LET ps == HeaPairs(c[1]) IN
   Len(ps) = Cardinality({{ps[i][1], ps[i][2]} : i \in 1..Len(ps)}) /\ Len(ps) = c[1].n - (IF c[1].per /\ c[1].n % 2 = 0 THEN 0 ELSE 1)
\* the transform of Hadamards and controlled phases is the Fourier transform; with its inverse it is the identity
FourierInv == Is("qft") /\ c[1].strat = "digital" /\ c[1].n < 4 =>
   LET cols == OpCols(n, QftCircuit(c[1])) IN \A r, q \in 1..P2(n) : Entry(cols, r-1, q-1) = QftAmp(c[1], QftTable(c[1], n)[r][q])
InverseInv == Is("qft") /\ c[1].n < 4 => LET other == [c[1] EXCEPT !.inv = ~c[1].inv] IN
   \A j \in 0..(P2(n)-1) : VNorm(Apply(n, QftCircuit(other), Val0, Apply(n, QftCircuit(c[1]), Val0, VBasis(n, j)))) = VBasis(n, j)
\* Hamiltonians are self-adjoint
HermInv == Is("ham") => LET cols == OpCols(n, Ham(HamRec(c[1]), n)) IN \A i, j \in 0..(P2(n)-1) : Entry(cols,i,j) = SConj(Entry(cols,j,i))
==============================================================================
