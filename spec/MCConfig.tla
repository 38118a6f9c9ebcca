------------------------------ MODULE MCConfig -------------------------------
(* Quantum neural networks built from configurations.  A session chooses, in  *)
(* steps, the register, the feature map (features, bases, ranges, uploads,    *)
(* strategy), the ansatz, the observables and a batch of inputs; the          *)
(* specification composes the circuit - feature layers interleaved with       *)
(* ansatz layers, then the ansatz - and gives every output of the network.    *)
EXTENDS Construct, Json, Randomization
CONSTANTS Sizes, Batch, Sim
VARIABLES n, fm, an, obs, xs, ph
mvars == <<n, fm, an, obs, xs, ph>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
\* when all cases are enumerated, only what decides the shape of the circuit varies
One(S, d) == IF Sim THEN Pick(S) ELSE {d}
Ident(k) == [i \in 1..k |-> i-1]
Names == <<"x","y","t">>

(*------------------------------- feature map ------------------------------*)
Ranges == {<<0,8>>, <<0,2>>, <<-2,2>>, <<1,5>>}
\* (arguments keep TLC from drawing the random choices only once)
Feature(u) == {[basis |-> b, rs |-> r, fr |-> f, tr |-> t, rep |-> k, given |-> g] :
   b \in One({"FOURIER","CHEBYSHEV"}, "FOURIER"), r \in One({"CONSTANT","TOWER","EXP"}, "CONSTANT"), f \in One(Ranges, <<0,8>>), t \in One(Ranges, <<0,8>>),
   k \in Pick(0..(IF Sim THEN 2 ELSE 1)), g \in One(BOOLEAN, FALSE)}
FixF(f) == IF f.given THEN f ELSE [f EXCEPT !.fr = <<0,8>>, !.tr = <<0,8>>]
\* order: the order of the columns of the input, as a permutation of the features
FmChoice(u) == {[m |-> IF m = 0 THEN 0 ELSE 1 + (m % 3), feats |-> <<FixF(f), FixF(g), FixF(h)>>, strat |-> s, multi |-> mu, op |-> o, train |-> tr, sd |-> sd, order |-> p, same |-> sm] :
   m \in Pick(0..(IF Sim THEN 9 ELSE 3)), f \in Feature(u), g \in Feature(u), h \in Feature(u), s \in One({"digital","digital2","digital3","analog","rydberg"}, "digital"),
   mu \in Pick({"PARALLEL","SERIES"}), o \in One({"RX","RY","RZ","PHASE"}, "RY"), tr \in One(BOOLEAN, TRUE), sd \in One(0..3, 1), p \in Pick({<<1,2,3>>, <<3,1,2>>, <<2,1,3>>}), sm \in One(BOOLEAN, FALSE)}
Strat(f) == IF f.strat \in {"analog","rydberg"} THEN f.strat ELSE "digital"
\* one setting for all features, or one for each
Shared(f) == IF f.same THEN [f EXCEPT !.feats = <<f.feats[1], f.feats[1], f.feats[1]>>] ELSE f
\* analog maps work on the whole register, with fixed factors
Fit(f) == LET st == Strat(f) IN
   [f EXCEPT !.strat = st,
             !.train = IF st = "digital" THEN f.train ELSE FALSE,
             !.multi = IF f.m > 1 /\ (st # "digital" \/ f.m > n) THEN "SERIES" ELSE f.multi,
             !.op = IF st = "rydberg" THEN "PHASE" ELSE IF st = "analog" /\ f.op \in {"RZ","PHASE"} THEN "RY" ELSE f.op,
             !.feats = Map(LAMBDA g : IF st = "digital" THEN g ELSE IF st = "analog" THEN [g EXCEPT !.rs = "CONSTANT"]
                                      ELSE [g EXCEPT !.basis = "FOURIER", !.rs = IF g.rs = "EXP" THEN "TOWER" ELSE g.rs, !.given = FALSE, !.fr = <<0,8>>, !.tr = <<0,8>>], f.feats),
             !.order = SelectSeq(f.order, LAMBDA i : i <= f.m)]
Trim(f) == Fit(Shared(f))
\* the record of a feature for FmGates
Rec(i) == LET f == fm.feats[i] IN [op |-> fm.op, basis |-> f.basis, rs |-> f.rs, fr |-> f.fr, tr |-> f.tr, mult |-> 1, train |-> fm.train, sd |-> fm.sd + i]
\* the register is split among the features, the first ones getting one more qubit
SplitSize(i) == (n \div fm.m) + (IF i <= n % fm.m THEN 1 ELSE 0)
RECURSIVE SplitStart(_)
SplitStart(i) == IF i = 1 THEN 0 ELSE SplitStart(i-1) + SplitSize(i-1)
SupOf(k) == IF fm.multi = "SERIES" THEN Ident(n) ELSE LET s == SplitStart(k) IN [j \in 1..SplitSize(k) |-> s + j - 1]
\* position k of the inputs is feature fm.order[k]
RydW(i, q) == IF fm.feats[i].rs = "TOWER" THEN q ELSE <<1,2,3,-1>>[((fm.sd + i + q) % 3) + 1]
Gates1(k, x) == LET i == fm.order[k] IN
   IF fm.strat = "rydberg" THEN [q \in 1..n |-> Par("PHASE", <<>>, <<q-1>>, <<EConst(-(RydW(i,q) * x[i]))>>)]
   ELSE FmGates(Rec(i), SupOf(k), x[i])
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Uploads == IF fm.m = 0 THEN 0 ELSE Max({fm.feats[i].rep : i \in 1..fm.m}) + 1
\* the layers of the feature map
Active(u) == SelectSeq(Range(1, fm.m, 1), LAMBDA k : fm.feats[fm.order[k]].rep + 1 > u)
LayerAt(u, x) == IF fm.multi = "PARALLEL" THEN <<Flat(Map(LAMBDA k : Gates1(k, x), Active(u)))>> ELSE Map(LAMBDA k : Gates1(k, x), Active(u))
FmLayers(x) == Flat([u \in 1..Uploads |-> LayerAt(u-1, x)])
LayerCount == IF fm.multi = "PARALLEL" THEN Uploads ELSE Len(Flat([u \in 1..Uploads |-> Active(u-1)]))
FmParams == IF fm.strat = "rydberg"
   THEN Flat([i \in 1..fm.m |-> IF fm.feats[i].rs = "TOWER" THEN <<>> ELSE [q \in 1..n |-> [pf |-> "w_" \o Names[i], f |-> "rot", l |-> 0, i |-> q-1, v |-> RydW(i,q), unit |-> FALSE]]])
   ELSE IF ~fm.train THEN <<>> ELSE Flat([k \in 1..fm.m |-> LET P == FmPars(Rec(fm.order[k]), Len(SupOf(k))) IN
      [j \in 1..Len(P) |-> [pf |-> "w_" \o Names[fm.order[k]], f |-> "train", l |-> 0, i |-> P[j].i, v |-> P[j].v, unit |-> FALSE]]])
InputOk(x) == \A k \in 1..fm.m : LET i == fm.order[k] IN
   IF fm.strat = "rydberg" THEN TRUE ELSE FmOk(Rec(i), Len(SupOf(k)), x[i])

(*---------------------------------- ansatz --------------------------------*)
OpLists == {<<"RX","RY","RX">>, <<"RX","RY">>, <<"RZ">>, <<"PHASE","RY">>}
AnChoice == {[kind |-> k, strat |-> st, n |-> n, sup |-> Ident(n), depth |-> d, ops |-> o, ent |-> e, per |-> p, m |-> b, sd |-> s] :
   k \in Pick({"hea","ala","iia"}), st \in Pick(IF n = 1 THEN {"sdaqc"} ELSE {"digital","sdaqc"}), d \in Pick(1..(IF Sim THEN 3 ELSE 2)), o \in One(OpLists, <<"RX","RY">>), e \in IF Sim THEN Pick(IF n = 1 THEN {"N1"} ELSE {"CNOT","CZ","CRX","CRY","CPHASE","NN","ZZ","N1"}) ELSE {"CRX","N1"},
   p \in Pick(BOOLEAN), b \in Pick(2..3), s \in One(0..3, 2)}
AnOk(x) == /\ (x.strat = "sdaqc") = (x.ent \in {"NN","ZZ","N1"})
           /\ x.kind = "ala" => x.strat = "digital" /\ ~x.per
           /\ x.kind = "ala" => \A d \in 0..(x.depth-1) : AlaSub(x, d, 0) # <<>> /\ (x.m > 2 => AlaSub(x, d, 1) # <<>>)
           /\ x.kind # "ala" => x.m = 2
           /\ x.strat = "sdaqc" => ~x.per /\ (x.ent # "N1" => x.n > 1)
           /\ x.n = 1 => x.strat = "sdaqc"
           /\ (x.per /\ x.kind = "iia") => x.n > 2
Inner(j) == [an EXCEPT !.depth = 1, !.sd = an.sd + j]           \* the j-th layer between the feature layers (from 1)
WithPrefix(pf, P) == [j \in 1..Len(P) |-> [pf |-> pf, f |-> P[j].f, l |-> P[j].l, i |-> P[j].i, v |-> P[j].v, unit |-> TRUE]]
Interleaved(x) == LET ls == FmLayers(x) IN Flat([j \in 1..Len(ls) |-> ls[j] \o (IF j < Len(ls) THEN Ansatz(Inner(j)).b ELSE <<>>)])
Circuit0(x) == Chain(Interleaved(x) \o Ansatz(an).b)
AllPars == FmParams \o Flat([j \in 1..(LayerCount - 1) |-> WithPrefix("fm_" \o ToString(j-1), AnsatzPars(Inner(j)))]) \o WithPrefix("theta", AnsatzPars(an))

(*-------------------------------- observables ------------------------------*)
PairsOf(k) == {p \in (0..(k-1)) \X (0..(k-1)) : p[1] < p[2]}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2]) IN <<x>> \o SeqOf(S \ {x})
ObsChoice(u) == {[det |-> d, int |-> i, scale |-> a, shift |-> b, par |-> p] :
   d \in One({"","N","X","Y","Z"}, "N"), i \in One({"","ZZ","NN","XY","XYZ","custom"}, "XYZ"), a \in One({1,2,-3}, -3), b \in One({0,1,-2}, 1), p \in One({"num","num2","trainable"}, "num")}
ObsOk(o) == o.det # "" \/ (o.int # "" /\ n > 1)
\* graph: couplings of all pairs for a plain number of qubits, of the line otherwise
Edges(line) == IF n = 1 THEN <<>> ELSE IF line THEN [i \in 1..(n-1) |-> <<i-1, i>>] ELSE SeqOf(PairsOf(n))
Line == fm.strat \in {"analog","rydberg"} \/ an.sd % 2 = 1
HamOf(o) == LET es == Edges(Line) IN Ham([det |-> o.det, int |-> IF n = 1 THEN "" ELSE o.int, dw |-> [q \in 1..n |-> 2], iw |-> [k \in 1..Len(es) |-> [p |-> es[k], v |-> 2]]], n)

(*-------------------------------- the session ------------------------------*)
Init == n \in Sizes /\ fm = <<>> /\ an = <<>> /\ obs = <<>> /\ xs = <<>> /\ ph = "fm"
SetFm == ph = "fm" /\ \E f \in FmChoice(ph) : fm' = Trim(f) /\ ph' = "an" /\ UNCHANGED <<n, an, obs, xs>>
SetAn == ph = "an" /\ \E a \in AnChoice : AnOk(a) /\ an' = a /\ ph' = "in" /\ UNCHANGED <<n, fm, obs, xs>>
Row0(u) == {<<a, b, c>> : a \in One(0..4, 0), b \in One(0..4, 2), c \in One(0..4, 4)}
Row(u) == IF Sim THEN UNION {Row0(k) : k \in 1..6} ELSE Row0(u)
AddRow == ph = "in" /\ Len(xs) < Batch /\ \E x \in Pick({y \in Row(ph) : InputOk(y)}) : xs' = Append(xs, x) /\ UNCHANGED <<n, fm, an, obs, ph>>
AddObs == ph = "in" /\ Len(xs) = Batch /\ Len(obs) < 2 /\ \E o \in ObsChoice(ph) : ObsOk(o) /\ obs' = Append(obs, o) /\ UNCHANGED <<n, fm, an, xs, ph>>
\* random choices that do not fit are drawn again; a feature map that no input fits is given up
Again == Sim /\ ph # "out" /\ UNCHANGED mvars
Restart == Sim /\ ph = "in" /\ Len(xs) < Batch /\ fm' = <<>> /\ an' = <<>> /\ xs' = <<>> /\ ph' = "fm" /\ UNCHANGED <<n, obs>>
Val0 == [x |-> 0, y |-> 0, a |-> 0, b |-> 0, z |-> 0, w |-> 0]
State(x) == LET c == TLCEval(Circuit0(x)) IN TLCEval(VNorm(Apply(n, c, Val0, VBasis(n, 0))))
Value(o, v) == LET h == VInner(v, VNorm(Apply(n, HamOf(o), Val0, v))) IN SAdd(SMul(SInt(o.scale), h), SMul(SInt(o.shift), VInner(v, v)))
Outputs == [r \in 1..Len(xs) |-> LET v == State(xs[r]) IN TLCEval([k \in 1..Len(obs) |-> Value(obs[k], v)])]
Emit == Sim /\ ph = "in" /\ Len(xs) = Batch /\ obs # <<>> /\ ph' = "out" /\ UNCHANGED <<n, fm, an, obs, xs>>
        /\ PrintT("@@" \o ToJson([n |-> n, fm |-> fm, an |-> an, obs |-> obs, xs |-> xs, line |-> Line, pars |-> TLCEval(AllPars), want |-> TLCEval(Outputs),
                                   layers |-> LayerCount]))
Next == SetFm \/ SetAn \/ AddRow \/ AddObs \/ Restart \/ Again \/ Emit
Spec == Init /\ [][Next]_mvars

(*----------------------------- meta-properties -----------------------------*)
Ready == (ph = IF Sim THEN "out" ELSE "in") /\ Len(xs) = Batch
\* outputs are real, states are normalised, and the number of feature layers is what the uploads say
RealInv == Ready /\ obs # <<>> => \A r \in 1..Len(xs) : LET v == State(xs[r]) IN VInner(v, v) = SOne /\ \A k \in 1..Len(obs) : SIsReal(Value(obs[k], v))
LayerInv == Ready /\ (Sim \/ obs = <<>>) => Len(FmLayers(xs[1])) = LayerCount
\* in parallel the supports of the features are disjoint and cover the register
SplitInv == Ready /\ fm.m > 0 /\ fm.multi = "PARALLEL" =>
   /\ UNION {{SupOf(k)[j] : j \in 1..Len(SupOf(k))} : k \in 1..fm.m} = 0..(n-1)
   /\ \A k, l \in 1..fm.m : k # l => {SupOf(k)[j] : j \in 1..Len(SupOf(k))} \cap {SupOf(l)[j] : j \in 1..Len(SupOf(l))} = {}
\* names of trainable parameters stand for one value
NameInv == Ready /\ (Sim \/ obs = <<>>) => LET P == TLCEval(AllPars)  key(p) == <<p.pf, p.f, p.l, p.i>> IN
   \A i, j \in 1..Len(P) : key(P[i]) = key(P[j]) => P[i].v = P[j].v
==============================================================================
