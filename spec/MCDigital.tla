----------------------------- MODULE MCDigital -----------------------------
(* A session builds the generator of an evolution (sums, tensor products and *)
(* factors of Paulis, identities and number operators) and a program of       *)
(* gates, and digitalizes the program that runs the evolution.  The           *)
(* first-order formula is the product of the exponentials of the terms of     *)
(* the generator in their order; where the terms commute it is the            *)
(* evolution, whatever the order of the approximation.                        *)
EXTENDS Menu
CONSTANTS Times,      \* expressions for the duration
          Orders, MaxTerms
VARIABLE dg           \* empty, or the digitalized program
dvars == <<built, stack, fuel, batch, phase, dg>>

(*----------------- expansion of a generator into its terms ----------------*)
\* a term is [s |-> sequence of scalars whose product is the factor, w |-> word]
RECURSIVE Expand(_), ExpandAll(_), ExpandKron(_)
Expand(b) == CASE b.t = "gate" -> <<[s |-> <<>>, w |-> <<<<b.g, b.q[1]>>>>]>>
               [] b.t = "scale" -> LET ts == Expand(b.b[1]) IN [i \in 1..Len(ts) |-> [ts[i] EXCEPT !.s = <<b.s>> \o ts[i].s]]
               [] b.t = "add" -> ExpandAll(b.b)
               [] b.t \in {"kron","chain"} -> ExpandKron(b.b)
ExpandAll(bs) == IF bs = <<>> THEN <<>> ELSE Expand(bs[1]) \o ExpandAll(Tail(bs))
ExpandKron(bs) == IF Len(bs) = 1 THEN Expand(bs[1])
   ELSE LET l == Expand(bs[1])  r == ExpandKron(Tail(bs)) IN
        [i \in 1..(Len(l) * Len(r)) |-> LET a == l[((i-1) \div Len(r)) + 1]  c == r[((i-1) % Len(r)) + 1]
                                        IN [s |-> a.s \o c.s, w |-> a.w \o c.w]]
\* no sums inside products: then the order of the terms is that of the generator
RECURSIVE HasAdd(_), SumsOutside(_)
HasAdd(b) == b.t = "add" \/ (b.t # "gate" /\ \E i \in 1..Len(b.b) : HasAdd(b.b[i]))
SumsOutside(b) == b.t = "gate" \/ (IF b.t \in {"kron","chain"} THEN \A i \in 1..Len(b.b) : ~HasAdd(b.b[i])
                                   ELSE \A i \in 1..Len(b.b) : SumsOutside(b.b[i]))
\* the value of a factor as a number of quarters (factors are integers, halves and products of them)
SQuarter(s, val) == CASE s.t = "num" -> IF s.k = 2 THEN 2 * s.r[1] ELSE 4 * s.r[1]
                     [] s.t = "par" -> 4 * (s.c[1] + s.c[2]*val.z + s.c[3]*val.w)
RECURSIVE Quarters(_,_)
Quarters(ss, val) == IF ss = <<>> THEN 4 ELSE (SQuarter(ss[1], val) * Quarters(Tail(ss), val)) \div 4
Halves(ss) == Cardinality({i \in 1..Len(ss) : ss[i].t = "num" /\ ss[i].k = 2})

(*------------------------------- evolution --------------------------------*)
NPart(w) == SelectSeq(w, LAMBDA p : p[1] = "N")
PPart(w) == SelectSeq(w, LAMBDA p : p[1] # "N")
\* exp(-i * Pi/4 * m * W)
ExpWord(n, w, m, v) ==
  LET pw == PPart(w)
      ev(u) == IF pw = <<>> THEN VScale([k |-> 0, r |-> RW(-m)], u)
               ELSE VAdd(VScale([k |-> 1, r |-> RC(m)], u), VScale([k |-> 1, r |-> RMul(RNeg(RI), RS(m))], ApplyWord(n, pw, u)))
      nv == ApplyWord(n, NPart(w), v)
  IN IF NPart(w) = <<>> THEN ev(v) ELSE VAdd(v, VAdd(ev(nv), VScale([k |-> 0, r |-> RNeg(ROne)], nv)))
RECURSIVE ExpTerms(_,_,_,_,_)
ExpTerms(n, ts, val, u, v) == IF ts = <<>> THEN v
   ELSE ExpTerms(n, Tail(ts), val, u, VNorm(ExpWord(n, ts[1].w, (u * Quarters(ts[1].s, val)) \div 4, v)))
TermsIntegral(ts, val, u) == \A i \in 1..Len(ts) : Halves(ts[i].s) < 3 /\ (u * Quarters(ts[i].s, val)) % 4 = 0
Commute(w1, w2) == \A j \in 0..(Pow2(NQ)-1) : VNorm(ApplyWord(NQ, w1, ApplyWord(NQ, w2, VBasis(NQ,j)))) = VNorm(ApplyWord(NQ, w2, ApplyWord(NQ, w1, VBasis(NQ,j))))
AllCommute(ts) == \A i, j \in 1..Len(ts) : i < j => Commute(ts[i].w, ts[j].w)

(*-------------------------------- the session ------------------------------*)
Gen == built[1]
Prog == built[2]
\* the evolution comes after the program, or before it, or within it
Digitalize == /\ phase = "done" /\ Len(built) = 2 /\ dg = <<>>
   /\ LET ts == Expand(Gen) IN
      /\ Len(ts) <= MaxTerms
      /\ \E t \in Pick(Times), o \in Pick(Orders), at \in Pick({"after","before","nested"}) :
           /\ \A i \in 1..Len(batch) : TermsIntegral(ts, batch[i], Ev(t, batch[i]))
           /\ dg' = <<[ts |-> ts, t |-> t, o |-> o, at |-> at, commute |-> AllCommute(ts), ordered |-> SumsOutside(Gen)]>>
   /\ UNCHANGED <<built, stack, fuel, batch, phase>>
\* the whole program on a basis vector
Whole(val, v) == LET ev(u) == ExpTerms(NQ, dg[1].ts, val, Ev(dg[1].t, val), u) IN
   CASE dg[1].at = "after" -> ev(Apply(NQ, Prog, val, v))
     [] dg[1].at = "before" -> Apply(NQ, Prog, val, ev(v))
     [] dg[1].at = "nested" -> ev(Apply(NQ, Prog, val, ev(v)))
WholeCols(val) == [j \in 1..Pow2(NQ) |-> VOut(VNorm(Whole(val, VBasis(NQ, j-1))))]
Abs(m) == IF m < 0 THEN -m ELSE m
\* a bound of the norm of the generator, in quarters
RECURSIVE TotalNorm(_,_)
TotalNorm(ts, val) == IF ts = <<>> THEN 0 ELSE Abs(Quarters(ts[1].s, val)) + TotalNorm(Tail(ts), val)
Emit == phase = "done" /\ dg # <<>> /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch, dg>>
        /\ PrintT("@@" \o ToJson([n |-> NQ, gen |-> Gen, prog |-> Prog, t |-> dg[1].t, order |-> dg[1].o, at |-> dg[1].at, commute |-> dg[1].commute,
                                   ordered |-> dg[1].ordered, terms |-> Len(dg[1].ts), batch |-> batch,
                                   norms |-> [i \in 1..Len(batch) |-> TotalNorm(dg[1].ts, batch[i])], gens |-> [i \in 1..Len(batch) |-> ColsOf(Gen, batch[i])],
                                   progs |-> [i \in 1..Len(batch) |-> ColsOf(Prog, batch[i])], cols |-> [i \in 1..Len(batch) |-> WholeCols(batch[i])]]))
DInit == Init /\ dg = <<>>
Next == (BuildNext /\ UNCHANGED dg) \/ Digitalize \/ Emit
Spec == DInit /\ [][Next]_dvars

(*----------------------------- meta-properties -----------------------------*)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
EvCols(ts, val, u) == [j \in 1..Pow2(NQ) |-> VNorm(ExpTerms(NQ, ts, val, u, VBasis(NQ, j-1)))]
\* the product of commuting exponentials does not depend on the order, and durations add up
OrderInv == dg # <<>> /\ dg[1].commute => LET val == batch[1]  u == Ev(dg[1].t, val) IN
   /\ EvCols(dg[1].ts, val, u) = EvCols(RevSeq(dg[1].ts), val, u)
   /\ \A j \in 0..(Pow2(NQ)-1) : VNorm(ExpTerms(NQ, dg[1].ts, val, u, ExpTerms(NQ, dg[1].ts, val, u, VBasis(NQ,j)))) = EvCols(dg[1].ts, val, 2*u)[j+1]
\* the terms add up to the generator
RECURSIVE SumTerms(_,_,_)
SumTerms(ts, val, v) == IF ts = <<>> THEN [k |-> 0, a |-> [i \in DOMAIN v.a |-> RZero]]
   ELSE VAdd(VScale([k |-> 4, r |-> RInt(Quarters(ts[1].s, val))], ApplyWord(NQ, ts[1].w, v)), SumTerms(Tail(ts), val, v))
ExpandInv == dg # <<>> => \A j \in 0..(Pow2(NQ)-1) :
   VNorm(SumTerms(dg[1].ts, batch[1], VBasis(NQ,j))) = VNorm(Apply(NQ, Gen, batch[1], VBasis(NQ,j)))
=============================================================================
