----------------------------- MODULE MCRegister -----------------------------
(***************************************************************************)
(* Registers: created on a lattice, on a circle, from coordinates or from  *)
(* a graph with a spacing, then rescaled, given a new spacing, stored and  *)
(* loaded.  The squared distance of two qubits is always D2 * f for the    *)
(* lattice's integer D2 and a rational f = <<numerator, denominator>>.     *)
(***************************************************************************)
EXTENDS Lattice, TLC, Json
CONSTANTS MaxSize,   \* lattice sizes
          Spacings,  \* rationals <<p,q>>
          MaxOps, Sim
VARIABLES reg, hist, phase
rvars == <<reg, hist, phase>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Kinds == {"line","rectangular_lattice","square","triangular_lattice","honeycomb_lattice","circle","all_to_all","coordinates","graph"}
Grid == IF Sim THEN {<<a,b>> : a \in {-3,0,2,5}, b \in {-2,0,1,4}} ELSE {<<a,b>> : a \in {0,2}, b \in {0,3}}
FreePts(n) == [1..n -> Grid]
Distinct(ps) == \A i, j \in 1..Len(ps) : i # j => ps[i] # ps[j]
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(f) == LET g == Gcd(f[1],f[2]) IN <<f[1] \div g, f[2] \div g>>
\* factor for a spacing p/q: the smallest distance becomes p/q
Spaced(l, s) == LET d == TLCEval(MinD2(l)) IN Norm(<<s[1]*s[1], s[2]*s[2]*d>>)
Quarter == <<1,4>>
Reg(k, a, b, l, e, f) == TLCEval([k |-> k, a |-> a, b |-> b, l |-> l, e |-> e, f |-> f])
Ring(n) == {<<i, i+1>> : i \in 0..(n-2)} \union (IF n > 2 THEN {<<0, n-1>>} ELSE {})
\* a circle is not on a lattice: its points stand for themselves
Circle(n) == [pts |-> [i \in 1..n |-> <<2*(i-1),0>>], m |-> 1, num |-> TRUE]
Sizes == 1..MaxSize
\* a ring, a path, a star, a single far edge
EdgesOf(l, a, b) == LET n == Len(l.pts) IN
  CASE (a + b) % 4 = 0 -> Ring(n) [] (a + b) % 4 = 1 -> {<<i,i+1>> : i \in 0..(n-2)} [] (a + b) % 4 = 2 -> {<<0,i>> : i \in 1..(n-1)}
    [] (a + b) % 4 = 3 -> {p \in PairsOf(l) : \A q \in PairsOf(l) : D2(l,p[1],p[2]) >= D2(l,q[1],q[2])}
Make(k, a, b, ps, s) ==
  CASE k = "line" -> LET l == Line(a) IN Reg(k,a,b,l,NearPairs(l),Spaced(l,s))
    [] k = "rectangular_lattice" -> LET l == Rect(a,b) IN Reg(k,a,b,l,NearPairs(l),Spaced(l,s))
    [] k = "square" -> LET l == Square(a+1) IN Reg(k,a+1,b,l,Ring(Len(l.pts)),Spaced(l,s))
    [] k = "triangular_lattice" -> LET l == Tri(a,b) IN Reg(k,a,b,l,NearPairs(l),Spaced(l,s))
    [] k = "honeycomb_lattice" -> LET l == Hex(a,b) IN Reg(k,a,b,l,NearPairs(l),Spaced(l,s))
    [] k = "circle" -> LET l == Circle(a+2) IN Reg(k,a+2,b,l,Ring(a+2),Norm(<<s[1]*s[1],s[2]*s[2]>>))
    [] k = "all_to_all" -> LET l == IF a+1 = 2 THEN Line(2) ELSE IF a+1 = 3 THEN Tri(1,1) ELSE Circle(a+1) IN Reg(k,a+1,b,l,PairsOf(l),Spaced(l,s))
    [] k = "coordinates" -> LET l == Free(ps) IN Reg(k,a,b,l,{},IF s[1] = 0 THEN Quarter ELSE Spaced(l,s))
    \* the edges of a given graph need not be the closest pairs
    [] k = "graph" -> LET l == Free(ps) IN Reg(k,a,b,l,EdgesOf(l,a,b),IF s[1] = 0 THEN Quarter ELSE Spaced(l,s))
NoSpacing == <<0,1>>
New == phase = "new" /\ \E k \in Pick(Kinds) : \E a, b \in Pick(Sizes), s \in Pick(Spacings \union (IF k \in {"coordinates","graph"} THEN {NoSpacing} ELSE {})) :
         \E ps \in (IF k \in {"coordinates","graph"} THEN UNION {Pick({p \in FreePts(n) : Distinct(p)}) : n \in (IF Sim THEN Pick({2,3,4}) ELSE {2})} ELSE {<<>>}) :
         /\ ~(k = "all_to_all" /\ a = 0)
         /\ reg' = Make(k,a,b,ps,s) /\ hist' = <<[op |-> "new", s |-> s, f |-> Make(k,a,b,ps,s).f]>> /\ phase' = "ops"
Mul(f, s) == Norm(<<f[1]*s[1]*s[1], f[2]*s[2]*s[2]>>)
Base == IF reg.k \in {"circle"} THEN 1 ELSE MinD2(reg.l)
Going == phase = "ops" /\ Len(hist) <= MaxOps
Log(op, s, f) == reg' = [reg EXCEPT !.f = f] /\ hist' = Append(hist, [op |-> op, s |-> s, f |-> f]) /\ UNCHANGED phase
\* two rescalings at most, TLC's integers are bounded
Rescale == Going /\ Cardinality({i \in 1..Len(hist) : hist[i].op = "rescale"}) < 2 /\ \E s \in Pick(Spacings) : Log("rescale", s, Mul(reg.f, s))
Respace == Going /\ \E s \in Pick(Spacings) : Log("respace", s, Norm(<<s[1]*s[1], s[2]*s[2]*Base>>))
Store == Going /\ Log("store", NoSpacing, reg.f)
Copy == Going /\ Log("keep", NoSpacing, reg.f)
\* the same points with the roles of two qubits exchanged in the edges
SwapQ(q, i, j) == IF q = i THEN j ELSE IF q = j THEN i ELSE q
SwapE(e, i, j) == {LET a == SwapQ(p[1],i,j)  b == SwapQ(p[2],i,j) IN IF a < b THEN <<a,b>> ELSE <<b,a>> : p \in e}
Emit == phase = "ops" /\ Len(hist) > MaxOps /\ phase' = "out" /\ UNCHANGED <<reg, hist>>
        /\ PrintT("@@" \o ToJson([k |-> reg.k, a |-> reg.a, b |-> reg.b, pts |-> reg.l.pts, m |-> reg.l.m, num |-> reg.l.num,
               edges |-> SortedPairs(reg.l, reg.e), pairs |-> PairSeq(reg.l),
               d2 |-> LET sp == TLCEval(PairSeq(reg.l)) IN [i \in 1..Len(sp) |-> D2(reg.l, sp[i][1], sp[i][2])],
               min |-> MinD2(reg.l),
               alts |-> LET sp == TLCEval(PairSeq(reg.l)) IN [i \in 1..(IF Len(sp) < 6 THEN Len(sp) ELSE 6) |->
                          LET o == TLCEval(SwapE(reg.e, sp[i][1], sp[i][2])) IN [e |-> SortedPairs(reg.l, o), same |-> o = reg.e]], hist |-> hist]))
Init == reg = Reg("line",1,1,Line(1),{},<<1,1>>) /\ hist = <<>> /\ phase = "new"
Next == New \/ Rescale \/ Respace \/ Store \/ Copy \/ Emit
Spec == Init /\ [][Next]_rvars
(*---- meta-properties ----*)
\* lattices: distinct points, every point has a neighbour, the neighbourhood graph is connected, numbers of points
Connected(l, e) == LET n == Len(l.pts)
                       RECURSIVE Grow(_) Grow(S) == LET T == S \union {x \in 0..(n-1) : \E y \in S : <<x,y>> \in e \/ <<y,x>> \in e} IN IF T = S THEN S ELSE Grow(T)
                   IN Grow({0}) = 0..(n-1)
LatticeInv == phase # "new" => /\ Distinct(reg.l.pts)
   /\ (reg.k \notin {"coordinates","graph"} => Connected(reg.l, reg.e))
   /\ (reg.k = "triangular_lattice" => Cardinality(reg.e) = Len(reg.l.pts) + reg.a*reg.b - 1)       \* Euler: triangles are the bounded faces
   /\ (reg.k = "honeycomb_lattice" => Cardinality(reg.e) = Len(reg.l.pts) + reg.a*reg.b - 1 /\ Len(reg.l.pts) = 2*(reg.a+1)*(reg.b+1) - 2)
   /\ (reg.k = "rectangular_lattice" => Len(reg.l.pts) = reg.a*reg.b /\ Cardinality(reg.e) = 2*reg.a*reg.b - reg.a - reg.b)
   /\ (reg.k = "square" => reg.e = NearPairs(reg.l))
\* exchanging two qubits keeps the numbers of edges, and exchanging them back gives the same edges
SwapInv == phase = "ops" => \A p \in PairsOf(reg.l) : LET o == SwapE(reg.e, p[1], p[2]) IN Cardinality(o) = Cardinality(reg.e) /\ SwapE(o, p[1], p[2]) = reg.e
\* giving a spacing makes the smallest distance that spacing
SpacingInv == \A i \in 1..Len(hist) : hist[i].op \in {"new","respace"} /\ hist[i].s # NoSpacing /\ reg.k \notin {"circle"}
                => hist[i].f[1]*MinD2(reg.l)*hist[i].s[2]*hist[i].s[2] = hist[i].f[2]*hist[i].s[1]*hist[i].s[1]
=============================================================================
