------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* Planar registers.  A point is a pair of integers <<a,b>> standing for   *)
(* the coordinates (a/2, b*Sqrt(m)/2) with m = 1 or 3, so that four times  *)
(* the squared distance of two points is the integer da^2 + m*db^2.        *)
(* A lattice is [pts |-> sequence of points, m |-> metric,                 *)
(*               num |-> TRUE when the numbering of the points is fixed].  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqOf(n, f(_)) == [i \in 1..n |-> f(i-1)]
Line(n) == [pts |-> SeqOf(n, LAMBDA i : <<2*i,0>>), m |-> 1, num |-> TRUE]
Rect(r,c) == [pts |-> SeqOf(r*c, LAMBDA k : <<2*(k \div r), 2*(k % r)>>), m |-> 1, num |-> TRUE]
\* the outline of a square with s points per side
Square(s) == LET t == s-1 IN
  [pts |-> SeqOf(4*t, LAMBDA k : LET side == k \div t  o == k % t IN
      CASE side = 0 -> <<0,2*o>> [] side = 1 -> <<-2*o,2*t>> [] side = 2 -> <<-2*t,2*(t-o)>> [] side = 3 -> <<-2*(t-o),0>>), m |-> 1, num |-> TRUE]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* rows of triangles: m rows of n triangles
Tri(m,n) == LET N == (n+1) \div 2
                Row(j) == SeqOf(IF n % 2 = 1 /\ j % 2 = 1 THEN N ELSE N+1, LAMBDA i : <<2*i + (j % 2), j>>)
            IN [pts |-> Flat(SeqOf(m+1, LAMBDA j : Row(j))), m |-> 3, num |-> FALSE]
\* m rows, n columns of hexagons
Hex(m,n) == LET M == 2*m
                Gone(i,j) == (i = 0 /\ j = M+1) \/ (i = n /\ j = (M+1)*(n % 2))
                P(i,j) == <<1 + 2*i + 2*(i \div 2) + (j % 2)*(2*(i % 2) - 1), j>>
                Col(i) == LET js == SelectSeq(SeqOf(M+2, LAMBDA j : j), LAMBDA j : ~Gone(i,j)) IN [k \in 1..Len(js) |-> P(i,js[k])]
            IN [pts |-> Flat(SeqOf(n+1, LAMBDA i : Col(i))), m |-> 3, num |-> FALSE]
Free(ps) == [pts |-> ps, m |-> 1, num |-> TRUE]
\* qubits are numbered from 0
D2(l, i, j) == LET p == l.pts[i+1]  q == l.pts[j+1] IN (p[1]-q[1])*(p[1]-q[1]) + l.m*(p[2]-q[2])*(p[2]-q[2])
PairsOf(l) == {p \in (0..(Len(l.pts)-1)) \X (0..(Len(l.pts)-1)) : p[1] < p[2]}
MinD2(l) == LET S == {D2(l,p[1],p[2]) : p \in PairsOf(l)} IN IF S = {} THEN 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
NearPairs(l) == LET d == MinD2(l) IN {p \in PairsOf(l) : D2(l,p[1],p[2]) = d}
\* in lexicographic order
PairSeq(l) == LET n == Len(l.pts) IN Flat(SeqOf(n, LAMBDA i : SeqOf(n-1-i, LAMBDA j : <<i, i+1+j>>)))
SortedPairs(l, S) == SelectSeq(PairSeq(l), LAMBDA p : p \in S)
=============================================================================
