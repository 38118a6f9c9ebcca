------------------------------- MODULE MCEqual -------------------------------
(***************************************************************************)
(* Identity of programs.  A session builds a program and then variants of  *)
(* it by single edits anywhere in its tree: another gate, other qubits,    *)
(* another angle, another factor, a term or a part more or less, two parts *)
(* exchanged, or all sums and tensor products written in another order.    *)
(* Programs that compare equal must denote the same operator for all       *)
(* parameter values; the same construction, up to the order of summands    *)
(* and tensor factors, must compare equal.                                 *)
(***************************************************************************)
EXTENDS Menu
CONSTANT MaxEdits
VARIABLES edits
evars == <<built, stack, fuel, batch, phase, edits>>

(*--------------------------------- edits ----------------------------------*)
Other(g) == CASE g = "X" -> <<"Y","N">> [] g = "Y" -> <<"Z">> [] g = "Z" -> <<"X">> [] g = "H" -> <<"X">> [] g = "S" -> <<"T","SDagger">> [] g = "T" -> <<"S">>
              [] g = "SDagger" -> <<"S">> [] g = "I" -> <<"Z">> [] g = "N" -> <<"Z">> [] g = "RX" -> <<"RY">> [] g = "RY" -> <<"RZ">> [] g = "RZ" -> <<"PHASE","RX">>
              [] g = "PHASE" -> <<"RZ">> [] g = "CRX" -> <<"CRY">> [] g = "CRY" -> <<"CRZ">> [] g = "CRZ" -> <<"CPHASE">> [] g = "CPHASE" -> <<"CRZ">>
              [] g = "MCRX" -> <<"MCRY">> [] g = "MCRY" -> <<"MCRZ">> [] g = "MCRZ" -> <<"MCPHASE">> [] g = "MCPHASE" -> <<"MCRX">>
              [] g = "CNOT" -> <<"CZ">> [] g = "CZ" -> <<"CNOT">> [] OTHER -> <<>>
Free(b) == {q \in 0..(NQ-1) : q \notin Support(b)}
RSeq(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
ExprEdits(b) == Flat([i \in 1..Len(b.e) |-> << [b EXCEPT !.e[i] = <<@[1]+2, @[2], @[3], @[4], @[5]>>], [b EXCEPT !.e[i] = <<@[1], @[3], @[2], @[5], @[4]>>],
                                               [b EXCEPT !.e[i] = <<@[1], @[2], @[3], @[4], @[5] + 1>>] >>])
PermEdit(b) == IF Len(b.e) = 3 THEN << [b EXCEPT !.e = <<@[3], @[2], @[1]>>] >> ELSE <<>>
NameEdits(b) == [i \in 1..Len(Other(b.g)) |-> [b EXCEPT !.g = Other(b.g)[i]]]
QubitEdits(b) == IF b.g = "HamEvo" THEN <<>> ELSE
                 (IF Free(b) = {} THEN <<>> ELSE LET f == CHOOSE q \in Free(b) : TRUE IN
                       << [b EXCEPT !.q[1] = f] >> \o (IF b.c = <<>> THEN <<>> ELSE << [b EXCEPT !.c[1] = f] >>))
                 \o (IF Len(b.q) > 1 THEN << [b EXCEPT !.q = RSeq(@)] >> ELSE <<>>)
                 \o (IF Len(b.c) > 1 THEN << [b EXCEPT !.c = RSeq(@)] >> ELSE <<>>)
                 \o (IF b.c # <<>> THEN << [b EXCEPT !.c[1] = b.q[1], !.q[1] = b.c[1]] >> ELSE <<>>)
DataEdits(b) == CASE b.g = "HamEvo" ->
                       << [b EXCEPT !.d[1].c = -@] >> \o (IF b.d[1].h = 0 /\ Len(b.d) > 1 THEN <<MkHam(Tail(b.d), b.e[1])>> ELSE <<>>)
                       \o (IF Len(b.d) > 1 THEN << [b EXCEPT !.d = RSeq(@)] >> ELSE <<>>)
                       \o (IF b.d[1].p = "z" THEN << [b EXCEPT !.d[1].p = "w"] >> ELSE <<>>)
                  [] b.g = "Projector" -> << [b EXCEPT !.d = <<1 - (@[1] % 2), 1 - (@[1] % 2)>>] >>
                  [] b.g = "Matrix" -> << [b EXCEPT !.d[1] = b.d[2], !.d[2] = b.d[1]] >>
                  [] OTHER -> <<>>
Without(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Twice(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Exch(s, i) == [s EXCEPT ![i] = s[i+1], ![i+1] = s[i]]
RECURSIVE Edits(_)
Edits(b) ==
  IF b.t = "gate" THEN NameEdits(b) \o ExprEdits(b) \o PermEdit(b) \o QubitEdits(b) \o DataEdits(b)
  ELSE LET n == Len(b.b)
           inner == Flat([i \in 1..n |-> LET es == Edits(b.b[i]) IN [j \in 1..Len(es) |-> [b EXCEPT !.b[i] = es[j]]]])
           drop == IF n > 1 THEN [i \in 1..n |-> [b EXCEPT !.b = Without(@, i)]] ELSE <<>>
           dup == IF b.t \in {"chain","add"} THEN [i \in 1..n |-> [b EXCEPT !.b = Twice(@, i)]] ELSE <<>>
           \* as many parts as before, but one of them is another of them
           rep == IF b.t \in {"chain","add"} /\ n > 1 THEN [i \in 1..(n-1) |-> [b EXCEPT !.b[i] = b.b[i+1]]] ELSE <<>>
           exch == [i \in 1..(n-1) |-> [b EXCEPT !.b = Exch(@, i)]]
           scal == IF b.t # "scale" THEN <<>>
                   ELSE (IF b.s.t = "num" THEN << [b EXCEPT !.s.r = RNeg(@)], [b EXCEPT !.s.k = @ + 2] >>
                         ELSE IF b.s.t = "par" THEN << [b EXCEPT !.s.c = <<@[1], @[3], @[2]>>], [b EXCEPT !.s.c[1] = @ + 1] >>
                         ELSE << [b EXCEPT !.s.e[1] = @ + 2] >>)
       IN inner \o drop \o dup \o rep \o exch \o scal
\* a tensor product needs disjoint parts
RECURSIVE WellFormed(_)
WellFormed(b) == IF b.t = "gate" THEN Len(b.c) + Len(b.q) = Cardinality(Support(b)) \/ b.g = "HamEvo"
                 ELSE (\A i \in 1..Len(b.b) : WellFormed(b.b[i])) /\
                      (b.t = "kron" => \A i, j \in 1..Len(b.b) : i < j => Support(b.b[i]) \cap Support(b.b[j]) = {})
\* every sum and tensor product the other way round
RECURSIVE Shuffle(_)
Shuffle(b) == IF b.t = "gate" THEN b
              ELSE LET kids == [i \in 1..Len(b.b) |-> Shuffle(b.b[i])] IN [b EXCEPT !.b = IF b.t \in {"add","kron"} THEN RSeq(kids) ELSE kids]

(*------------------------------ comparisons -------------------------------*)
\* the order of summands and tensor factors does not matter
RECURSIVE Same(_,_)
Same(a, b) ==
  /\ a.t = b.t
  /\ IF a.t = "gate" THEN a = b
     ELSE /\ Len(a.b) = Len(b.b)
          /\ (a.t = "scale" => a.s = b.s)
          /\ IF a.t \in {"add","kron"}
             THEN \E p \in {f \in [1..Len(a.b) -> 1..Len(a.b)] : \A i, j \in 1..Len(a.b) : i # j => f[i] # f[j]} : \A i \in 1..Len(a.b) : Same(a.b[i], b.b[p[i]])
             ELSE \A i \in 1..Len(a.b) : Same(a.b[i], b.b[i])
Denote(b) == [i \in 1..Len(batch) |-> Columns(NQ, b, batch[i])]

Edit == Done /\ Len(edits) < MaxEdits /\ LET es == SelectSeq(TLCEval(Edits(Block)), WellFormed) IN
           \/ \E i \in Pick(1..Len(es)) : edits' = Append(edits, es[i]) /\ UNCHANGED vars
           \/ edits = <<>> /\ edits' = <<Shuffle(Block)>> /\ UNCHANGED vars
Leaves(b) == LET RECURSIVE L(_) L(x) == IF x.t = "gate" THEN <<x>> ELSE Flat([i \in 1..Len(x.b) |-> L(x.b[i])]) IN L(b)
Emit == Done /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch, edits>>
        /\ LET d0 == TLCEval(Denote(Block)) IN
           PrintT("@@" \o ToJson([n |-> NQ, block |-> Block, batch |-> batch, shuffled |-> Shuffle(Block), support |-> SetToAsc(Support(Block)),
              leaves |-> Leaves(Block),
              edits |-> [i \in 1..Len(edits) |-> [b |-> edits[i], same |-> Same(Block, edits[i]), differs |-> Denote(edits[i]) # d0]]]))
EInit == Init /\ edits = <<>>
ENext == (BuildNext /\ UNCHANGED edits) \/ Edit \/ Emit
ESpec == EInit /\ [][ENext]_evars

\* comparing structurally is sound and symmetric; shuffling is unobservable
SoundInv == \A i \in 1..Len(edits) : LET e == edits[i] IN (Same(Block, e) => Denote(e) = Denote(Block)) /\ Same(Block, e) = Same(e, Block)
ShuffleInv == Done => Same(Block, Shuffle(Block)) /\ Shuffle(Shuffle(Block)) = Block /\ Denote(Shuffle(Block)) = Denote(Block)
\* an edit of the angle or a factor of a program changes what it denotes unless it is a symmetry: some edits do
=============================================================================
