----------------------------- MODULE MCMitigate -----------------------------
(***************************************************************************)
(* Readout mitigation.  A device reads a register with known faults; the   *)
(* session hands the observed counts to the mitigation.  When the observed *)
(* counts are exactly what the faults make of a distribution, the result   *)
(* is that distribution; otherwise the nearest one to the formal inverse.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sizes, Entries, Fams, Sim, MaxSamples
VARIABLES n, fam, done, cur, obs, out
vars == <<n, fam, done, cur, obs, out>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
RECURSIVE Pow2(_)
Pow2(m) == IF m = 0 THEN 1 ELSE 2 * Pow2(m-1)
RECURSIVE PowK(_,_)
PowK(b,m) == IF m = 0 THEN 1 ELSE b * PowK(b,m-1)
Bit(i,q) == (i \div Pow2(n-1-q)) % 2
\* family f: probability over 8 of reading 0 when qubit q is 0 / is 1
P00(f,q) == CASE f = 1 -> 7 - (q % 3)   [] f = 2 -> 8 - (q % 2)  [] f = 3 -> 6 [] f = 4 -> 8 [] f \in {5,6} -> 8 - 3*(q % 2)
P01(f,q) == CASE f = 1 -> 1 + (q % 2)   [] f = 2 -> 3            [] f = 3 -> 2 + (q % 2) [] f = 4 -> 0 [] f \in {5,6} -> 2*(q % 2)
Conf(f,q,o,i) == LET z == IF i = 0 THEN P00(f,q) ELSE P01(f,q) IN IF o = 0 THEN z ELSE 8 - z
RECURSIVE Prod(_,_,_)
Prod(o,i,q) == IF q < 0 THEN 1 ELSE Conf(fam,q,Bit(o,q),Bit(i,q)) * Prod(o,i,q-1)
Basis == 0..(Pow2(n)-1)
\* family 6: a fault of the whole register, which is read as its successor with probability 3/8
Corr(o,i) == IF o = i THEN 5 ELSE IF o = (i+1) % Pow2(n) THEN 3 ELSE 0
Entry(o,i) == IF fam = 6 THEN Corr(o,i) * PowK(8,n-1) ELSE Prod(o,i,n-1)
RECURSIVE SumF(_,_)
SumF(f, k) == IF k < 0 THEN 0 ELSE f[k] + SumF(f, k-1)
\* what the device reads for the counts t: times 8^n
Read(t) == [o \in Basis |-> SumF([i \in Basis |-> Entry(o,i) * t[i]], Pow2(n)-1)]
(*---- nearest distribution to a vector with the right sum ----*)
\* subtract the same amount from every kept entry; entries are scaled by 840 so that the amount is whole
Scale == 840
Keep(t, K) == LET m == Cardinality(K)  s == SumF([i \in Basis |-> IF i \in K THEN t[i] ELSE 0], Pow2(n)-1) IN
              (s - SumF(t, Pow2(n)-1)) * (Scale \div m)       \* excess of the kept entries, per entry
Nearest(t) == LET Good == {K \in SUBSET Basis : K # {} /\
                      (\A i \in K : t[i]*Scale - Keep(t,K) >= 0) /\ (\A i \in Basis \ K : t[i]*Scale - Keep(t,K) <= 0)}
                  K == CHOOSE X \in Good : TRUE
              IN [i \in Basis |-> IF i \in K THEN t[i]*Scale - Keep(t,K) ELSE 0]
(*---- sessions: several registers read with the same number of shots ----*)
Init == n \in Sizes /\ fam = 0 /\ done = FALSE /\ cur = <<>> /\ obs = <<>> /\ out = <<>>
Start == fam = 0 /\ \E f \in Pick(Fams) : fam' = f /\ UNCHANGED <<n, done, cur, obs, out>>
Grow == fam > 0 /\ ~done /\ Len(cur) < Pow2(n) /\ \E e \in Pick(Entries) : cur' = Append(cur, e) /\ UNCHANGED <<n, fam, done, obs, out>>
T == [i \in Basis |-> cur[i+1]]
Total == SumF(T, Pow2(n)-1)
\* a register is kept when the device could have read it
Fits == (\A o \in Basis : Read(T)[o] >= 0) /\ Total > 0 /\ (obs = <<>> \/ Total = obs[1].total)
Close == fam > 0 /\ ~done /\ Len(cur) = Pow2(n) /\ cur' = <<>> /\ UNCHANGED <<n, fam, done, out>>
         /\ obs' = (IF Fits THEN Append(obs, [total |-> Total,
                         raw |-> [i \in 1..Pow2(n) |-> Read(T)[i-1]],
                         exact |-> \A i \in Basis : T[i] >= 0,
                         want |-> [i \in 1..Pow2(n) |-> Nearest(T)[i-1]]]) ELSE obs)
Finish == ~done /\ cur = <<>> /\ Len(obs) = MaxSamples /\ done' = TRUE /\ UNCHANGED <<n, fam, cur, obs, out>>
          /\ (Sim => PrintT("@@" \o ToJson([n |-> n, fam |-> fam, obs |-> obs, scale |-> Scale, den |-> PowK(8,n), corr |-> [o \in 1..Pow2(n) |-> [i \in 1..Pow2(n) |-> Corr(o-1,i-1)]],
                 conf |-> [q \in 1..n |-> <<<<Conf(fam,q-1,0,0),Conf(fam,q-1,0,1)>>,<<Conf(fam,q-1,1,0),Conf(fam,q-1,1,1)>>>>]])))
Next == Start \/ Grow \/ (Close /\ Len(obs) < MaxSamples) \/ Finish
Spec == Init /\ [][Next]_vars
(*---- meta-properties ----*)
Full == fam > 0 /\ Len(cur) = Pow2(n) /\ Total > 0
\* reading does not lose shots; the nearest distribution is one, and of a distribution it is itself
ReadInv == Full => SumF(Read(T), Pow2(n)-1) = Total * PowK(8,n)
NearInv == Full => /\ SumF(Nearest(T), Pow2(n)-1) = Total * Scale
                   /\ \A i \in Basis : Nearest(T)[i] >= 0
                   /\ ((\A i \in Basis : T[i] >= 0) => \A i \in Basis : Nearest(T)[i] = T[i]*Scale)
\* no other distribution on the grid is closer
Dist(a, b) == SumF([i \in Basis |-> (a[i]-b[i])*(a[i]-b[i])], Pow2(n)-1)
BestInv == Full /\ n = 1 => LET w == Nearest(T) IN
             \A k \in 0..(4*Total) : LET d == [i \in Basis |-> IF i = 0 THEN k*(Scale \div 4) ELSE Total*Scale - k*(Scale \div 4)]
                                       t == [i \in Basis |-> T[i]*Scale] IN Dist(t, w) <= Dist(t, d)
=============================================================================
