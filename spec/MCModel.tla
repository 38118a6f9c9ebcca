------------------------------- MODULE MCModel -------------------------------
(* A model as a state machine: a circuit with observables and a store of      *)
(* trainable parameter values.  The session evaluates the model, changes its  *)
(* parameters, fixes and frees them, stores it in different formats and       *)
(* restores it; every evaluation must be that of the current store.           *)
EXTENDS Menu
CONSTANTS MaxOps, Ops
VARIABLES store,    \* values of a, b, w
          fixed,    \* trainable parameters that have been fixed: they are inputs now
          slots,    \* what has been saved: format -> [st, fx] or <<>>
          log
mvars == <<built, stack, fuel, batch, phase, store, fixed, slots, log>>

Obs == SubSeq(built, 2, Len(built))
TVars == {"a","b","w"}
Init0 == [a |-> batch[1].a, b |-> batch[1].b, w |-> batch[1].w]
\* parameters occurring in the program
RECURSIVE Names(_)
EN(e) == {p \in {"x","y","a","b"} : e[CASE p = "x" -> 2 [] p = "y" -> 3 [] p = "a" -> 4 [] p = "b" -> 5] # 0}
Names(b) == IF b.t = "gate" THEN (UNION {EN(b.e[i]) : i \in 1..Len(b.e)}) \union
                                 (IF b.g = "HamEvo" THEN {b.d[i].p : i \in 1..Len(b.d)} \ {""} ELSE {})
            ELSE (UNION {Names(b.b[i]) : i \in 1..Len(b.b)}) \union
                 (IF b.t = "scale" THEN (CASE b.s.t = "num" -> {} [] b.s.t = "cos" -> EN(b.s.e)
                     [] b.s.t = "par" -> (IF b.s.c[2] # 0 THEN {"z"} ELSE {}) \union (IF b.s.c[3] # 0 THEN {"w"} ELSE {})) ELSE {})
Used == UNION {Names(built[i]) : i \in 1..Len(built)}
Trainable == (Used \cap TVars) \ fixed

\* the valuation an evaluation must use for batch element i; fixed parameters and overrides are inputs
Fixval == [a |-> 6, b |-> -2, w |-> 2]
Eff(i, over) == LET c(n) == IF n \in DOMAIN over THEN over[n] ELSE IF n \in fixed THEN Fixval[n] ELSE store[n]
                IN [batch[i] EXCEPT !.a = c("a"), !.b = c("b"), !.w = c("w")]
ValsAt(over) == [i \in 1..Len(batch) |-> [o \in 1..Len(Obs) |->
                   Expect(NQ, Obs[o], Eff(i,over), Apply(NQ, Block, Eff(i,over), VBasis(NQ,0)))]]
Note(op, d, over, st, fx) == log' = Append(log, [op |-> op, d |-> d])
Choices == [a |-> {-4,0,2,6}, b |-> {-2,0,4}, w |-> {-1,1,2,3}]
Stores == {[a |-> x, b |-> y, w |-> z] : x \in Choices.a, y \in Choices.b, z \in Choices.w}

Ready == phase = "done" /\ Len(log) < MaxOps
Frame == UNCHANGED <<built, stack, fuel, batch, phase>>
Eval == Ready /\ "eval" \in Ops /\ log' = Append(log, [op |-> "eval", vals |-> ValsAt(<<>>), fixed |-> fixed]) /\ UNCHANGED <<store, fixed, slots>> /\ Frame
\* a trainable parameter given as an input wins for this call only
Override == Ready /\ "override" \in Ops /\ \E n \in Trainable : \E v \in Pick(Choices[n]) :
              LET over == [m \in {n} |-> v] IN
              log' = Append(log, [op |-> "override", name |-> n, v |-> v, vals |-> ValsAt(over), fixed |-> fixed]) /\ UNCHANGED <<store, fixed, slots>> /\ Frame
Reset == Ready /\ "reset" \in Ops /\ Trainable # {} /\ \E s \in Pick(Stores) :
              store' = [n \in TVars |-> IF n \in Trainable THEN s[n] ELSE store[n]] /\ log' = Append(log, [op |-> "reset", st |-> store', fixed |-> fixed])
              /\ UNCHANGED <<fixed, slots>> /\ Frame
Fix == Ready /\ "fix" \in Ops /\ \E n \in Trainable : fixed' = fixed \union {n} /\ log' = Append(log, [op |-> "fix", name |-> n])
              /\ UNCHANGED <<store, slots>> /\ Frame
\* a parameter that is freed again starts from its initial value
Free == Ready /\ "fix" \in Ops /\ \E n \in fixed : fixed' = fixed \ {n} /\ store' = [store EXCEPT ![n] = Init0[n]] /\ log' = Append(log, [op |-> "free", name |-> n])
              /\ UNCHANGED <<slots>> /\ Frame
\* formats with parameter values, and formats with the program (and its initial values) only
WithValues == {"pt","model"}
Formats == {"pt","model","json","dict"}
Save == Ready /\ "save" \in Ops /\ \E f \in Formats :
              slots' = [slots EXCEPT ![f] = <<[st |-> IF f \in WithValues THEN store ELSE Init0, fx |-> fixed]>>]
              /\ log' = Append(log, [op |-> "save", f |-> f]) /\ UNCHANGED <<store, fixed>> /\ Frame
Load == Ready /\ "save" \in Ops /\ \E f \in Formats : slots[f] # <<>> /\ slots[f][1].fx = fixed /\
              store' = [n \in TVars |-> slots[f][1].st[n]]
              /\ log' = Append(log, [op |-> "load", f |-> f]) /\ UNCHANGED <<slots, fixed>> /\ Frame
\* restore only the values into the existing model
LoadState == Ready /\ "save" \in Ops /\ slots["model"] # <<>> /\ slots["model"][1].fx = fixed /\
              store' = [n \in TVars |-> IF n \in Trainable THEN slots["model"][1].st[n] ELSE store[n]]
              /\ log' = Append(log, [op |-> "loadparams"]) /\ UNCHANGED <<slots, fixed>> /\ Frame
\* go on with a copy; the original must not matter any more
Copy == Ready /\ "copy" \in Ops /\ log' = Append(log, [op |-> "copy"]) /\ UNCHANGED <<store, fixed, slots>> /\ Frame
\* train another model of the same circuit
Other == Ready /\ "copy" \in Ops /\ Trainable # {} /\ \E s \in Pick(Stores) : log' = Append(log, [op |-> "other", st |-> s]) /\ UNCHANGED <<store, fixed, slots>> /\ Frame

Emit == phase = "done" /\ Len(log) = MaxOps /\ phase' = "out" /\ UNCHANGED <<built, stack, fuel, batch, store, fixed, slots, log>>
        /\ PrintT("@@" \o ToJson([n |-> NQ, block |-> Block, obs |-> Obs, batch |-> batch, log |-> log, store |-> store, fixed |-> fixed,
              fixval |-> Fixval, final |-> ValsAt(<<>>), trainable |-> Trainable, used |-> Used]))
MInit == Init /\ store = [a |-> 0, b |-> 0, w |-> 0] /\ fixed = {} /\ slots = [f \in Formats |-> <<>>] /\ log = <<>>
\* parameters get their initial values when the model is made
Build == BuildNext /\ UNCHANGED <<fixed, slots, log>> /\ store' = Init0
Next == Build \/ Eval \/ Override \/ Reset \/ Fix \/ Free \/ Save \/ Load \/ LoadState \/ Copy \/ Other \/ Emit
Spec == MInit /\ [][Next]_mvars

(*---- meta-properties ----*)
TypeInv == fixed \subseteq TVars /\ (phase = "done" => fixed \subseteq Used)
\* evaluations are real numbers and depend on nothing but the effective valuation
RealInv == phase = "done" => \A i \in 1..Len(batch), o \in 1..Len(Obs) : SIsReal(ValsAt(<<>>)[i][o])
\* evaluating, saving, copying and other models leave the store alone
QuietStep == [][log' # log /\ log'[Len(log')].op \in {"eval","override","save","copy","other"} => store' = store /\ fixed' = fixed]_mvars
=============================================================================
