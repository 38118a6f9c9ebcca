------------------------------ MODULE MCTrainer ------------------------------
(***************************************************************************)
(* The trainer as a state machine: training sessions with validation,      *)
(* callbacks, metric writing, checkpoints, learning-rate schedules, early   *)
(* stopping, interruptions, crashes and resuming from a folder.             *)
(*                                                                         *)
(* The trained model is abstracted to one integer weight w; a batch has an  *)
(* integer sum s, its loss has the value Loss(w,s) and the gradient s; the  *)
(* optimizer is gradient descent with momentum 1, so that the state after   *)
(* any number of steps is an exact integer.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Space,    \* record of sets: the configurations
          Runs,     \* number of calls of fit in a session
          Faults,   \* subset of {"interrupt","crash"}
          Sim
VARIABLES cfg, pc, runs, ep, last, bi, losses, w, buf, lr, ilr, gs, cur, files, best, bestl, es, stop, log, kept
vars == <<cfg, pc, runs, ep, last, bi, losses, w, buf, lr, ilr, gs, cur, files, best, bestl, es, stop, log, kept>>

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Tab == <<3,1,4,0,2>>
\* the loss of a batch, or a loss that the epoch prescribes
Loss(v,s) == IF cfg.script = <<>> THEN Tab[((v + s) % 5) + 1] ELSE cfg.script[(cur % Len(cfg.script)) + 1]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a,b) == IF a < b THEN a ELSE b
W0 == 1
LR0 == cfg.lr0
None == 0 - 999999

\* batches: the data cut into pieces of the batch size, at most maxb of them (0: no limit)
RECURSIVE Cut(_,_)
Cut(d,k) == IF Len(d) <= k THEN <<d>> ELSE <<SubSeq(d,1,k)>> \o Cut(SubSeq(d,k+1,Len(d)),k)
Batches(d) == LET c == Cut(d, cfg.bs) IN IF cfg.maxb = 0 THEN c ELSE SubSeq(c, 1, Min(cfg.maxb, Len(c)))
Sums(d) == LET c == Batches(d) IN [i \in 1..Len(c) |-> SumSeq(c[i])]
Train == Sums(cfg.train)
Val   == Sums(cfg.valid)
Test  == Sums(cfg.test)

(*------------------------------- callbacks -------------------------------*)
\* a callback at the end of a phase runs at the iterations divisible by its period, never at 0
Due(every, it) == every > 0 /\ it > 0 /\ it % every = 0
Ev(k, st, it, ph, sum, n) == [k |-> k, st |-> st, it |-> it, ph |-> ph, sum |-> sum, n |-> n, w |-> w]
User(st, it, ph, sum, n) == IF cfg.cb > 0 /\ Due(cfg.cb, it) THEN <<Ev("cb", st, it, ph, sum, n)>> ELSE <<>>
UserAlways(st, it, ph, sum, n) == IF cfg.cb > 0 THEN <<Ev("cb", st, it, ph, sum, n)>> ELSE <<>>
Write(c, st, it, ph, sum, n) == IF c THEN <<Ev("write", st, it, ph, sum, n)>> ELSE <<>>
PrintEv(c, st, it, ph, sum, n) == IF c THEN <<Ev("print", st, it, ph, sum, n)>> ELSE <<>>
Snapshot == [it |-> ep, w |-> w, buf |-> buf, lr |-> lr, ilr |-> ilr]
Save(f, it) == [i \in DOMAIN f \union {it} |-> IF i = it THEN [Snapshot EXCEPT !.it = it] ELSE f[i]]

\* one validation pass: a loss per batch, none of which changes the weight
ValEvents(it) == LET n == Len(Val) IN
   LET RECURSIVE F(_) F(i) == IF i > n THEN <<>> ELSE
         <<Ev("loss","val",it,"val",Loss(w,Val[i]),1)>> \o User("val_batch_end",it,"val",Loss(w,Val[i]),1) \o F(i+1) IN F(1)
ValSum == SumSeq([i \in 1..Len(Val) |-> Loss(w,Val[i])])
NV == Len(Val)
Better == bestl = None \/ ValSum < bestl

\* early stopping after `pat` calls without improvement
EsStep(v) == IF (IF cfg.mode = "min" THEN es.best = None \/ v < es.best ELSE es.best = None \/ v > es.best) THEN [best |-> v, cnt |-> 0]
             ELSE [es EXCEPT !.cnt = @ + 1]
EsOn(st) == cfg.es = st /\ cfg.pat > 0

(*------------------------------ one call of fit ---------------------------*)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
LatestSnap == IF DOMAIN files # {} THEN <<files[MaxOf(DOMAIN files)]>> ELSE best
LatestIt == IF DOMAIN files # {} THEN MaxOf(DOMAIN files) ELSE None
\* resume from the newest checkpoint of the folder; a new trainer starts from scratch otherwise
Fit(new) ==
  /\ pc = "idle" /\ runs < Runs /\ (new \/ (runs > 0 /\ ~cfg.best /\ w # None))
  /\ LET sn == LatestSnap
         base == IF new THEN [w |-> W0, buf |-> <<>>, lr |-> LR0, ilr |-> <<>>] ELSE [w |-> w, buf |-> buf, lr |-> lr, ilr |-> ilr]
         st == IF sn = <<>> THEN base ELSE sn[1]
         g == IF LatestIt = None THEN 0 ELSE LatestIt
     IN /\ w' = st.w /\ buf' = st.buf /\ lr' = st.lr /\ ilr' = st.ilr
        /\ gs' = g /\ cur' = g /\ ep' = g /\ last' = g + cfg.mi
  /\ runs' = runs + 1 /\ stop' = FALSE /\ es' = [best |-> None, cnt |-> 0] /\ bestl' = None /\ bi' = 0 /\ losses' = <<>> /\ kept' = <<>>
  /\ pc' = "setup" /\ log' = Append(log, [k |-> "fit", new |-> new])
  /\ UNCHANGED <<cfg, files, best>>
Frame == UNCHANGED <<cfg, runs, last, gs>>
\* the first validation, before training
Setup ==
  /\ pc = "setup"
  /\ LET it == cur IN
     IF cfg.val = 0 THEN log' = log /\ UNCHANGED <<bestl, best, es, stop>>
     ELSE /\ log' = log \o ValEvents(it) \o User("val_epoch_end",it,"val",ValSum,NV) \o Write(Due(cfg.val,it),"val_epoch_end",it,"val",ValSum,NV)
          /\ IF cfg.best /\ Due(cfg.val,it) /\ Better THEN bestl' = ValSum /\ best' = <<[Snapshot EXCEPT !.it = None]>> ELSE UNCHANGED <<bestl, best>>
          /\ IF EsOn("val_epoch_end") /\ Due(cfg.ev,it) THEN es' = EsStep(ValSum) /\ stop' = (stop \/ EsStep(ValSum).cnt >= cfg.pat) ELSE UNCHANGED <<es, stop>>
  /\ pc' = "start" /\ UNCHANGED <<ep, bi, losses, w, buf, lr, ilr, cur, files, kept>> /\ Frame
Start ==
  /\ pc = "start"
  /\ LET v == cfg.val > 0  ph == IF v THEN "val" ELSE ""  s == IF v THEN ValSum ELSE 0  n == IF v THEN NV ELSE 0 IN
     log' = log \o UserAlways("train_start",cur,ph,s,n) \o Write(v,"train_start",cur,ph,s,n)
  /\ files' = (IF cfg.val > 0 /\ ~cfg.best THEN Save(files, cur) ELSE files)
  /\ pc' = "epoch" /\ UNCHANGED <<ep, bi, losses, w, buf, lr, ilr, cur, best, bestl, es, stop, kept>> /\ Frame

Epoch ==
  /\ pc = "epoch"
  /\ IF stop \/ ep > last THEN pc' = "end" /\ UNCHANGED <<bi, losses, cur>>
     ELSE pc' = "batch" /\ bi' = 1 /\ losses' = <<>> /\ cur' = ep
  /\ UNCHANGED <<ep, w, buf, lr, ilr, files, best, bestl, es, stop, log, kept>> /\ Frame
Batch ==
  /\ pc = "batch" /\ bi <= Len(Train)
  /\ LET s == Train[bi]
         l == Loss(w,s)
         b2 == IF buf = <<>> THEN s ELSE buf[1] + s
         w2 == w - lr * b2
         lrb == IF cfg.sched = "cycb" /\ cur > 0 THEN 1 + Abs(cfg.step - Abs((cur % (2*cfg.step)) - cfg.step)) ELSE lr
     IN /\ w' = w2 /\ buf' = <<b2>> /\ losses' = Append(losses, l)
        /\ log' = log \o <<Ev("loss","train",cur,"train",l,1)>> \o
                  (LET e == User("train_batch_end",cur,"train",l,1) IN IF e = <<>> THEN <<>> ELSE <<[e[1] EXCEPT !.w = w2]>>)
        /\ lr' = lrb
  /\ bi' = bi + 1 /\ UNCHANGED <<pc, ep, ilr, cur, files, best, bestl, es, stop, kept>> /\ Frame
\* the user interrupts: the epoch is abandoned, training ends gracefully
Interrupt ==
  /\ pc = "batch" /\ bi <= Len(Train) /\ "interrupt" \in Faults /\ ~(\E i \in 1..Len(log) : log[i].k = "interrupt")
  /\ stop' = TRUE /\ ep' = ep + 1 /\ pc' = "epoch" /\ log' = Append(log, [k |-> "interrupt", it |-> cur, b |-> bi])
  /\ UNCHANGED <<bi, losses, w, buf, lr, ilr, cur, files, best, bestl, es, kept>> /\ Frame
\* the process dies: only the folder survives
Crash ==
  /\ pc = "batch" /\ bi <= Len(Train) /\ "crash" \in Faults /\ runs < Runs /\ ~(\E i \in 1..Len(log) : log[i].k = "crash")
  /\ pc' = "dead" /\ log' = Append(log, [k |-> "crash", it |-> cur, b |-> bi])
  /\ UNCHANGED <<ep, bi, losses, w, buf, lr, ilr, cur, files, best, bestl, es, stop, kept>> /\ Frame
Revive == pc = "dead" /\ pc' = "idle" /\ w' = None /\ UNCHANGED <<cfg, runs, ep, last, bi, losses, buf, lr, ilr, gs, cur, files, best, bestl, es, stop, log, kept>>

Tri(i) == cfg.step - Abs((i % (2*cfg.step)) - cfg.step)
Cos4(i) == LET m == i % 4 IN CASE m = 0 -> 4 [] m = 1 -> 2 [] m = 2 -> 0 [] m = 3 -> 2     \* 2(1+cos(pi i/2))
EndEpoch ==
  /\ pc = "batch" /\ bi > Len(Train)
  /\ LET it == ep
         sum == SumSeq(losses)
         n == Len(losses)
         e1 == IF EsOn("train_epoch_end") /\ Due(cfg.ev,it) THEN EsStep(sum) ELSE es
         init == IF ilr = <<>> THEN lr ELSE ilr[1]
         lr1 == CASE cfg.sched = "step" /\ Due(cfg.step,it) -> lr * 2
                  [] cfg.sched = "cyc" /\ Due(1,it) -> 1 + Tri(it)
                  [] cfg.sched = "cos" /\ Due(1,it) -> 1 + ((init - 1) * Cos4(it)) \div 4
                  [] OTHER -> lr
     IN /\ es' = e1 /\ lr' = lr1
        /\ ilr' = (IF cfg.sched = "cos" /\ Due(1,it) THEN <<init>> ELSE ilr)
        /\ stop' = (stop \/ (EsOn("train_epoch_end") /\ Due(cfg.ev,it) /\ e1.cnt >= cfg.pat))
        /\ files' = (IF ~cfg.best /\ Due(cfg.ck,it) THEN [i \in DOMAIN files \union {it} |-> IF i = it THEN
                        [it |-> it, w |-> w, buf |-> buf, lr |-> lr1, ilr |-> IF cfg.sched = "cos" /\ Due(1,it) THEN <<init>> ELSE ilr] ELSE files[i]] ELSE files)
        /\ log' = log \o User("train_epoch_end",it,"train",sum,n) \o PrintEv(Due(cfg.pr,it),"train_epoch_end",it,"train",sum,n)
                      \o Write(Due(cfg.wr,it),"train_epoch_end",it,"train",sum,n)
        /\ kept' = <<sum, n>>
  /\ pc' = (IF cfg.val > 0 /\ ep % cfg.val = 0 THEN "validate" ELSE "next") /\ UNCHANGED <<ep, bi, losses, w, buf, cur, best, bestl>> /\ Frame
Validate ==
  /\ pc = "validate"
  /\ LET it == ep
         e1 == IF EsOn("val_epoch_end") /\ Due(cfg.ev,it) THEN EsStep(ValSum) ELSE es
     IN /\ log' = log \o ValEvents(it) \o User("val_epoch_end",it,"val",ValSum,NV) \o Write(Due(cfg.val,it),"val_epoch_end",it,"val",ValSum,NV)
        /\ es' = e1 /\ stop' = (stop \/ (EsOn("val_epoch_end") /\ Due(cfg.ev,it) /\ e1.cnt >= cfg.pat))
        /\ IF cfg.best /\ Due(cfg.val,it) /\ Better THEN bestl' = ValSum /\ best' = <<[Snapshot EXCEPT !.it = None]>> ELSE UNCHANGED <<bestl, best>>
  /\ pc' = "next" /\ UNCHANGED <<ep, bi, losses, w, buf, lr, ilr, cur, files, kept>> /\ Frame
NextEpoch == pc = "next" /\ ep' = ep + 1 /\ pc' = "epoch" /\ UNCHANGED <<bi, losses, w, buf, lr, ilr, cur, files, best, bestl, es, stop, log, kept>> /\ Frame
End ==
  /\ pc = "end"
  /\ LET ph == IF kept = <<>> THEN "" ELSE "train"  s == IF kept = <<>> THEN 0 ELSE kept[1]  n == IF kept = <<>> THEN 0 ELSE kept[2] IN
     log' = log \o UserAlways("train_end",cur,ph,s,n) \o Write(cfg.wr > 0,"train_end",cur,ph,s,n)
                \o <<[k |-> "done", w |-> w, buf |-> buf, lr |-> lr, it |-> cur]>>
  /\ files' = (IF ~cfg.best /\ cfg.ck > 0 THEN [i \in DOMAIN files \union {cur} |-> IF i = cur THEN [Snapshot EXCEPT !.it = cur] ELSE files[i]] ELSE files)
  /\ pc' = "idle" /\ UNCHANGED <<ep, bi, losses, w, buf, lr, ilr, cur, best, bestl, es, stop, kept>> /\ Frame
\* testing evaluates the losses of the test set and changes nothing
TestNow ==
  /\ pc = "idle" /\ runs > 0 /\ w # None /\ cfg.test # <<>> /\ log[Len(log)].k # "test"
  /\ log' = log \o [i \in 1..Len(Test) |-> Ev("loss","test",cur,"test",Loss(w,Test[i]),1)] \o <<[k |-> "test"]>>
  /\ UNCHANGED <<cfg, pc, runs, ep, last, bi, losses, w, buf, lr, ilr, gs, cur, files, best, bestl, es, stop, kept>>
Emit == pc = "idle" /\ runs = Runs /\ w # None /\ pc' = "out" /\ UNCHANGED <<cfg, runs, ep, last, bi, losses, w, buf, lr, ilr, gs, cur, files, best, bestl, es, stop, log, kept>>
        /\ PrintT("@@" \o ToJson([cfg |-> cfg, log |-> log, files |-> {files[i] : i \in DOMAIN files}, best |-> best, w0 |-> W0]))

NoCfg == [lr0 |-> 1, script |-> <<>>]
Init == /\ cfg = NoCfg /\ pc = "choose" /\ runs = 0 /\ ep = 0 /\ last = 0 /\ bi = 0 /\ losses = <<>> /\ w = W0 /\ buf = <<>> /\ lr = 1 /\ ilr = <<>>
        /\ gs = 0 /\ cur = 0 /\ best = <<>> /\ bestl = None /\ es = [best |-> None, cnt |-> 0] /\ stop = FALSE /\ kept = <<>>
        /\ files = <<>> /\ log = <<>>
\* the user chooses a configuration; the folder may hold a checkpoint of an earlier training
Choose == /\ pc = "choose" /\ pc' = "idle"
  /\ \E mi \in Pick(Space.mi), val \in Pick(Space.val), ck \in Pick(Space.ck), bst \in Pick(Space.best), wr \in Pick(Space.wr), pr \in Pick(Space.pr),
        cb \in Pick(Space.cb), es0 \in Pick(Space.es), sched \in Pick(Space.sched), bs \in Pick(Space.bs), maxb \in Pick(Space.maxb), old \in Pick(Space.old), data \in Pick(Space.data), lr0 \in Pick(Space.lr0), script \in Pick(Space.script) :
       /\ bst => val > 0
       /\ es0.on = "val_epoch_end" => val > 0
       /\ cfg' = [mi |-> mi, val |-> val, ck |-> ck, best |-> bst, wr |-> wr, pr |-> pr, cb |-> cb, es |-> es0.on, pat |-> es0.pat, ev |-> es0.ev, script |-> script, mode |-> es0.mode,
                  sched |-> sched.s, step |-> sched.n, bs |-> bs, maxb |-> maxb, old |-> old, lr0 |-> lr0, train |-> data.train, valid |-> data.valid, test |-> data.test]
       /\ files' = (IF old > 0 THEN [i \in {old} |-> [it |-> i, w |-> 7, buf |-> <<2>>, lr |-> lr0, ilr |-> <<>>]] ELSE <<>>)
       /\ lr' = lr0
  /\ UNCHANGED <<runs, ep, last, bi, losses, w, buf, ilr, gs, cur, best, bestl, es, stop, log, kept>>
Next == Choose \/ Fit(TRUE) \/ Fit(FALSE) \/ Setup \/ Start \/ Epoch \/ Batch \/ Interrupt \/ Crash \/ Revive \/ EndEpoch \/ Validate \/ NextEpoch \/ End \/ TestNow \/ Emit
Spec == Init /\ [][Next]_vars

(*----------------------------- meta-properties ----------------------------*)
\* a fit performs at most max_iter+1 epochs, numbered from the one it resumes at
Bounded == pc \in {"batch","validate","next"} => ep >= gs /\ ep <= gs + cfg.mi
\* no callback at the end of a phase sees iteration 0, and periods are respected
Periods == pc # "choose" => \A i \in 1..Len(log) : log[i].k = "cb" /\ log[i].st \notin {"train_start","train_end"} => Due(cfg.cb, log[i].it)
\* without periodic checkpoints or validation nothing is written
NoFiles == (pc # "choose" /\ cfg.ck = 0 /\ cfg.val = 0 /\ cfg.old = 0) => DOMAIN files = {} /\ best = <<>>
\* checkpoints are numbered by the iteration they were taken at
Numbered == \A i \in DOMAIN files : files[i].it = i
\* only training steps change the weight (resuming restores it from the folder)
WeightStep == [][w' # w => pc \in {"batch","idle","dead"}]_vars
\* an early stop ends the training within one epoch
StopStep == [][stop /\ pc = "epoch" => pc' # "batch"]_vars
\* the best loss only improves within a fit
BestStep == [][pc \notin {"idle","choose"} /\ bestl # None => bestl' <= bestl]_vars
=============================================================================
