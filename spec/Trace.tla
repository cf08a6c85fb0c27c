------------------------------- MODULE Trace -------------------------------
(* Checks recorded executions of the implementation against the              *)
(* specification. The log (one JSON object per line, IOEnv.LOG) consists of  *)
(* "reset" lines, which give a world, and "ev" lines: an instruction or an    *)
(* action of the environment with its result and the accounts it changed.     *)
(* The world is carried along from the log; each program instruction is       *)
(* judged by Props!Bad. A "fork" event was executed in the same world, which  *)
(* its successors do not see.                                                 *)
EXTENDS Props, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP      \* a property, or ALL

VARIABLES i, w, legit
vars == <<i, w, legit>>

World(e) == [a |-> e.a, epoch |-> e.epoch, cust |-> e.cust, tag |-> e.tag]

Env(e) == e.op \notin Ops \cup {"raw"}

After(w0, e) == IF e.op = "epoch" THEN [w0 EXCEPT !.epoch = e.e] ELSE Apply(w0, e.d)

(* the backing invariant is demanded as long as nothing but the program takes *)
(* tokens out of escrows                                                      *)
LegitStep(w0, e, w1) ==
  \/ ~Env(e) /\ \A l \in Escrows(w0) : ~DelegateTook(w0, e, l)
  \/ \A l \in Escrows(w0) : NLe(AmtOf(w0, l), AmtOf(w1, l))

\* IOEnv.STATS: what was exercised, for the evidence
Names(S) == IF S = {} THEN "-" ELSE LET x == CHOOSE y \in S : TRUE IN
              x \o (IF Cardinality(S) > 1 THEN "+" \o ToString(Cardinality(S) - 1) ELSE "")
Stat(w0, e) ==
  IF Opt(IOEnv, "STATS", "") # "1" \/ Env(e) THEN TRUE
  ELSE IF e.op = "raw" THEN PrintT("@ST raw " \o Meaning(e).op \o " FALSE " \o ToString(e.ok) \o " same " \o e.err)
  ELSE LET st == Step(w0, e)
       IN PrintT("@ST " \o e.op \o " " \o Names(st.g) \o " " \o ToString(st.may) \o " " \o ToString(e.ok)
                 \o " " \o (IF st.d = <<>> THEN "same" ELSE "change") \o " " \o e.err)

\* C25 is judged on executions of the program as compiled for the chain: all the rest holds there too, and it always
\* comes to an end by itself. (A syncspl of a foreign layout is Metaplex's business, and so is how that ends; and the
\* 32 KB heap of a program does not hold metadata of any size.)
Aborts == {"ProgramFailedToComplete", "ComputationalBudgetExceeded", "AccessViolation"}
RECURSIVE Texts(_)
Texts(kv) == IF kv = <<>> THEN 0 ELSE Len(Head(kv).k) + (IF Head(kv).c = "v" THEN Len(Head(kv).v) ELSE 0) + Texts(Tail(kv))
Most(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Meant(e) == IF e.op = "raw" THEN Meaning(e) @@ e ELSE e
Heavy(w0, e) ==
  LET m == Meant(e)
      md == CASE m.op = "sync22" /\ Len(e.a) >= 4 -> Source(w0, e.a[3], SubSeq(e.a, 5, Len(e.a))).md
              [] m.op = "syncspl" /\ Len(e.a) >= 7 -> Source(w0, e.a[4], SubSeq(e.a, 8, Len(e.a))).md
              [] OTHER -> NoMd
  IN Len(md.kv) > 8 \/ Texts(md.kv) + Most(md.nl) + Most(md.sl) + Most(md.ul) > 1000
Aborted(w0, e, all) ==
  IF e.ok \/ e.err \notin Aborts THEN all
  ELSE IF Heavy(w0, e) THEN {}
  ELSE IF Meant(e).op # "invalid" /\ Step(w0, Meant(e)).may THEN all
  ELSE all \cup {<<"C25", e.op \o " was aborted: " \o e.err>>}

Report(n, e, bad) ==
  \A b \in bad : PrintT("@VIOL " \o ToString(n) \o " " \o b[1] \o " " \o b[2])

Init == i = 1 /\ w = World(Log[1]) /\ legit = Backed(w)
Next ==
  /\ i < Len(Log)
  /\ i' = i + 1
  /\ LET e == Log[i + 1] IN
     IF e.t = "reset" THEN w' = World(e) /\ legit' = Backed(w')
     ELSE LET w1 == After(w, e)
              fork == Opt(e, "fork", FALSE)
              all == IF Env(e) THEN {} ELSE Bad(w, e, w1)
              inv == IF e.ok /\ legit /\ LegitStep(w, e, w1) /\ ~Backed(w1)
                     THEN {<<"C01", "wrapped supply exceeds the escrow">>} ELSE {}
              bad == IF Prop = "C25" THEN {<<"C25", b[2]>> : b \in IF Env(e) THEN {} ELSE Aborted(w, e, all \cup inv)}
                     ELSE {b \in all \cup inv : Prop = "ALL" \/ b[1] = Prop}
          IN /\ w' = IF fork THEN w ELSE w1
             /\ legit' = IF fork THEN legit ELSE legit /\ LegitStep(w, e, w1)
             /\ Report(i + 1, e, bad)
             /\ Stat(w, e)
Spec == Init /\ [][Next]_vars

Done == PrintT("@DONE " \o ToString(Len(Log)))
Post == TLCGet("distinct") = Len(Log) /\ Done
=============================================================================
