-------------------------------- MODULE Cli --------------------------------
(* Runs of the command line tool, line by line, against CliModel.             *)
EXTENDS CliModel, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP
VARIABLE at

\* earlier runs of the scenario that printed a signed message
Hist(k) == {Log[j] : j \in {x \in 1..(k - 1) : Log[x].sc = Log[k].sc /\ Log[x].rc = 0 /\ SignOnly(Log[x]) /\ Log[x].fmt # "quiet"}}

\* comparison that does not mind what it compares
Eq(x, y) == ToString(x) = ToString(y)
Text(k, v) == IF k \in {"amount", "fundedWrappedMintLamports", "fundedBackpointerLamports"}
              THEN LET RECURSIVE Dec(_)
                       Pad(d) == IF d < 10 THEN "000" ELSE IF d < 100 THEN "00" ELSE IF d < 1000 THEN "0" ELSE ""
                       Dec(n) == IF Len(n) = 0 THEN "0" ELSE IF Len(n) = 1 THEN ToString(n[1])
                                 ELSE Dec(Tail(n)) \o Pad(Head(n)) \o ToString(Head(n))
                   IN Dec(v)
              ELSE v
\* signatures: one for each signer, in any order
SigsOK(e, s) == /\ Len(s) = Cardinality(Signers(e))
                /\ \A l \in Signed(e) : \E j \in DOMAIN s : s[j] = "sig:" \o l
                /\ Cardinality({j \in DOMAIN s : s[j] = "sig:none"}) = Cardinality(Signers(e) \ Signed(e))
SignOnlyOK(e, d) == /\ Same(e, d.msg) /\ d.bh = BH(e)
                    /\ {x[1] : x \in Rng(d.by)} = Signed(e) /\ \A x \in Rng(d.by) : x[2] = "good"
                    /\ Rng(d.absent) = Signers(e) \ Signed(e)
                    /\ d.bad = <<>>

PrintJson(e, o) ==
  IF e.kind # "json" THEN {<<"C21", "no JSON printed">>}
  ELSE LET x == Json(e, o)
           plain == DOMAIN x \ {"signatures", "signOnlyData"}
       IN {<<"C21", "printed " \o k \o ": " \o (IF k \in DOMAIN e.out THEN ToString(e.out[k]) ELSE "nothing")>> :
             k \in {k \in plain : k \notin DOMAIN e.out \/ ~Eq(e.out[k], x[k])}}
          \cup (IF "signatures" \in DOMAIN x /\ o # "print" /\ ~SigsOK(e, e.out.signatures) THEN {<<"C21", "printed other signatures">>} ELSE {})
          \cup (IF "signOnlyData" \in DOMAIN x /\ o # "print" /\ ~Eq(e.out.signOnlyData, "") THEN {<<"C21", "printed a signed message">>} ELSE {})
          \cup (IF o # "print" THEN {}
                ELSE IF Eq(e.out.signOnlyData, "") \/ Eq(DOMAIN e.out.signOnlyData, {}) THEN {<<"C22", "no signed message printed">>}
                ELSE IF ~SignOnlyOK(e, e.out.signOnlyData) THEN {<<p, "printed signatures are not those of the transaction">> : p \in {"C21", "C22"}} ELSE {})
PrintText(e, o) ==
  LET x == Json(e, o)
      have == IF e.kind = "text" THEN Rng(e.out.pairs) ELSE {}
      \* an absent value has no line of its own
      want == {t \in Rng(Title(e)) : ~Eq(x[t[1]], "")}
  IN {<<"C21", "did not print " \o t[2] \o ": " \o Text(t[1], x[t[1]])>> : t \in {t \in want : ~\E h \in have : Eq(h, <<t[2], Text(t[1], x[t[1]])>>)}}
     \cup {<<"C21", "printed " \o t[2]>> : t \in {t \in Rng(Title(e)) \ want : \E h \in have : h[1] = t[2]}}
     \cup (IF o # "print" THEN {}
           ELSE IF "so" \notin DOMAIN e.out THEN {<<"C22", "no signed message printed">>}
           ELSE IF ~SignOnlyOK(e, e.out.so) THEN {<<p, "printed signatures are not those of the transaction">> : p \in {"C21", "C22"}} ELSE {})
Printed(e, o) == CASE e.fmt \in {"json", "json-compact"} -> PrintJson(e, o)
                 [] e.fmt = "quiet" -> {}
                 [] OTHER -> PrintText(e, o)

\* submissions are of what was asked for, whatever becomes of them
Bad(k) ==
  LET e == Log[k]
      o == Outcome(e, Hist(k))
      special == e.dry \/ SignOnly(e) \/ e.fault # "none" \/ (IsMove(e) /\ e.pre # <<>>)
      which == (IF special THEN {"C22"} ELSE {}) \cup (IF e.fault = "none" THEN {"C21"} ELSE {})
      of(ps, msg) == {<<p, msg>> : p \in ps}
  IN IF o = "open" THEN (IF e.rc # 0 /\ e.sent # <<>> /\ e.fault # "status" THEN {<<"C22", "submitted and reported an error">>} ELSE {})
     ELSE
     (IF e.rc = 0 /\ o \notin Success THEN of(which, "reported success, expected: " \o o) ELSE {})
     \cup (IF e.rc # 0 /\ o \in Success THEN of(which, "failed, expected: " \o o) ELSE {})
     \cup (IF o \in {"refuse", "nothing", "print", "simulate", "simfail"} /\ e.tried # <<>> THEN {<<"C22", "submitted a transaction, expected: " \o o>>} ELSE {})
     \cup (IF o \in {"refuse", "nothing", "print"} /\ e.sims # <<>> THEN {<<"C22", "simulated a transaction, expected: " \o o>>} ELSE {})
     \cup (IF o \in {"submit", "subfail"} /\ Len(e.sent) # 1 THEN {<<"C21", "submitted " \o ToString(Len(e.sent)) \o " transactions">>} ELSE {})
     \cup (IF o \in {"submit", "subfail", "reject"} /\ \E t \in Rng(e.tried) : ~Same(e, t) THEN {<<"C21", "submitted another transaction than asked for">>} ELSE {})
     \cup (IF o = "simulate" /\ (Len(e.sims) # 1 \/ \E t \in Rng(e.sims) : ~Same(e, t)) THEN of({"C21", "C22"}, "simulated another transaction than asked for") ELSE {})
     \cup (IF e.odd # <<>> THEN of(which, "asked the node for " \o e.odd[1]) ELSE {})
     \cup (IF e.rc = 0 /\ o \in Success THEN Printed(e, o) ELSE {})

Init == at = 0
Next == /\ at < Len(Log)
        /\ at' = at + 1
        /\ \A b \in Bad(at + 1) : b[1] = Prop => PrintT("@VIOL " \o ToString(at + 1) \o " " \o b[1] \o " " \o b[2])
Spec == Init /\ [][Next]_at
Post == TLCGet("distinct") = Len(Log) + 1 /\ PrintT("@DONE " \o ToString(Len(Log)))
=============================================================================
