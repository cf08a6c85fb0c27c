------------------------------- MODULE CliGen -------------------------------
(* Requests to the command line tool: N scenarios, each one or several runs,  *)
(* chosen from the whole space by a hash of scenario number and SEED.          *)
EXTENDS GenLib

Fmt == <<"json", "json", "json-compact", "default", "display", "v", "verbose", "quiet">>
Fault(i, list) == IF Chance(i, 3, IF Prop = "C22" THEN 55 ELSE 8) THEN Pick(list, i, 4) ELSE "none"
Dry(i) == Chance(i, 5, IF Prop = "C22" THEN 35 ELSE 15)

Base(i) ==
  [sc |-> i, r |-> 1, t |-> "cli", cmd |-> "", order |-> Rnd(i, 1) % 2, via |-> Pick(<<"config", "flag">>, i, 2), urlvia |-> Pick(<<"config", "flag">>, i, 6),
   payer |-> File(Kp("p", i)), fmt |-> Pick(Fmt, i, 7), dry |-> Dry(i), fault |-> "none", chain |-> <<>>, know |-> <<>>,
   on |-> "", idem |-> FALSE, u |-> Nm("u", i), wp |-> Pick(<<"SPL", "T22">>, i, 8), dest |-> "", ta |-> "", rcp |-> "", n |-> Zero, auth |-> None,
   um |-> "", up |-> "", ms |-> <<>>, bh |-> "", so |-> FALSE, pre |-> <<>>, src |-> "", own |-> ""]
Known(r, us) == [r EXCEPT !.know = SetToSeq(Derived(us, r.payer.l) \cup Meta(r.u) \cup {r.payer.l, "latest", "other"})]

CreateMint(i) ==
  LET b == [Base(i) EXCEPT !.cmd = "create-mint", !.idem = Chance(i, 20, 40), !.fault = Fault(i, <<"get", "rent", "hash", "send", "status", "sim", "simrpc">>),
                           !.wp = IF Chance(i, 21, 4) THEN "other" ELSE Base(i).wp]
      wm == dWM(b.u, b.wp, "TW")
      there == Chance(i, 22, 30)
      size == MintSize(b.wp)
  IN <<Known([b EXCEPT !.chain =
        MintAt(b.u, i)
        \o (IF there THEN <<[Mint(wm, b.wp, IF b.wp = "T22" THEN wm ELSE "none", FALSE) EXCEPT !.lam = RentOf(size) + 100 * (Rnd(i, 23) % 3)]>> ELSE Funded(wm, size, i, 24))
        \o (IF there THEN <<[Junk(dBP(wm, "TW")) EXCEPT !.own = "TW", !.lam = RentOf(32)]>> ELSE Funded(dBP(wm, "TW"), 32, i, 25))], {b.u})>>

CreateEscrow(i) ==
  LET b == [Base(i) EXCEPT !.cmd = "create-escrow-account", !.idem = Chance(i, 20, 50), !.fault = Fault(i, <<"get", "hash", "send", "status", "sim", "simrpc">>),
                           !.wp = IF Chance(i, 21, 4) THEN "other" ELSE Base(i).wp]
      m == MintAt(b.u, i)
      up == IF m = <<>> THEN "SPL" ELSE m[1].own
      e == dATA(dAU(dWM(b.u, b.wp, "TW"), "TW"), b.u, up)
      other == dATA(dAU(dWM(b.u, b.wp, "TW"), "TW"), b.u, IF up = "T22" THEN "SPL" ELSE "T22")
  IN <<Known([b EXCEPT !.chain = m
         \o (CASE Rnd(i, 22) % 8 < 3 -> <<>>
               [] Rnd(i, 22) % 8 < 6 -> <<Tok(e, IF up \in Tokens THEN up ELSE "SPL", b.u, up = "T22")>>
               [] Rnd(i, 22) % 8 = 6 -> <<Lam(e, 1)>>
               [] OTHER -> <<Lam(e, 3000000)>>)
         \o (IF Chance(i, 23, 20) THEN <<Tok(other, "T22", b.u, FALSE)>> ELSE <<>>)], {b.u})>>

CloseStuck(i) ==
  LET b == [Base(i) EXCEPT !.cmd = "close-stuck-escrow", !.dest = Pick(<<Nm("d", i), Kp("p", i)>>, i, 20), !.fault = Fault(i, <<"get", "hash", "send", "status", "sim", "simrpc">>),
                           !.wp = IF Chance(i, 21, 4) THEN "other" ELSE Base(i).wp]
  IN <<Known([b EXCEPT !.chain = MintAt(b.u, i), !.dest = IF Chance(i, 22, 5) THEN b.u ELSE b.dest], {b.u})>>

FindPdas(i) ==
  LET b == [Base(i) EXCEPT !.cmd = "find-pdas", !.fault = Fault(i, <<"get", "hash", "send">>), !.wp = IF Chance(i, 21, 4) THEN "other" ELSE Base(i).wp]
  IN <<Known([b EXCEPT !.chain = MintAt(b.u, i)], {b.u})>>

SyncSpl(i) ==
  LET src == IF Chance(i, 20, 50) THEN Pick(<<Nm("src", i), Nm("u", i), MPX(Nm("u", i))>>, i, 21) ELSE ""
      b == [Base(i) EXCEPT !.cmd = "sync-metadata-to-spl-token", !.src = src, !.own = IF Chance(i, 22, 40) THEN Pick(<<"other", "MPL", "T22", "SPL">>, i, 23) ELSE "",
                           !.fault = Fault(i, <<"get", "hash", "send", "status", "sim", "simrpc">>)]
  IN <<Known([b EXCEPT !.chain = MintAt(b.u, i)], {b.u})>>

Sync22(i) ==
  LET src == IF Chance(i, 20, 35) THEN Pick(<<Nm("src", i), Nm("u", i), MPX(Nm("u", i))>>, i, 21) ELSE ""
      b == [Base(i) EXCEPT !.cmd = "sync-metadata-to-token2022", !.src = src,
                           !.own = IF (src # "" /\ Chance(i, 22, 50)) \/ Chance(i, 24, 4) THEN Pick(<<"other", "MPL", "T22", "SPL">>, i, 23) ELSE "",
                           !.fault = Fault(i, <<"get", "hash", "send", "status", "sim", "simrpc">>)]
  IN <<Known([b EXCEPT !.chain = MintAt(b.u, i)], {b.u})>>

-----------------------------------------------------------------------------
(* wrap and unwrap *)
MoveBase(i) ==
  LET up == Pick(<<"SPL", "T22">>, i, 30)
      wp == Pick(<<"SPL", "T22">>, i, 31)
      cmd == Pick(<<"wrap", "unwrap">>, i, 32)
      u == Nm("u", i)
      b == [Base(i) EXCEPT !.cmd = cmd, !.n = Pick(BigOk, i, 33),
                           !.ta = IF cmd = "wrap" THEN Nm("uta", i) ELSE Nm("wta", i),
                           !.rcp = IF cmd = "unwrap" THEN Nm("uta", i) ELSE IF Chance(i, 34, 50) THEN Nm("wta", i) ELSE "",
                           !.wp = IF cmd = "wrap" \/ Chance(i, 35, 40) THEN wp ELSE "",
                           !.um = IF Chance(i, 36, 40) THEN u ELSE "",
                           !.up = IF Chance(i, 37, 40) THEN up ELSE "",
                           !.bh = IF Chance(i, 38, 30) THEN Nm("bh", i) ELSE "",
                           !.u = u,
                           !.chain = <<Mint(u, up, "none", FALSE), Tok(Nm("uta", i), up, u, up = "T22" /\ Chance(i, 39, 50)),
                                       Mint(dWM(u, wp, "TW"), wp, "none", wp = "T22"), Tok(Nm("wta", i), wp, dWM(u, wp, "TW"), wp = "T22" /\ Chance(i, 29, 50))>>]
  IN [Known(b, {u, Nm("v", i)}) EXCEPT !.know = @ \o <<Nm("bh", i), Nm("alt", i), Nm("v", i)>>]
\* something about it not as it should be
Odd(b, i) ==
  LET alt == [b EXCEPT !.chain = @ \o <<Mint(Nm("v", i), Pick(<<"SPL", "T22">>, i, 40), "none", FALSE)>>]
      drop(k) == [b EXCEPT !.chain = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
      flip(p) == IF p = "SPL" THEN "T22" ELSE "SPL"
      how == Pick(<<0, 0, 1, 1, 2, 2, 3, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 9>>, i, 41)
  IN CASE how = 0 -> [b EXCEPT !.um = Nm("v", i)]
       [] how = 1 -> [alt EXCEPT !.um = Nm("v", i)]
       [] how = 2 -> [b EXCEPT !.up = flip(b.chain[1].own)]
       [] how = 3 -> [b EXCEPT !.wp = flip(b.chain[3].own)]
       [] how = 4 -> drop((Rnd(i, 42) % 4) + 1)
       [] how = 5 -> [b EXCEPT !.wp = "other"]
       [] how = 6 -> [b EXCEPT !.up = "other"]
       [] how = 7 -> [b EXCEPT !.chain[2] = Mint(@.l, @.own, "none", FALSE)]
       [] how = 8 -> [b EXCEPT !.chain[2] = Junk(@.l)]
       [] OTHER -> [b EXCEPT !.chain[4] = Junk(@.l)]
MoveFault(i) == Fault(i, <<"get", "hash", "send", "status", "sim", "simrpc">>)

\* one signer, or none at hand
Move(i) ==
  LET a == [MoveBase(i) EXCEPT !.auth = CASE Rnd(i, 50) % 8 < 3 -> None [] Rnd(i, 50) % 8 < 6 -> File(Kp("a", i))
                                          [] Rnd(i, 50) % 8 = 6 -> Pub(Kp("a", i)) [] OTHER -> File(Kp("p", i)),
                               !.so = Chance(i, 51, IF Prop = "C22" THEN 30 ELSE 15), !.fault = MoveFault(i)]
      b == [a EXCEPT !.payer = IF a.via = "flag" /\ Chance(i, 52, 6) THEN Pub(@.l) ELSE @, !.know = @ \o <<Kp("a", i)>>]
      c == IF Chance(i, 53, 35) THEN [Odd(b, i) EXCEPT !.so = @ \/ Chance(i, 55, 30), !.dry = @ \/ Chance(i, 56, 20)] ELSE b
  IN <<IF Chance(i, 54, 5) THEN [c EXCEPT !.pre = <<[l |-> Kp("a", i), from |-> 0]>>] ELSE c>>

\* signatures gathered by separate sign-only runs
History(i) ==
  LET k == (Rnd(i, 60) % 3) + 1             \* members; single authority if solo
      solo == Chance(i, 61, 35)
      who(j) == Kp("m" \o ToString(j) \o "x", i)
      pay == Kp("p", i)
      own == ~solo /\ Chance(i, 77, 30)        \* the payer is a member itself
      mems == IF solo THEN <<>> ELSE [j \in 1..k |-> IF own /\ j = k THEN pay ELSE who(j)]
      listed == IF solo \/ ~Chance(i, 78, 8) THEN mems ELSE Append(mems, mems[1])
      cosign == (IF solo THEN <<Kp("a", i)>> ELSE mems) \o (IF ~own /\ Chance(i, 62, IF solo THEN 65 ELSE 30) THEN <<pay>> ELSE <<>>)
      b == [MoveBase(i) EXCEPT !.bh = IF Chance(i, 69, 4) THEN "" ELSE Nm("bh", i), !.auth = Pub(IF solo THEN Kp("a", i) ELSE Nm("msig", i)),
                               !.know = @ \o mems \o <<Kp("a", i), Nm("msig", i), Nm("bh2", i)>>]
      sources(fs) == [j \in DOMAIN listed |-> IF listed[j] \in fs THEN File(listed[j]) ELSE Pub(listed[j])]
      \* the j-th co-signer's own run
      spoil == IF Chance(i, 63, 30) THEN (Rnd(i, 64) % Len(cosign)) + 1 ELSE 0
      side(j) ==
        LET c == [b EXCEPT !.r = j, !.so = TRUE, !.via = "flag", !.dry = FALSE, !.fmt = Pick(<<"json", "default", "json-compact", "v">>, i, 65 + j),
                           !.payer = IF cosign[j] = b.payer.l THEN File(@.l) ELSE Pub(@.l),
                           !.auth = IF solo /\ cosign[j] = Kp("a", i) THEN File(@.l) ELSE @, !.ms = sources({cosign[j]})]
        IN IF spoil # j THEN c
           ELSE CASE Rnd(i, 70) % 5 = 0 -> [c EXCEPT !.n = NAdd(Zero, <<77>>)]
                  [] Rnd(i, 70) % 5 = 1 -> [c EXCEPT !.bh = Nm("bh2", i)]
                  [] Rnd(i, 70) % 5 = 2 -> [c EXCEPT !.ms = sources({}), !.payer = Pub(@.l)]
                  [] Rnd(i, 70) % 5 = 3 -> [c EXCEPT !.fault = "get"]
                  [] OTHER -> [c EXCEPT !.rcp = Nm("uta2", i), !.chain = @ \o <<[c.chain[2] EXCEPT !.l = Nm("uta2", i)]>>]
      leave == IF Chance(i, 71, 12) THEN (Rnd(i, 72) % Len(cosign)) + 1 ELSE 0
      \* one of them is the one who submits
      loc == IF leave = 0 /\ Chance(i, 79, 45) THEN (Rnd(i, 80) % Len(cosign)) + 1 ELSE 0
      held == IF loc = 0 THEN "" ELSE cosign[loc]
      pres == SelectSeq([j \in DOMAIN cosign |-> [l |-> cosign[j], from |-> j]], LAMBDA s : s.from \notin {leave, loc})
      remote == held # pay /\ \E j \in DOMAIN cosign : cosign[j] = pay
      last == [b EXCEPT !.r = Len(cosign) + 1,
                        !.ms = sources({held} \cup (IF Chance(i, 73, 30) /\ mems # <<>> /\ mems[1] # pay THEN {mems[1]} ELSE {})),
                        !.auth = IF held = @.l THEN File(@.l) ELSE @, !.via = IF remote THEN "flag" ELSE @,
                        !.payer = IF remote THEN Pub(@.l) ELSE @, !.so = Chance(i, 75, 10),
                        !.pre = pres \o (IF Chance(i, 76, 8) THEN <<[l |-> Kp("z", i), from |-> 0]>> ELSE <<>>), !.know = @ \o <<Kp("z", i)>>,
                        !.fault = MoveFault(i)]
  IN [j \in DOMAIN cosign |-> side(j)] \o <<last>>

-----------------------------------------------------------------------------
Scenario(i) ==
  LET x == i % 12 IN
  CASE x \in {0, 1} -> CreateMint(i)
    [] x \in {2, 3} -> CreateEscrow(i)
    [] x = 4 -> IF i % 24 < 12 THEN CloseStuck(i) ELSE FindPdas(i)
    [] x = 5 -> IF Prop = "C21" THEN FindPdas(i) ELSE CloseStuck(i)
    [] x = 6 -> Sync22(i)
    [] x = 7 -> IF i % 24 < 12 THEN SyncSpl(i) ELSE Sync22(i)
    [] x \in {8, 9} -> Move(i)
    [] OTHER -> IF Prop = "C22" \/ i % 24 < 12 THEN History(i) ELSE Move(i)

\* a read that fails: every one, or that of one account
On(r) == IF r.fault # "get" \/ Usage(r) \/ Needs(r) = {} THEN r
         ELSE LET s == SetToSeq(Needs(r)) k == Rnd(r.sc, 90) % (Len(s) + 1) IN [r EXCEPT !.on = IF k = 0 THEN "" ELSE s[k]]
Requests == LET q == FlattenSeq([i \in 1..N |-> Scenario(i)]) IN [i \in DOMAIN q |-> On(q[i])]
ASSUME ndJsonSerialize(IOEnv.OUT, Requests)
ASSUME PrintT("@GEN " \o ToString(Len(Requests)))
VARIABLE never
Init == never = 0
Next == UNCHANGED never
=============================================================================
