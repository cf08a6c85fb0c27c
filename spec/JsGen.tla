-------------------------------- MODULE JsGen --------------------------------
(* Requests to the JavaScript client.                                          *)
EXTENDS GenLib

Ops == <<"create", "wrap", "unwrap", "close", "sync22", "syncspl">>
ErrorNames == <<"WRAPPED_MINT_MISMATCH", "BACKPOINTER_MISMATCH", "ZERO_WRAP_AMOUNT", "MINT_AUTHORITY_MISMATCH", "ESCROW_OWNER_MISMATCH",
                "INVALID_WRAPPED_MINT_OWNER", "INVALID_BACKPOINTER_OWNER", "ESCROW_MISMATCH", "ESCROW_IN_GOOD_STATE",
                "UNWRAPPED_MINT_HAS_NO_METADATA", "METAPLEX_METADATA_MISMATCH", "METADATA_POINTER_MISSING", "METADATA_POINTER_UNSET",
                "METADATA_POINTER_MISMATCH", "EXTERNAL_PROGRAM_RETURNED_NO_DATA", "NO_SYNCING_TO_TOKEN2022">>

Base(i) ==
  [sc |-> i, t |-> "", f |-> "", cmd |-> "", name |-> "", via |-> Pick(<<"fn", "plugin">>, i, 1), p |-> "", a |-> <<>>, b |-> <<>>, sg |-> FALSE, ms |-> <<>>, n |-> Zero,
   num |-> FALSE, idem |-> "", payer |-> Nm("p", i), u |-> Nm("u", i), wp |-> Pick(<<"SPL", "T22">>, i, 8), ta |-> "", rcp |-> "", um |-> "", up |-> "", auth |-> "",
   wm |-> "", au |-> "", bh |-> Nm("bh", i), at |-> "", chain |-> <<>>, txs |-> <<>>, fault |-> "none", on |-> "", know |-> <<>>]
Known(r, us) == [r EXCEPT !.know = SetToSeq(Derived(us, r.payer) \cup Meta(r.u) \cup {r.payer, r.u, "other"})]

-----------------------------------------------------------------------------
(* instructions, one by one *)
Name(op, j, i) == LET d == Doc(op)[j].n
                      s == IF Default(d) # "" THEN Pick(<<"", "", Default(d), Nm("q", i)>>, i, 20 + j)
                           ELSE IF j > Fixed(op) THEN Pick(<<"", "", Nm("opt" \o ToString(j) \o "x", i), "TW">>, i, 20 + j)
                           ELSE IF Chance(i, 20 + j, 4) THEN "TW" ELSE IF Chance(i, 40 + j, 6) THEN Nm("acc", i) ELSE Nm("acc" \o ToString(j) \o "x", i)
                  IN s
MemberList(i) == [j \in 1..Pick(<<0, 0, 0, 1, 2, 3, 11>>, i, 60) |-> Nm("m" \o ToString(j) \o "x", i)]
Jix(i) ==
  LET op == Ops[(i % 6) + 1] IN
  [Base(i) EXCEPT !.t = "jix", !.f = op, !.a = [j \in DOMAIN Doc(op) |-> Name(op, j, i)], !.sg = Chance(i, 61, 50),
                  !.ms = IF op \in {"wrap", "unwrap"} THEN MemberList(i) ELSE <<>>, !.n = Pick(Big, i, 62), !.num = Chance(i, 63, 50),
                  !.idem = Pick(<<"", "true", "false">>, i, 64), !.p = IF @ = "" /\ Chance(i, 65, 30) /\ Base(i).via = "fn" THEN Nm("prog", i) ELSE ""]

Jpda(i) ==
  LET f == Pick(<<"wrapped_mint", "authority", "backpointer">>, i, 20)
  IN [Base(i) EXCEPT !.t = "jpda", !.f = f, !.a = IF f = "wrapped_mint" THEN <<Nm("u", i), Pick(<<"SPL", "T22", "other">>, i, 21)>> ELSE <<Nm("wm", i)>>,
                     !.p = IF Chance(i, 22, 30) THEN Nm("prog", i) ELSE "",
                     !.know = LET k == [j \in 1..2 |-> IF j = 1 THEN Nm("prog", i) ELSE "TW"]
                              IN FlattenSeq([j \in 1..2 |-> <<dWM(Nm("u", i), "SPL", k[j]), dWM(Nm("u", i), "T22", k[j]), dWM(Nm("u", i), "other", k[j]),
                                                             dAU(Nm("wm", i), k[j]), dBP(Nm("wm", i), k[j])>>])]

Jparse(i) ==
  LET op == Ops[(Rnd(i, 20) % 6) + 1]
      good == Encode(CASE op = "create" -> [op |-> op, idem |-> Chance(i, 21, 50)] [] op \in {"wrap", "unwrap"} -> [op |-> op, n |-> Pick(BigOk, i, 22)] [] OTHER -> [op |-> op])
      b == CASE Rnd(i, 23) % 8 = 0 -> SubSeq(good, 1, Len(good) - 1)
             [] Rnd(i, 23) % 8 = 1 -> <<Pick(<<6, 7, 8, 16, 128, 255>>, i, 24)>> \o Tail(good)
             [] Rnd(i, 23) % 8 = 2 -> SubSeq(good, 1, IF Len(good) > 4 THEN 4 ELSE 1)
             [] OTHER -> good
      n == Len(Doc(op)) + Pick(<<0, 0, 0, 0, 1, 3, 0 - 1, 0 - 2, 0 - 5>>, i, 25)
  IN [Base(i) EXCEPT !.t = "jparse", !.f = op, !.b = b,
                     !.a = [j \in 1..n |-> IF Chance(i, 40 + j, IF j > Fixed(op) THEN 50 ELSE 4) THEN "TW" ELSE Nm("acc" \o ToString(j) \o "x", i)]]

-----------------------------------------------------------------------------
(* helpers *)
Fault(i, list) == IF Chance(i, 3, 12) THEN Pick(list, i, 4) ELSE "none"
CreateMint(i) ==
  LET b == [Base(i) EXCEPT !.t = "jhelp", !.cmd = "create-mint", !.idem = Pick(<<"", "true", "false">>, i, 20), !.fault = Fault(i, <<"get", "rent">>)]
      wm == dWM(b.u, b.wp, "TW")
      there == Chance(i, 22, 25)
      size == MintSize(b.wp)
  IN Known([b EXCEPT !.on = IF Chance(i, 26, 50) THEN "" ELSE Pick(<<wm, dBP(wm, "TW")>>, i, 27), !.chain =
        MintAt(b.u, i)
        \o (IF there THEN <<[Mint(wm, b.wp, IF b.wp = "T22" THEN wm ELSE "none", FALSE) EXCEPT !.lam = RentOf(size) + 100 * (Rnd(i, 23) % 3)]>> ELSE Funded(wm, size, i, 24))
        \o (IF there THEN <<[Junk(dBP(wm, "TW")) EXCEPT !.own = "TW", !.lam = RentOf(32)]>> ELSE Funded(dBP(wm, "TW"), 32, i, 25))], {b.u})

CreateEscrow(i) ==
  LET b == [Base(i) EXCEPT !.t = "jhelp", !.cmd = "create-escrow-account", !.fault = Fault(i, <<"get">>)]
      m == MintAt(b.u, i)
      up == IF m = <<>> THEN "SPL" ELSE m[1].own
      e == dATA(dAU(dWM(b.u, b.wp, "TW"), "TW"), b.u, up)
      other == dATA(dAU(dWM(b.u, b.wp, "TW"), "TW"), b.u, IF up = "T22" THEN "SPL" ELSE "T22")
  IN Known([b EXCEPT !.on = IF Chance(i, 26, 30) THEN "" ELSE Pick(<<b.u, e>>, i, 27), !.chain = m
         \o (CASE Rnd(i, 22) % 8 < 3 -> <<>>
               [] Rnd(i, 22) % 8 < 6 -> <<Tok(e, IF up \in Tokens THEN up ELSE "SPL", b.u, up = "T22")>>
               [] Rnd(i, 22) % 8 = 6 -> <<Lam(e, 1)>>
               [] OTHER -> <<Lam(e, 3000000)>>)
         \o (IF Chance(i, 23, 20) THEN <<Tok(other, "T22", b.u, FALSE)>> ELSE <<>>)], {b.u})

Move(i) ==
  LET up == Pick(<<"SPL", "T22">>, i, 30)
      wp == Pick(<<"SPL", "T22">>, i, 31)
      cmd == Pick(<<"wrap", "unwrap">>, i, 32)
      u == Nm("u", i)
      b == [Base(i) EXCEPT !.t = "jhelp", !.cmd = cmd, !.n = Pick(BigOk, i, 33), !.num = Chance(i, 28, 50), !.ta = IF cmd = "wrap" THEN Nm("uta", i) ELSE Nm("wta", i),
                           !.rcp = IF cmd = "unwrap" THEN Nm("uta", i) ELSE IF Chance(i, 34, 50) THEN Nm("wta", i) ELSE "",
                           !.wp = IF cmd = "wrap" \/ Chance(i, 35, 40) THEN wp ELSE "", !.um = IF Chance(i, 36, 40) THEN u ELSE "",
                           !.up = IF Chance(i, 37, 40) THEN up ELSE "", !.auth = Pick(<<"", "", Nm("auth", i), Nm("p", i)>>, i, 38), !.sg = Chance(i, 27, 75),
                           !.fault = Fault(i, <<"get">>), !.on = IF Chance(i, 26, 30) THEN "" ELSE Pick(<<Nm("uta", i), Nm("wta", i)>>, i, 25),
                           !.chain = <<Mint(u, up, "none", FALSE), Tok(Nm("uta", i), up, u, up = "T22" /\ Chance(i, 39, 50)),
                                       Mint(dWM(u, wp, "TW"), wp, "none", wp = "T22"), Tok(Nm("wta", i), wp, dWM(u, wp, "TW"), wp = "T22" /\ Chance(i, 29, 50))>>]
      drop(k) == [b EXCEPT !.chain = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
      odd == IF Chance(i, 42, 12) THEN drop(Pick(<<2, 4>>, i, 43)) ELSE b
  IN Known(odd, {u})

Multi(i) ==
  LET cmd == Pick(<<"multi-wrap", "multi-unwrap">>, i, 30)
  IN Known([Base(i) EXCEPT !.t = "jhelp", !.cmd = cmd, !.n = Pick(BigOk, i, 33), !.num = Chance(i, 28, 50), !.ta = Nm("ta", i), !.rcp = Nm("rcp", i),
                     !.um = Nm("u", i), !.up = Pick(<<"SPL", "T22">>, i, 31), !.wm = dWM(Nm("u", i), Base(i).wp, "TW"), !.au = dAU(dWM(Nm("u", i), Base(i).wp, "TW"), "TW"),
                     !.auth = Nm("msig", i), !.sg = FALSE, !.ms = [j \in 1..Pick(<<1, 2, 3, 5>>, i, 32) |-> Nm("m" \o ToString(j) \o "x", i)]], {Nm("u", i)})

-----------------------------------------------------------------------------
(* signatures put together *)
Jcomb(i) ==
  LET k == Pick(<<1, 2, 2, 3, 4>>, i, 20)               \* transactions
      s == Pick(<<1, 2, 3, 3, 5>>, i, 21)               \* signers
      len == Pick(<<1, 40, 40, 200, 300, 1231 - 64 * s, 1232 - 64 * s>>, i, 22)
      msg == [j \in 1..len |-> (j * 7 + i) % 256]
      mode == Pick(<<"full", "full", "full", "full", "full", "full", "lack", "lack", "other", "longer", "shorter", "none">>, i, 23)
      bad == (Rnd(i, 24) % k) + 1
      lacks == (Rnd(i, 25) % s) + 1
      who(j) == Nm("s" \o ToString(j) \o "x", i)
      \* the j-th transaction carries the l-th signature
      has(j, l) == /\ ~(mode = "lack" /\ l = lacks) /\ (j = ((l + i) % k) + 1 \/ Chance(i, 40 + 7 * j + l, 30))
      perm(j) == IF j = 1 \/ Chance(i, 26, 50) THEN [l \in 1..s |-> l] ELSE [l \in 1..s |-> s + 1 - l]
      tx(j) == [m |-> IF j # bad THEN msg
                      ELSE CASE mode = "other" -> [msg EXCEPT ![(Rnd(i, 27) % len) + 1] = (@ + 1) % 256] [] mode = "longer" -> msg \o <<0>>
                             [] mode = "shorter" -> SubSeq(msg, 1, len - 1) [] OTHER -> msg,
                s |-> [l \in 1..s |-> <<who(perm(j)[l]), IF has(j, perm(j)[l]) THEN perm(j)[l] ELSE 0>>]]
  IN [Base(i) EXCEPT !.t = "jcomb", !.txs = IF mode = "none" THEN <<>> ELSE [j \in 1..k |-> tx(j)]]

Jerr(i) == [Base(i) EXCEPT !.t = "jerr", !.name = Pick(ErrorNames, i, 20)]

Ptr(l, m, own) == [Junk(l) EXCEPT !.k = "bp", !.m = m, !.own = own]
Jacct(i) ==
  LET f == Pick(<<"encode", "decode", "decode", "fetch", "seeds", "maybe", "all">>, i, 20)
      wm == Nm("wm", i)
      at == dBP(wm, "TW")
      st == Rnd(i, 21) % 5
      c == CASE st = 0 -> <<>> [] st = 1 -> <<Lam(at, 1000)>> [] OTHER -> <<Ptr(at, Nm("u", i), "TW")>>
      d == IF Chance(i, 22, 50) THEN <<Ptr(Nm("p", i), Nm("v", i), "TW")>> ELSE <<>>
  IN [Base(i) EXCEPT !.t = "jacct", !.f = f, !.at = IF f = "seeds" THEN wm ELSE at, !.chain = c \o d,
                     !.b = [j \in 1..Pick(<<32, 32, 31, 0>>, i, 23) |-> IF j = 32 THEN 1 ELSE 0], !.fault = Fault(i, <<"get">>), !.know = <<at, wm>>]

-----------------------------------------------------------------------------
Request(i) ==
  LET x == Rnd(i, 0) % 24 IN
  CASE x < 7 -> Jix(i)
    [] x = 7 -> Jpda(i)
    [] x \in {8, 9} -> Jparse(i)
    [] x \in {10, 11, 12} -> CreateMint(i)
    [] x \in {13, 14} -> CreateEscrow(i)
    [] x \in {15, 16, 17} -> Move(i)
    [] x = 18 -> Multi(i)
    [] x \in {19, 20} -> Jcomb(i)
    [] x = 21 -> Jerr(i)
    [] OTHER -> Jacct(i)

ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Request(i)])
ASSUME PrintT("@GEN " \o ToString(N))
VARIABLE never
Init == never = 0
Next == UNCHANGED never
=============================================================================
