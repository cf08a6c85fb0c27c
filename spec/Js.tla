--------------------------------- MODULE Js ---------------------------------
(* The JavaScript client: what it builds, reads and reports, against the wire  *)
(* format and the chain it was given. IOEnv.LOG: requests with what came back. *)
EXTENDS CliModel, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.LOG)
VARIABLE at

Ops == <<"create", "wrap", "unwrap", "close", "sync22", "syncspl">>   \* by tag
Eq(x, y) == ToString(x) = ToString(y)
Err(ok, what) == IF ok THEN {} ELSE {what}

-----------------------------------------------------------------------------
(* instructions: x is one that was built *)
\* an absent optional account: the program's own address, or nothing if nothing follows
Placeholder(prog) == [l |-> prog, s |-> FALSE, w |-> FALSE]
RECURSIVE Trimmed(_, _, _)
Trimmed(m, prog, k) == IF Len(m) > k /\ m[Len(m)] = Placeholder(prog) THEN Trimmed(SubSeq(m, 1, Len(m) - 1), prog, k) ELSE m
Plain(m) == [j \in DOMAIN m |-> [l |-> m[j].l, s |-> m[j].s, w |-> m[j].w]]

\* an authority given as an address only need not sign, whether or not there are members
SameMetas(op, got, want, nm, sg, prog) ==
  LET k == Fixed(op)
      g == Trimmed(Plain(got), prog, k)
      v == Trimmed(want, prog, k)
      free(j) == op \in {"wrap", "unwrap"} /\ j = 9
  IN /\ Len(g) = Len(v)
     /\ \A j \in DOMAIN g : /\ g[j].l = v[j].l /\ g[j].w = v[j].w
                            /\ IF ~free(j) THEN g[j].s = v[j].s ELSE sg => g[j].s
                            /\ free(j) /\ ~sg /\ nm > 0 => ~g[j].s
     \* whoever signs was handed over as a signer
     /\ \A j \in DOMAIN got : got[j].s /\ (j > 9 \/ sg) => got[j].h

Filled(r, prog) == [j \in DOMAIN r.a |-> IF r.a[j] # "" THEN r.a[j] ELSE IF Default(Doc(r.f)[j].n) # "" THEN Default(Doc(r.f)[j].n) ELSE prog]
\* accounts as read; a program that goes without saying may count as absent too
SameBack(got, a, op, prog) ==
  /\ Len(got) = Len(a)
  /\ \A j \in DOMAIN a : got[j] \in IF a[j] # prog THEN {a[j]} ELSE IF j > Fixed(op) THEN {""}
                                     ELSE IF Default(Doc(op)[j].n) # "" THEN {"", a[j]} ELSE {a[j]}
Jix(r) ==
  LET prog == IF r.p = "" THEN "TW" ELSE r.p
      a == Filled(r, prog)
      d == Encode(CASE r.f = "create" -> [op |-> "create", idem |-> r.idem = "true"]
                    [] r.f \in {"wrap", "unwrap"} -> [op |-> r.f, n |-> r.n] [] OTHER -> [op |-> r.f])
  IN IF r.f \in {"wrap", "unwrap"} /\ ~NLe(r.n, U64Max) THEN Err(~r.ok, "built " \o r.f \o " of more than fits")
     ELSE IF ~r.ok THEN {"cannot build " \o r.f}
     ELSE Err(r.ix.p = prog, r.f \o " to another program")
          \cup Err(SameMetas(r.f, r.ix.m, Metas(r.f, a, r.ms), Len(r.ms), r.sg, prog), "accounts of " \o r.f)
          \cup Err(r.ix.d = d, "data of " \o r.f)
          \cup (IF prog # "TW" THEN {}
                ELSE IF ~r.back.ok THEN {"cannot read " \o r.f \o " back"}
                ELSE LET x == r.back.x IN
                     Err(x.op = r.f /\ x.p = prog, r.f \o " read as something else")
                     \cup Err(SameBack(x.a, a, r.f, prog) /\ x.extra = <<>>, "accounts of " \o r.f \o " read wrongly")
                     \cup Err(r.f \in {"wrap", "unwrap"} => Eq(x.n, r.n), "amount of " \o r.f \o " read wrongly")
                     \cup Err(r.f = "create" => x.idem = (IF r.idem = "true" THEN "true" ELSE "false"), "create read wrongly"))

Jpda(r) == IF ~r.ok THEN {"no address: " \o r.f} ELSE Err(r.r = Address(r.f, r.a, IF r.p = "" THEN "TW" ELSE r.p), "address: " \o r.f)

Jparse(r) ==
  LET x == Decode(r.b)
      tag == IF r.b = <<>> THEN 255 ELSE r.b[1]
      op == IF tag < 6 THEN Ops[tag + 1] ELSE ""
      need == CASE op = "create" -> 2 [] op \in {"wrap", "unwrap"} -> 9 [] OTHER -> 1
  IN IF tag = 6 THEN {}
     ELSE IF op = "" THEN Err(~r.ok, "read an instruction that there is none of")
     ELSE IF Len(r.b) < need THEN Err(~r.ok, "read " \o op \o " from incomplete data")
     ELSE IF Len(r.a) < Fixed(op) THEN Err(~r.ok, "read " \o op \o " from too few accounts")
     ELSE IF Len(r.a) < Len(Doc(op)) \/ x = Invalid THEN {}
     ELSE IF ~r.ok THEN {"cannot read " \o op}
     ELSE Err(r.x.op = op, op \o " read as something else")
          \cup Err(SameBack(r.x.a, SubSeq(r.a, 1, Len(Doc(op))), op, "TW") /\ r.x.extra = <<>>, "accounts of " \o op \o " read wrongly")
          \cup Err(op \in {"wrap", "unwrap"} => Eq(r.x.n, x.n), "amount of " \o op \o " read wrongly")
          \cup Err(op = "create" => r.x.idem = (IF x.idem THEN "true" ELSE "false"), "create read wrongly")

-----------------------------------------------------------------------------
(* helpers: q is the same request to the command line tool where they agree *)
AsCli(r) == [cmd |-> r.cmd, u |-> r.u, wp |-> r.wp, payer |-> [k |-> "file", l |-> r.payer], chain |-> r.chain, idem |-> r.idem = "true"]
Read(r, l) == r.fault = "get" /\ r.on \in {"", l}         \* reading l fails

JU(r) == IF r.um # "" THEN r.um ELSE IF r.cmd = "wrap" THEN At(r, r.ta).m ELSE At(r, r.rcp).m
JWP(r) == IF r.wp # "" THEN r.wp ELSE At(r, r.ta).own
JUP(r) == IF r.up # "" THEN r.up ELSE IF r.cmd = "wrap" THEN At(r, r.ta).own ELSE At(r, r.rcp).own
JWM(r) == CASE r.cmd = "wrap" -> dWM(JU(r), r.wp, "TW") [] r.cmd = "unwrap" -> At(r, r.ta).m [] OTHER -> r.wm
JAU(r) == IF r.cmd \in {"wrap", "unwrap"} THEN dAU(JWM(r), "TW") ELSE r.au
JESC(r) == dATA(JAU(r), JU(r), JUP(r))
JRcp(r) == IF r.rcp = "" THEN dATA(r.payer, JWM(r), r.wp) ELSE r.rcp
JAuth(r) == IF r.auth = "" THEN r.payer ELSE r.auth
JSign(r) == r.auth = "" \/ r.sg
MoveIx(r) ==
  IF r.cmd \in {"wrap", "multi-wrap"}
  THEN [op |-> "wrap", a |-> <<JRcp(r), JWM(r), JAU(r), JUP(r), r.wp, r.ta, JU(r), JESC(r), JAuth(r)>>]
  ELSE [op |-> "unwrap", a |-> <<JESC(r), r.rcp, JAU(r), JU(r), JWP(r), JUP(r), r.ta, JWM(r), JAuth(r)>>]

\* refuse, build, or open
Wanted(r) ==
  CASE r.cmd = "create-mint" ->
         IF \E l \in {WM(AsCli(r)), BP(AsCli(r))} : Read(r, l) THEN "refuse" ELSE IF r.fault = "rent" THEN "refuse" ELSE "build"
    [] r.cmd = "create-escrow-account" ->
         IF Read(r, r.u) \/ ~Has(r, r.u) THEN "refuse"
         ELSE IF ~IsMint(r, r.u) THEN "open"
         ELSE IF Read(r, ESC(AsCli(r))) THEN "refuse" ELSE "build"
    [] r.cmd = "wrap" ->
         IF r.um # "" /\ r.up # "" THEN "build"
         ELSE IF Read(r, r.ta) \/ ~Has(r, r.ta) THEN "refuse" ELSE "build"
    [] r.cmd = "unwrap" ->
         IF Read(r, r.ta) \/ ~Has(r, r.ta) THEN "refuse"
         ELSE IF r.um # "" /\ r.up # "" THEN IF r.fault = "get" \/ ~Has(r, r.rcp) THEN "open" ELSE "build"
         ELSE IF Read(r, r.rcp) \/ ~Has(r, r.rcp) THEN "refuse" ELSE "build"
    [] OTHER -> "build"

MoveMistakes(r) ==
  LET w == MoveIx(r)
      ix == r.ixs[1]
  IN IF Len(r.ixs) # 1 THEN {"built other instructions"}
     ELSE Err(ix.p = "TW" /\ SameMetas(w.op, ix.m, Metas(w.op, w.a, r.ms), Len(r.ms), JSign(r), "TW"), "built another instruction")
          \cup Err(ix.d = Encode([op |-> w.op, n |-> r.n]), "built another instruction")
          \cup (IF r.cmd \in {"wrap", "unwrap"}
                THEN Err(Eq(r.out.a, r.n) /\ r.out.rcp = JRcp(r) /\ (r.cmd = "wrap" => r.out.escrow = JESC(r)), "reported something else")
                ELSE Err(r.out.payer = r.payer /\ r.out.signs /\ r.out.bh = r.bh /\ Eq(r.out.height, <<7>>), "built another message"))
CreateMistakes(r) ==
  LET q == AsCli(r)
      need(l, size) == IF RentOf(size) > Lamports(r, l) THEN NatN(RentOf(size) - Lamports(r, l)) ELSE Zero
  IN IF r.cmd = "create-escrow-account" /\ Exists(q)
     THEN Err(r.ixs = <<>> /\ r.out.kind = "already_exists" /\ r.out.address = ESC(q) /\ r.out.mint = r.u, "did not report the escrow there is")
     ELSE Err(\E x \in Orders(q) : Len(r.ixs) = Len(x) /\ \A j \in DOMAIN x : r.ixs[j].p = x[j].p /\ Plain(r.ixs[j].m) = x[j].m /\ r.ixs[j].d \in x[j].d, "built other instructions")
          \cup Err(\A j \in DOMAIN r.ixs : \A m \in Rng(r.ixs[j].m) : m.s => m.h, "nobody to sign for an account")
          \cup (IF r.cmd = "create-mint"
                THEN Err(r.out.wrappedMint = WM(q) /\ r.out.backpointer = BP(q) /\ Eq(r.out.a, need(WM(q), MintSize(r.wp)))
                         /\ Eq(r.out.b, need(BP(q), BackpointerSize)), "reported something else")
                ELSE Err(r.out.kind = "instructions_to_create" /\ r.out.address = ESC(q), "reported something else"))
Jhelp(r) ==
  LET w == Wanted(r) IN
  IF w = "open" THEN {}
  ELSE IF w = "refuse" THEN Err(~r.ok, r.cmd \o " did not fail")
  ELSE IF ~r.ok THEN {r.cmd \o " failed"}
  ELSE {r.cmd \o " " \o m : m \in IF r.cmd \in {"create-mint", "create-escrow-account"} THEN CreateMistakes(r) ELSE MoveMistakes(r)}

-----------------------------------------------------------------------------
(* signatures put together: of the same message only, all of them, none lost *)
Jcomb(r) ==
  LET first == r.txs[1]
      names == [j \in DOMAIN first.s |-> first.s[j][1]]
      given(l) == UNION {{y[2] : y \in {x \in Rng(r.txs[j].s) : x[1] = l}} : j \in DOMAIN r.txs} \ {0}
      fits == 1 + 64 * Len(names) + Len(first.m) <= 1232
  IN IF r.txs = <<>> \/ \E j \in DOMAIN r.txs : r.txs[j].m # first.m THEN Err(~r.ok, "combined signatures of different messages")
     ELSE IF \E l \in Rng(names) : given(l) = {} THEN Err(~r.ok, "called a transaction fully signed that is not")
     ELSE IF ~fits THEN Err(~r.ok, "combined a transaction that is too large")
     ELSE IF ~r.ok THEN {"did not combine signatures"}
     ELSE Err(r.m = first.m, "combined another message") \cup Err(r.bh = r.bh0, "combined with another lifetime") \cup Err(r.same, "changed what it was given")
          \cup Err([j \in DOMAIN r.s |-> r.s[j][1]] = names /\ \A j \in DOMAIN r.s : r.s[j][2] \in given(r.s[j][1]), "combined other signatures")

Errors == <<"WRAPPED_MINT_MISMATCH", "BACKPOINTER_MISMATCH", "ZERO_WRAP_AMOUNT", "MINT_AUTHORITY_MISMATCH", "ESCROW_OWNER_MISMATCH",
            "INVALID_WRAPPED_MINT_OWNER", "INVALID_BACKPOINTER_OWNER", "ESCROW_MISMATCH", "ESCROW_IN_GOOD_STATE",
            "UNWRAPPED_MINT_HAS_NO_METADATA", "METAPLEX_METADATA_MISMATCH", "METADATA_POINTER_MISSING", "METADATA_POINTER_UNSET",
            "METADATA_POINTER_MISMATCH", "EXTERNAL_PROGRAM_RETURNED_NO_DATA", "NO_SYNCING_TO_TOKEN2022">>
Jerr(r) == IF ~r.ok THEN {"error " \o r.name}
           ELSE Err(\E j \in DOMAIN Errors : Errors[j] = r.name /\ Eq(r.code, NatN(j - 1)), "code of " \o r.name)
                \cup Err(r.text # "", "message of " \o r.name) \cup Err(r.is = <<TRUE, TRUE, FALSE, FALSE>>, "recognition of " \o r.name)

\* records of which mint a wrapped mint stands for
Jacct(r) ==
  LET where == IF r.f = "seeds" THEN dBP(r.at, "TW") ELSE r.at
      there(l) == Has(r, l)
      good(l) == At(r, l).k = "bp"
      val(l) == IF there(l) THEN At(r, l).m ELSE "none"
  IN CASE r.f = "encode" -> IF ~r.ok THEN {"cannot write a backpointer"} ELSE Err(r.bu = r.u /\ r.sizes = <<32, 32>>, "writes another backpointer")
       [] r.f = "decode" -> IF Len(r.b) < 32 THEN Err(~r.ok, "reads an incomplete backpointer")
                            ELSE IF ~r.ok THEN {"cannot read a backpointer"} ELSE Err(r.res = r.u, "reads another backpointer")
       [] r.f \in {"fetch", "seeds"} ->
            IF Read(r, where) \/ ~there(where) \/ ~good(where) THEN Err(~r.ok, "fetched a backpointer where there is none")
            ELSE IF ~r.ok THEN {"did not fetch a backpointer"} ELSE Err(r.res = val(where), "fetched another backpointer")
       [] r.f = "maybe" ->
            IF Read(r, where) \/ (there(where) /\ ~good(where)) THEN Err(~r.ok, "fetched a backpointer where there is none")
            ELSE IF ~r.ok THEN {"did not fetch a backpointer"} ELSE Err(r.res = val(where), "fetched another backpointer")
       [] r.f = "all" ->
            IF r.fault = "get" \/ (there(where) /\ ~good(where)) THEN Err(~r.ok, "fetched a backpointer where there is none")
            ELSE IF ~r.ok THEN {"did not fetch backpointers"} ELSE Err(r.all = <<val(where), val(r.payer)>>, "fetched other backpointers")

-----------------------------------------------------------------------------
\* what the stand-ins for the libraries cannot do decides nothing
Bad(r) == IF r.unsupported THEN {}
          ELSE CASE r.t = "jix" -> Jix(r) [] r.t = "jpda" -> Jpda(r) [] r.t = "jparse" -> Jparse(r) [] r.t = "jhelp" -> Jhelp(r)
                 [] r.t = "jcomb" -> Jcomb(r) [] r.t = "jerr" -> Jerr(r) [] r.t = "jacct" -> Jacct(r)

Init == at = 0
Next == /\ at < Len(Log)
        /\ at' = at + 1
        /\ \A b \in Bad(Log[at + 1]) : PrintT("@VIOL " \o ToString(at + 1) \o " C23 " \o b)
Spec == Init /\ [][Next]_at
Post == TLCGet("distinct") = Len(Log) + 1 /\ PrintT("@DONE " \o ToString(Len(Log)))
=============================================================================
