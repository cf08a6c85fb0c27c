------------------------------ MODULE CliModel ------------------------------
(* The command line tool: what a request, given what the chain holds and how  *)
(* the RPC node behaves, is to submit, to sign and to print.                   *)
EXTENDS Codec, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Tokens == {"SPL", "T22"}
IsCreate(r) == r.cmd \in {"create-mint", "create-escrow-account"}
IsMove(r) == r.cmd \in {"wrap", "unwrap"}

-----------------------------------------------------------------------------
(* what is on chain *)
Has(r, l) == \E i \in DOMAIN r.chain : r.chain[i].l = l
At(r, l) == r.chain[CHOOSE i \in DOMAIN r.chain : r.chain[i].l = l]
Lamports(r, l) == IF Has(r, l) THEN At(r, l).lam ELSE 0
IsMint(r, l) == Has(r, l) /\ At(r, l).k = "mint" /\ At(r, l).own \in Tokens
IsTok(r, l) == Has(r, l) /\ At(r, l).k = "tok" /\ At(r, l).own \in Tokens
RentOf(size) == (size + 128) * 6960
\* base mint, padded to an account, type, confidential transfers, metadata pointer
MintSize(p) == IF p = "SPL" THEN 82 ELSE 165 + 1 + (4 + 65) + (4 + 64)
BackpointerSize == 32
\* an address that somebody sent lamports to holds no account of its own yet
Vacant(r, l) == ~Has(r, l) \/ (At(r, l).own = "SYS" /\ At(r, l).k = "none")

-----------------------------------------------------------------------------
(* the pair a request is about *)
U(r) == CASE r.cmd = "wrap" -> IF r.um # "" THEN r.um ELSE At(r, r.ta).m
          [] r.cmd = "unwrap" -> At(r, r.rcp).m
          [] OTHER -> r.u
WP(r) == CASE r.cmd = "unwrap" -> At(r, r.ta).own
           [] r.cmd = "sync-metadata-to-token2022" -> "T22"
           [] r.cmd = "sync-metadata-to-spl-token" -> "SPL"
           [] OTHER -> r.wp
UP(r) == IF r.cmd = "wrap" THEN IF r.up # "" THEN r.up ELSE At(r, r.ta).own ELSE At(r, U(r)).own
WM(r) == dWM(U(r), WP(r), "TW")
AU(r) == dAU(WM(r), "TW")
BP(r) == dBP(WM(r), "TW")
ESC(r) == dATA(AU(r), U(r), UP(r))
MPX(m) == PDA("MPL", <<"#metadata", "MPL", m>>)

\* source of the metadata for a Token-2022 wrapped mint
Source(r) ==
  IF r.src # "" THEN r.src
  ELSE LET a == At(r, r.u)
       IN IF a.own = "SPL" \/ a.ptr \in {"none", "unset"} THEN MPX(r.u)
          ELSE IF a.ptr = r.u THEN "" ELSE a.ptr

Auth(r) == IF r.auth.k = "" THEN r.payer.l ELSE r.auth.l
Members(r) == [i \in DOMAIN r.ms |-> r.ms[i].l]
Recipient(r) == IF r.cmd = "wrap" /\ r.rcp = "" THEN dATA(r.payer.l, WM(r), r.wp) ELSE r.rcp

-----------------------------------------------------------------------------
(* requests that cannot be carried out *)
Usage(r) == \/ r.cmd \in {"create-mint", "create-escrow-account", "find-pdas", "close-stuck-escrow", "wrap"} /\ r.wp \notin Tokens
            \/ r.cmd = "unwrap" /\ r.wp \notin Tokens \cup {""}
            \/ IsMove(r) /\ r.up \notin Tokens \cup {""}
            \/ IsMove(r) /\ (r.ms # <<>> \/ r.pre # <<>>) /\ r.bh = ""
            \/ r.cmd = "sync-metadata-to-token2022" /\ r.own # "" /\ r.src = ""
\* the accounts it has to know
Needs(r) == CASE r.cmd = "sync-metadata-to-token2022" -> IF r.src = "" THEN {r.u} ELSE {}
              [] r.cmd = "sync-metadata-to-spl-token" -> {}
              [] r.cmd = "create-mint" -> {WM(r), BP(r)}
              [] r.cmd = "create-escrow-account" -> {r.u} \cup (IF IsMint(r, r.u) THEN {ESC(r)} ELSE {})
              [] r.cmd = "wrap" -> IF r.um = "" \/ r.up = "" THEN {r.ta} ELSE {}
              [] r.cmd = "unwrap" -> {r.ta, r.rcp} \cup (IF IsTok(r, r.rcp) THEN {U(r)} ELSE {})
              [] OTHER -> {r.u}
Unread(r) == r.fault = "get" /\ Needs(r) # {} /\ r.on \in {""} \cup Needs(r)
Missing(r) ==
  CASE r.cmd = "create-escrow-account" -> ~IsMint(r, r.u)
    [] r.cmd = "close-stuck-escrow" -> ~Has(r, r.u) \/ At(r, r.u).own # "T22"
    [] r.cmd = "find-pdas" -> ~Has(r, r.u)
    [] r.cmd = "sync-metadata-to-token2022" ->
         r.src = "" /\ (~Has(r, r.u) \/ At(r, r.u).own \notin Tokens \/ (At(r, r.u).own = "T22" /\ ~IsMint(r, r.u)))
    [] r.cmd = "wrap" -> (r.um = "" /\ ~IsTok(r, r.ta)) \/ (r.up = "" /\ ~Has(r, r.ta))
    [] r.cmd = "unwrap" -> \/ ~Has(r, r.ta) \/ ~IsTok(r, r.rcp)
                           \/ r.wp # "" /\ r.wp # At(r, r.ta).own
                           \/ r.um # "" /\ r.um # At(r, r.rcp).m
                           \/ ~Has(r, At(r, r.rcp).m)
                           \/ r.up # "" /\ r.up # At(r, At(r, r.rcp).m).own
    [] OTHER -> FALSE
Exists(r) == r.cmd = "create-escrow-account" /\ ~Vacant(r, ESC(r))
\* how an account of another program is dealt with is left open
Open(r) == ~Usage(r) /\ ~Unread(r) /\ ~Missing(r) /\
  CASE r.cmd = "find-pdas" -> At(r, r.u).own \notin Tokens
    [] r.cmd = "wrap" -> r.up = "" /\ ~IsTok(r, r.ta)
    [] r.cmd = "unwrap" -> ~IsTok(r, r.ta) \/ ~IsMint(r, U(r))
    [] r.cmd = "create-escrow-account" -> Has(r, ESC(r)) /\ ~Vacant(r, ESC(r)) /\ ~IsTok(r, ESC(r))
    [] r.cmd = "sync-metadata-to-spl-token" -> r.own # "" /\ r.src = ""
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* the transaction *)
Ix(op, a, ms, d) == [p |-> "TW", m |-> Metas(op, a, ms), d |-> {d}]
M(l, s, w) == [l |-> l, s |-> s, w |-> w]
Fund(r, l, size) ==
  LET need == RentOf(size) - Lamports(r, l)
  IN IF need <= 0 THEN <<>>
     ELSE <<[p |-> "SYS", m |-> <<M(r.payer.l, TRUE, TRUE), M(l, FALSE, TRUE)>>, d |-> {<<2, 0, 0, 0>> \o Bytes(NatN(need), 8)}]>>
Opt1(x) == IF x = "" THEN <<>> ELSE <<x>>
Ixs(r) ==
  CASE r.cmd = "create-mint" ->
         Fund(r, WM(r), MintSize(r.wp)) \o Fund(r, BP(r), BackpointerSize)
         \o <<Ix("create", <<WM(r), BP(r), r.u, "SYS", r.wp>>, <<>>, Encode([op |-> "create", idem |-> r.idem]))>>
    [] r.cmd = "create-escrow-account" ->
         IF Exists(r) THEN <<>>
         ELSE <<[p |-> "ATAP", m |-> <<M(r.payer.l, TRUE, TRUE), M(ESC(r), FALSE, TRUE), M(AU(r), FALSE, FALSE), M(r.u, FALSE, FALSE),
                                       M("SYS", FALSE, FALSE), M(UP(r), FALSE, FALSE)>>,
                 d |-> {<<>>, <<0>>} \cup (IF r.idem THEN {<<1>>} ELSE {})]>>
    [] r.cmd = "close-stuck-escrow" -> <<Ix("close", <<ESC(r), r.dest, r.u, WM(r), AU(r), "T22">>, <<>>, Encode([op |-> "close"]))>>
    [] r.cmd = "sync-metadata-to-token2022" ->
         <<Ix("sync22", <<WM(r), AU(r), r.u, "T22">> \o Opt1(Source(r)) \o Opt1(r.own), <<>>, Encode([op |-> "sync22"]))>>
    [] r.cmd = "sync-metadata-to-spl-token" ->
         <<Ix("syncspl", <<MPX(WM(r)), AU(r), WM(r), r.u, "MPL", "SYS", "RENT">> \o Opt1(r.src) \o Opt1(r.own), <<>>,
              Encode([op |-> "syncspl"]))>>
    [] r.cmd = "wrap" ->
         <<Ix("wrap", <<Recipient(r), WM(r), AU(r), UP(r), r.wp, r.ta, U(r), ESC(r), Auth(r)>>, Members(r), Encode([op |-> "wrap", n |-> r.n]))>>
    [] r.cmd = "unwrap" ->
         <<Ix("unwrap", <<ESC(r), r.rcp, AU(r), U(r), WP(r), UP(r), r.ta, WM(r), Auth(r)>>, Members(r), Encode([op |-> "unwrap", n |-> r.n]))>>
    [] OTHER -> <<>>

\* which of the two accounts is funded first does not matter
Orders(r) == LET x == Ixs(r) IN {x} \cup (IF Len(x) = 3 THEN {<<x[2], x[1], x[3]>>} ELSE {})

BH(r) == IF IsMove(r) /\ r.bh # "" THEN r.bh ELSE "latest"
AllMetas(r) == UNION {Rng(ix.m) : ix \in Rng(Ixs(r))}
Signers(r) == {r.payer.l} \cup {m.l : m \in {x \in AllMetas(r) : x.s}}
Writable(r) == {r.payer.l} \cup {m.l : m \in {x \in AllMetas(r) : x.w}}
Message(r) == [ixs |-> Ixs(r), bh |-> BH(r), payer |-> r.payer.l]

\* is the observed transaction or message t the one asked for?
Same(r, t) ==
  /\ t.bh = BH(r) /\ t.payer = r.payer.l
  /\ Rng(t.sgn) = Signers(r) /\ Rng(t.wr) = Writable(r)
  /\ \E x \in Orders(r) :
       /\ Len(t.ixs) = Len(x)
       /\ \A i \in DOMAIN x : /\ t.ixs[i].p = x[i].p
                              /\ t.ixs[i].a = [j \in DOMAIN x[i].m |-> x[i].m[j].l]
                              /\ t.ixs[i].d \in x[i].d

-----------------------------------------------------------------------------
(* signatures *)
\* the fee payer signs with what --fee-payer names, also where it is the authority
HeldKeys(r) == {s.l : s \in {x \in {r.payer} \cup (IF ~IsMove(r) THEN {} ELSE IF r.ms = <<>> THEN (IF r.auth.l = r.payer.l THEN {} ELSE {r.auth}) ELSE Rng(r.ms)) : x.k = "file"}}
\* hist: earlier requests of the scenario that printed signatures
Resolved(r) == ~Usage(r) /\ ~Unread(r) /\ ~Missing(r) /\ ~(r.cmd = "create-escrow-account" /\ Exists(r) /\ ~r.idem)
GoodPre(r, s, hist) ==
  /\ s.l \in Signers(r)
  /\ \E q \in hist : q.r = s.from /\ Resolved(q) /\ Message(q) = Message(r) /\ s.l \in HeldKeys(q)
BadPre(r, hist) == IsMove(r) /\ \E s \in Rng(r.pre) : ~GoodPre(r, s, hist)
Signed(r) == (HeldKeys(r) \cup (IF IsMove(r) THEN {s.l : s \in Rng(r.pre)} ELSE {})) \cap Signers(r)
SignOnly(r) == IsMove(r) /\ r.so
HasTx(r) == Ixs(r) # <<>>

(* what is to become of it:                                                   *)
(* refuse   an error, and nothing reaches the node                            *)
(* nothing  success without a transaction                                     *)
(* print    success, the signed message printed                               *)
(* simulate / simfail    simulated, with the result reported                  *)
(* submit / subfail / reject  submitted: confirmed, failed, not taken          *)
Outcome(r, hist) ==
  IF Open(r) THEN "open"
  ELSE IF ~Resolved(r) THEN "refuse"
  ELSE IF ~HasTx(r) THEN "nothing"
  ELSE IF r.fault = "rent" /\ r.cmd = "create-mint" THEN "refuse"
  ELSE IF r.fault = "hash" /\ BH(r) = "latest" THEN "refuse"
  ELSE IF BadPre(r, hist) THEN "refuse"
  ELSE IF SignOnly(r) THEN "print"
  ELSE IF r.dry THEN IF r.fault \in {"sim", "simrpc"} THEN "simfail" ELSE "simulate"
  ELSE IF Signed(r) # Signers(r) \/ r.fault = "send" THEN "reject"
  ELSE IF r.fault = "status" THEN "subfail" ELSE "submit"
Success == {"nothing", "print", "simulate", "submit"}

-----------------------------------------------------------------------------
(* what is printed *)
Sigs(r) == {IF l \in Signed(r) THEN "sig:" \o l ELSE "sig:none" : l \in Signers(r)}
One(r, o) == IF o = "submit" THEN "sig:" \o r.payer.l ELSE ""
Json(r, o) ==
  CASE r.cmd = "create-mint" ->
         [unwrappedMintAddress |-> r.u, wrappedMintAddress |-> WM(r), wrappedBackpointerAddress |-> BP(r),
          fundedWrappedMintLamports |-> NatN(IF RentOf(MintSize(r.wp)) > Lamports(r, WM(r)) THEN RentOf(MintSize(r.wp)) - Lamports(r, WM(r)) ELSE 0),
          fundedBackpointerLamports |-> NatN(IF RentOf(BackpointerSize) > Lamports(r, BP(r)) THEN RentOf(BackpointerSize) - Lamports(r, BP(r)) ELSE 0),
          signature |-> One(r, o)]
    [] r.cmd = "create-escrow-account" ->
         [escrowAccountAddress |-> ESC(r), escrowAccountOwner |-> AU(r), unwrappedTokenProgramId |-> UP(r), signature |-> One(r, o)]
    [] r.cmd = "close-stuck-escrow" -> [unwrappedMint |-> r.u, escrowAccount |-> ESC(r), signatures |-> 0]
    [] r.cmd = "find-pdas" ->
         [wrappedMintAddress |-> WM(r), wrappedMintAuthority |-> AU(r), wrappedBackpointerAddress |-> BP(r), unwrappedEscrow |-> ESC(r)]
    [] r.cmd = "sync-metadata-to-token2022" ->
         [unwrappedMint |-> r.u, wrappedMint |-> WM(r), wrappedMintAuthority |-> AU(r), sourceMetadata |-> Source(r),
          metadataProgramId |-> r.own, signatures |-> 0]
    [] r.cmd = "sync-metadata-to-spl-token" ->
         [unwrappedMint |-> r.u, wrappedMint |-> WM(r), wrappedMintAuthority |-> AU(r), metaplexMetadata |-> MPX(WM(r)),
          sourceMetadata |-> r.src, ownerProgram |-> r.own, signature |-> One(r, o)]
    [] r.cmd = "wrap" ->
         [unwrappedMintAddress |-> U(r), wrappedMintAddress |-> WM(r), unwrappedTokenAccount |-> r.ta, recipientTokenAccount |-> Recipient(r),
          escrowAccount |-> ESC(r), amount |-> r.n, signatures |-> 0, signOnlyData |-> 0]
    [] r.cmd = "unwrap" ->
         [unwrappedMintAddress |-> U(r), unwrappedTokenProgram |-> UP(r), wrappedMintAddress |-> WM(r), wrappedTokenAccount |-> r.ta,
          escrowAccount |-> ESC(r), recipientTokenAccount |-> r.rcp, amount |-> r.n, signatures |-> 0, signOnlyData |-> 0]

\* headings of the readable form
Title(r) ==
  CASE r.cmd = "create-mint" -> <<<<"unwrappedMintAddress", "Unwrapped mint address">>, <<"wrappedMintAddress", "Wrapped mint address">>,
         <<"wrappedBackpointerAddress", "Wrapped backpointer address">>, <<"fundedWrappedMintLamports", "Funded wrapped mint lamports">>,
         <<"fundedBackpointerLamports", "Funded backpointer lamports">>, <<"signature", "Signature">>>>
    [] r.cmd = "create-escrow-account" -> <<<<"escrowAccountAddress", "Escrow Account Address">>,
         <<"escrowAccountOwner", "Escrow Account Owner (wrapped mint authority)">>,
         <<"unwrappedTokenProgramId", "Unwrapped Token Program ID">>, <<"signature", "Signature">>>>
    [] r.cmd = "close-stuck-escrow" -> <<<<"unwrappedMint", "Unwrapped mint">>, <<"escrowAccount", "Escrow account">>>>
    [] r.cmd = "find-pdas" -> <<<<"wrappedMintAddress", "Wrapped mint address">>, <<"wrappedMintAuthority", "Wrapped mint authority">>,
         <<"wrappedBackpointerAddress", "Wrapped backpointer address">>, <<"unwrappedEscrow", "Unwrapped escrow address">>>>
    [] r.cmd = "sync-metadata-to-token2022" -> <<<<"unwrappedMint", "Unwrapped mint">>, <<"wrappedMint", "Wrapped mint">>,
         <<"wrappedMintAuthority", "Wrapped mint authority">>, <<"sourceMetadata", "Source metadata">>, <<"metadataProgramId", "Metadata program id">>>>
    [] r.cmd = "sync-metadata-to-spl-token" -> <<<<"unwrappedMint", "Unwrapped mint">>, <<"wrappedMint", "Wrapped mint">>,
         <<"wrappedMintAuthority", "Wrapped mint authority">>, <<"metaplexMetadata", "Metaplex metadata account">>,
         <<"sourceMetadata", "Source metadata">>, <<"ownerProgram", "Owner program">>, <<"signature", "Signature">>>>
    [] r.cmd = "wrap" -> <<<<"unwrappedMintAddress", "Unwrapped mint address">>, <<"wrappedMintAddress", "Wrapped mint address">>,
         <<"unwrappedTokenAccount", "Unwrapped token account">>, <<"recipientTokenAccount", "Recipient wrapped token account">>,
         <<"escrowAccount", "Escrow account">>, <<"amount", "Amount">>>>
    [] r.cmd = "unwrap" -> <<<<"unwrappedTokenProgram", "Unwrapped token program">>, <<"unwrappedMintAddress", "Unwrapped mint address">>,
         <<"wrappedMintAddress", "Wrapped mint address">>, <<"wrappedTokenAccount", "Wrapped token account">>,
         <<"escrowAccount", "Escrow account">>, <<"recipientTokenAccount", "Recipient unwrapped token account">>, <<"amount", "Amount unwrapped">>>>
=============================================================================
