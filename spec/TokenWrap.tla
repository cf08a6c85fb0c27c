----------------------------- MODULE TokenWrap -----------------------------
(* The token-wrap program: for each instruction the conditions it must check  *)
(* (named guards) and its effect. Step(w, ev) = [g, may, d]: the violated     *)
(* guards, whether this specification leaves the outcome open, and the        *)
(* accounts that change when the instruction succeeds.                        *)
EXTENDS Token, IOUtils

(* a guard may be switched off to see what it is needed for *)
Off == IF "OFF" \in DOMAIN IOEnv THEN {IOEnv.OFF} ELSE {}
Clear(g) == g \subseteq Off

Ops == {"create", "wrap", "unwrap", "close", "sync22", "syncspl", "canon"}

Fail(names) == [g |-> names, may |-> FALSE, d |-> <<>>]

-----------------------------------------------------------------------------
(* CreateMint:  wrapped mint, backpointer, unwrapped mint, system, program *)

StdExt(WM) == [ct |-> [auth |-> "", auto |-> TRUE, aud |-> ""],
               mp |-> [auth |-> AUof(WM), addr |-> WM]]
CompExt == [pd |-> "COMP-PD",
            ct |-> [auth |-> "COMP-CT", auto |-> TRUE, aud |-> "COMP-AUD"],
            das |-> "init",
            paus |-> [auth |-> "COMP-PAUS", on |-> FALSE]]
WmExt(cust, P, WM) == IF P # "T22" THEN <<>>
                      ELSE CASE cust = "comp" -> CompExt
                             [] cust = "noext" -> <<>>
                             [] OTHER -> StdExt(WM)
\* bytes of a mint with these extensions
WmLen(cust, P) == IF P # "T22" THEN 82
                  ELSE CASE cust = "comp" -> 313
                         [] cust = "noext" -> 82
                         [] OTHER -> 303

CreateStep(w, ev) ==
  IF Len(ev.a) < 5 THEN Fail({"accounts"}) ELSE
  LET WM == ev.a[1]  BP == ev.a[2]  U == ev.a[3]  P == ev.a[5]
      wm == A(w, WM)  bp == A(w, BP)  u == A(w, U)
      g0 == G("wm", WM = WMof(U, P)) \cup G("bp", BP = BPof(WM))
            \cup G("mintprogram", u.p \in TokProgs)
      exists == HasData(wm) \/ HasData(bp)
  IN IF exists THEN
       [g |-> g0 \cup G("exists", ev.idem)
                 \cup G("wmowner", wm.p = P) \cup G("bpowner", bp.p = "TW"),
        may |-> FALSE, d |-> <<>>]
     ELSE
       [g |-> g0 \cup G("mint", IsMint(u)) \cup G("program", P \in TokProgs)
                 \cup G("fundmint", NLe(RentMin(WmLen(w.cust, P)), wm.lam))
                 \cup G("fundptr", NLe(RentMin(32), bp.lam))
                 \cup G("readonly", {WM, BP} \cap ReadOnly(ev) = {}),
        may |-> "SYS" \notin Range(ev.a),
        d |-> IF ~IsMint(u) THEN <<>> ELSE
              (WM :> [k |-> "mint", p |-> P, lam |-> wm.lam, auth |-> AUof(WM),
                      frz |-> IF w.cust = "comp" THEN "COMP-FRZ" ELSE u.frz,
                      dec |-> u.dec, sup |-> Zero, len |-> WmLen(w.cust, P),
                      x |-> WmExt(w.cust, P, WM)])
           @@ (BP :> [k |-> "ptr", p |-> "TW", lam |-> bp.lam, to |-> U, len |-> 32])]

-----------------------------------------------------------------------------
(* Wrap *)

IdG(WM, AU, ESC, U, UP, WP) ==
     G("wm", WM = WMof(U, WP))
\cup G("au", AU = AUof(WM))
\cup G("esc", ESC = ATA(AU, U, UP))

WrapStep(w, ev) ==
  IF Len(ev.a) < 9 THEN Fail({"accounts"}) ELSE
  LET RCP == ev.a[1]  WM == ev.a[2]  AU == ev.a[3]  UP == ev.a[4]  WP == ev.a[5]
      SRC == ev.a[6]  U == ev.a[7]  ESC == ev.a[8]  TA == ev.a[9]
      X == Extras(ev, 9)
      n == ev.n
      net == NSub(n, EpochFee(A(w, U), w.epoch, n))
      esc == A(w, ESC)
      g == G("zero", n # Zero)
           \cup IdG(WM, AU, ESC, U, UP, WP)
           \cup G("escself", SRC # ESC)
           \cup G("escowner", IsTok(esc) => esc.own = AU)
           \cup TransferG(w, ev, UP, SRC, U, ESC, TA, n, FALSE, X)
           \cup MintG(w, ev, WP, WM, RCP, AU, net)
  IN [g |-> g,
      may |-> TransferMay(w, UP, SRC, U, ESC, TA) \/ (IsTok(A(w, RCP)) /\ A(w, RCP).nat),
      d |-> IF Clear(g) THEN TransferD(w, SRC, U, ESC, TA, n) @@ MintD(w, WM, RCP, net) ELSE <<>>]

(* Unwrap *)

UnwrapStep(w, ev) ==
  IF Len(ev.a) < 9 THEN Fail({"accounts"}) ELSE
  LET ESC == ev.a[1]  RCP == ev.a[2]  AU == ev.a[3]  U == ev.a[4]  WP == ev.a[5]
      UP == ev.a[6]  HLD == ev.a[7]  WM == ev.a[8]  TA == ev.a[9]
      X == Extras(ev, 9)
      n == ev.n
      g == G("zero", n # Zero)
           \cup IdG(WM, AU, ESC, U, UP, WP)
           \cup {"burn:" \o x : x \in BurnG(w, ev, WP, HLD, WM, TA, n, X)}
           \cup TransferG(w, ev, UP, ESC, U, RCP, AU, n, TRUE, X)
  IN [g |-> g,
      may |-> TransferMay(w, UP, ESC, U, RCP, AU) \/ BurnMay(w, WP, HLD, TA),
      d |-> IF Clear(g) THEN BurnD(w, HLD, WM, TA, n) @@ TransferD(w, ESC, U, RCP, AU, n) ELSE <<>>]

-----------------------------------------------------------------------------
(* CloseStuckEscrow: escrow, destination, unwrapped mint, wrapped mint, authority, T22 *)

GoodState(e, m) == DOMAIN e.x = Required(m)

CloseStep(w, ev) ==
  IF Len(ev.a) < 6 THEN Fail({"accounts"}) ELSE
  LET ESC == ev.a[1]  DST == ev.a[2]  U == ev.a[3]  WM == ev.a[4]  AU == ev.a[5]
      e == A(w, ESC)  m == A(w, U)
      g0 == G("program", e.p = "T22" /\ m.p = "T22")
            \cup G("wm", WM = WMof(U, A(w, WM).p))
            \cup G("au", AU = AUof(WM))
            \cup G("esc", ESC = ATA(AU, U, m.p))
            \cup G("escrow", IsTok(e)) \cup G("mint", IsMint(m))
      g1 == IF g0 # {} THEN {} ELSE
            G("escowner", e.own = AU)
            \cup G("balance", e.amt = Zero)
            \cup G("frozen", e.st = "init")
            \cup G("good", ~GoodState(e, m))
            \cup G("withheld", Has(e, "fa") => e.x.fa = Zero)
            \cup G("closeauthority", e.clo \in {"", AU})
            \cup G("cpiguard", ~(Has(e, "cg") /\ e.x.cg /\ DST # e.own))
            \cup G("self", DST # ESC)
            \cup G("readonly", {ESC, DST} \cap ReadOnly(ev) = {})
  IN [g |-> g0 \cup g1,
      may |-> "T22" \notin Range(ev.a) \/ DST \in Programs \/ DST \in {U, WM}
              \/ A(w, DST).k \in {"mint", "prog"},
      d |-> IF Clear(g0 \cup g1) THEN
              (ESC :> NoAcct) @@ (DST :> [A(w, DST) EXCEPT !.lam = NAdd(@, e.lam)])
            ELSE <<>>]

-----------------------------------------------------------------------------
(* Metadata: where it comes from *)

NoMd == [name |-> "", sym |-> "", uri |-> "", nl |-> {}, sl |-> {}, ul |-> {}, kv |-> <<>>]
Src(g, md) == [g |-> g, md |-> md]

Txt(k, v) == [k |-> k, c |-> "v", v |-> v, j |-> [t |-> "str"]]
Mean(k, t, c) == [k |-> k, c |-> "j", v |-> "", j |-> [t |-> t, c |-> c]]
Bool(b) == IF b THEN "true" ELSE "false"
Unverified(cr) == [some |-> TRUE,
                   l |-> [i \in 1..Len(cr.l) |-> [cr.l[i] EXCEPT !.v = FALSE]]]

\* the additional fields a Metaplex record is turned into
MplFields(r) ==
  << Txt("key", "\"MetadataV1\""), Mean("seller_fee_basis_points", "num", r.sf),
     Txt("primary_sale_happened", Bool(r.prim)), Txt("is_mutable", Bool(r.mut)) >>
  \o (IF r.cr.some /\ r.cr.l # <<>> THEN <<Mean("creators", "cr", Unverified(r.cr))>> ELSE <<>>)
  \o (IF r.nonce >= 0 THEN <<Txt("edition_nonce", ToString(r.nonce))>> ELSE <<>>)
  \o (IF r.std # "" THEN <<Txt("token_standard", "\"" \o r.std \o "\"")>> ELSE <<>>)
  \o (IF r.coll.some THEN <<Mean("collection", "coll", r.coll)>> ELSE <<>>)
  \o (IF r.uses.some THEN <<Mean("uses", "uses", r.uses)>> ELSE <<>>)
  \o (IF r.cd.some THEN <<Mean("collection_details", "cd", r.cd)>> ELSE <<>>)
  \o (IF r.pc.some THEN <<Mean("programmable_config", "pc", r.pc)>> ELSE <<>>)

\* Metaplex pads its strings with NUL bytes; a copy may keep or drop them
FromMpl(r) == [name |-> r.name, sym |-> r.sym, uri |-> r.uri,
               nl |-> {r.nl, r.tl.n}, sl |-> {r.sl, r.tl.s}, ul |-> {r.ul, r.tl.u},
               kv |-> MplFields(r)]
FromT22(m) == [name |-> m.name, sym |-> m.sym, uri |-> m.uri,
               nl |-> {m.nl}, sl |-> {m.sl}, ul |-> {m.ul},
               kv |-> [i \in 1..Len(m.kv) |->
                         [k |-> m.kv[i].k, c |-> "v", v |-> m.kv[i].v, j |-> m.kv[i].j]]]

\* s: the passed source accounts after the fixed ones
ReadMpl(w, U, s) ==
  IF Len(s) < 1 THEN Src({"nosource"}, NoMd) ELSE
  LET r == A(w, s[1])
      g == G("mplowner", r.p = "MPL") \cup G("mplpda", s[1] = MPLof(U)) \cup G("mplrecord", r.k = "mpl")
  IN Src(g, IF r.k = "mpl" THEN FromMpl(r) ELSE NoMd)

Source(w, U, s) ==
  LET u == A(w, U) IN
  IF u.p = "SPL" THEN ReadMpl(w, U, s)
  ELSE IF u.p # "T22" THEN Src({"sourceprogram"}, NoMd)
  ELSE IF ~IsMint(u) THEN Src({"sourcemint"}, NoMd)
  ELSE IF ~Has(u, "mp") THEN ReadMpl(w, U, s)
  ELSE IF u.x.mp.addr = "" THEN Src({"unset"}, NoMd)
  ELSE IF u.x.mp.addr = U THEN
         IF Has(u, "md") THEN Src({}, FromT22(u.x.md)) ELSE Src({"nomd"}, NoMd)
  ELSE IF Len(s) < 1 THEN Src({"nosource"}, NoMd)
  ELSE LET r == A(w, s[1])
           g == G("pointer", s[1] = u.x.mp.addr)
       IN IF r.p = "T22" THEN Src(g \cup {"t22source"}, NoMd)
          ELSE IF r.p = "MPL" THEN
                 Src(g \cup G("mplrecord", r.k = "mpl"), IF r.k = "mpl" THEN FromMpl(r) ELSE NoMd)
          ELSE IF Len(s) < 2 THEN Src(g \cup {"noprogram"}, NoMd)
          ELSE Src(g \cup G("ownerprogram", s[2] = r.p)
                     \cup G("returned", r.k = "ext" /\ r.mode = 0 /\ "md" \in DOMAIN r),
                   IF r.k = "ext" /\ "md" \in DOMAIN r THEN FromT22(r.md) ELSE NoMd)

\* last entry for each key
Keys(kv) == {kv[i].k : i \in 1..Len(kv)}
LastFor(kv, k) == LET is == {i \in 1..Len(kv) : kv[i].k = k}
                  IN kv[CHOOSE i \in is : \A j \in is : j <= i]

-----------------------------------------------------------------------------
(* SyncMetadataToToken2022: wrapped mint, authority, unwrapped mint, T22, [source], [program] *)

Sync22Step(w, ev) ==
  IF Len(ev.a) < 4 THEN Fail({"accounts"}) ELSE
  LET WM == ev.a[1]  AU == ev.a[2]  U == ev.a[3]  P == ev.a[4]
      wm == A(w, WM)
      src == Source(w, U, SubSeq(ev.a, 5, Len(ev.a)))
      g == G("program", P = "T22") \cup G("wmprogram", wm.p = "T22")
           \cup G("wm", WM = WMof(U, "T22")) \cup G("au", AU = AUof(WM))
           \cup src.g
           \cup G("wmint", IsMint(wm))
      odd == \/ WM \in ReadOnly(ev)
             \/ IsMint(wm) /\ (wm.auth # AU \/ ~Has(wm, "mp") \/ wm.x.mp.addr # WM)
  IN [g |-> g, may |-> odd,
      d |-> IF Clear(g)
            THEN WM :> [wm EXCEPT !.x = ("md" :> [ua |-> AU, mint |-> WM, src |-> src.md]) @@ @]
            ELSE <<>>]

-----------------------------------------------------------------------------
(* SyncMetadataToSplToken: record, authority, wrapped mint, unwrapped mint, MPL, SYS, RENT, ... *)

Parsed(kv, k, dflt) == IF k \in Keys(kv) THEN LastFor(kv, k).j.c ELSE dflt
BadField(kv) == \E i \in 1..Len(kv) :
  kv[i].k \in {"creators", "seller_fee_basis_points", "collection", "uses"} /\ kv[i].j.t = "bad"

NoCr == [some |-> FALSE, l |-> <<>>]
NoColl == [some |-> FALSE, v |-> FALSE, key |-> ""]
NoUses == [some |-> FALSE, m |-> "", r |-> <<>>, t |-> <<>>]

\* what Metaplex is known to accept
RECURSIVE Shares(_)
Shares(l) == IF l = <<>> THEN 0 ELSE Head(l).s + Shares(Tail(l))
NiceCr(c) == ~c.some \/ (/\ Len(c.l) \in 1..5 /\ Shares(c.l) = 100
                         /\ \A i, j \in 1..Len(c.l) : i # j => c.l[i].a # c.l[j].a)
NiceUses(u) == ~u.some \/ CASE u.m = "Single" -> u.r = NatN(1) /\ u.t = NatN(1)
                             [] u.m = "Multiple" -> NLe(NatN(2), u.t) /\ NLe(u.r, u.t)
                             [] OTHER -> TRUE
Nice(md, sf, cr, us) ==
  /\ \A x \in md.nl : x <= 32
  /\ \A x \in md.sl : x <= 10
  /\ \A x \in md.ul : x <= 200
  /\ sf <= 10000 /\ NiceCr(cr) /\ NiceUses(us)

\* Metaplex lets nobody but the creators themselves take back their verification
Vouched(cr) == \E i \in 1..Len(cr.l) : cr.l[i].v

SyncSplStep(w, ev) ==
  IF Len(ev.a) < 7 THEN Fail({"accounts"}) ELSE
  LET R == ev.a[1]  AU == ev.a[2]  WM == ev.a[3]  U == ev.a[4]
      wm == A(w, WM)  old == A(w, R)
      src == Source(w, U, SubSeq(ev.a, 8, Len(ev.a)))
      md == src.md
      bad == BadField(md.kv)
      sf == IF bad THEN 0 ELSE Parsed(md.kv, "seller_fee_basis_points", 0)
      cr == IF bad THEN NoCr ELSE
            LET c == Parsed(md.kv, "creators", NoCr) IN IF c.some THEN Unverified(c) ELSE NoCr
      co == IF bad THEN NoColl ELSE
            LET c == Parsed(md.kv, "collection", NoColl) IN [c EXCEPT !.v = FALSE]
      us == IF bad THEN NoUses ELSE Parsed(md.kv, "uses", NoUses)
      g == G("wmprogram", wm.p = "SPL")
           \cup G("wm", WM = WMof(U, "SPL")) \cup G("au", AU = AUof(WM))
           \cup G("record", R = MPLof(WM)) \cup G("mplprogram", ev.a[5] = "MPL")
           \cup src.g
           \cup G("badfield", ~bad)
           \cup G("wmint", IsMint(wm))
      fresh == ~HasData(old)
      odd == \/ R \in ReadOnly(ev)
             \/ IsMint(wm) /\ wm.auth # AU
             \/ ~Nice(md, sf, cr, us)
             \/ fresh /\ (\/ NLt(A(w, AU).lam, NatN(20000000)) \/ AU \in ReadOnly(ev)
                          \/ A(w, AU).k # "sys" \/ old.lam # Zero)
             \/ ~fresh /\ (\/ old.k # "mpl"
                           \/ (old.k = "mpl" /\ (old.ua # AU \/ ~old.mut \/ old.coll.v \/ old.uses.some
                                            \/ old.std \notin {"", "Fungible", "FungibleAsset"} \/ Vouched(old.cr))))
             \/ "SYS" \notin Range(ev.a) \/ "RENT" \notin Range(ev.a)
             \/ ev.a[6] # "SYS" \/ ev.a[7] # "RENT"
  IN [g |-> g, may |-> odd,
      d |-> IF ~Clear(g) THEN <<>> ELSE
            R :> [k |-> "mpl", p |-> "MPL", ua |-> AU, mint |-> WM,
                  name |-> md.name, sym |-> md.sym, uri |-> md.uri,
                  sf |-> sf, cr |-> cr, coll |-> co, uses |-> us, mut |-> TRUE,
                  prim |-> IF old.k = "mpl" THEN old.prim ELSE FALSE]]

-----------------------------------------------------------------------------
(* SetCanonicalPointer: mint authority, pointer, unwrapped mint, system *)

CanonStep(w, ev) ==
  IF Len(ev.a) < 4 THEN Fail({"accounts"}) ELSE
  LET AUTH == ev.a[1]  CP == ev.a[2]  U == ev.a[3]
      u == A(w, U)  c == A(w, CP)
      g == G("signature", AUTH \in Signers(ev))
           \cup G("mintprogram", u.p \in TokProgs)
           \cup G("mint", IsMint(u))
           \cup G("authority", IsMint(u) => u.auth # "" /\ u.auth = AUTH)
           \cup G("address", CP = CPof(U))
           \cup G("fund", c.k = "sys" => NLe(RentMin(32), c.lam))
  IN [g |-> g, may |-> CP \in ReadOnly(ev) \/ "SYS" \notin Range(ev.a) \/ ~(c.k = "sys" \/ (c.k = "ptr" /\ c.len = 32)),
      d |-> CP :> [k |-> "ptr", p |-> "TW", lam |-> c.lam, to |-> ev.to, len |-> 32]]

-----------------------------------------------------------------------------
Step(w, ev) ==
  CASE ev.op = "create"  -> CreateStep(w, ev)
    [] ev.op = "wrap"    -> WrapStep(w, ev)
    [] ev.op = "unwrap"  -> UnwrapStep(w, ev)
    [] ev.op = "close"   -> CloseStep(w, ev)
    [] ev.op = "sync22"  -> Sync22Step(w, ev)
    [] ev.op = "syncspl" -> SyncSplStep(w, ev)
    [] ev.op = "canon"   -> CanonStep(w, ev)

Apply(w, d) == [w EXCEPT !.a = d @@ @]

-----------------------------------------------------------------------------
(* Does what changed (act: address -> account) agree with the expected changes? *)

MdAgrees(e, x) ==
  /\ x.ua = e.ua /\ x.mint = e.mint
  /\ x.name = e.src.name /\ x.sym = e.src.sym /\ x.uri = e.src.uri
  /\ x.nl \in e.src.nl /\ x.sl \in e.src.sl /\ x.ul \in e.src.ul
  /\ Len(x.kv) = Cardinality(Keys(x.kv))
  /\ Keys(x.kv) = Keys(e.src.kv)
  /\ \A i \in 1..Len(x.kv) :
        LET f == LastFor(e.src.kv, x.kv[i].k)
        IN IF f.c = "v" THEN x.kv[i].v = f.v ELSE x.kv[i].j = f.j

Agrees(op, e, x) ==
  CASE op = "sync22"  -> /\ IsMint(x) /\ Has(x, "md") /\ "nl" \in DOMAIN x.x.md
                         /\ MdAgrees(e.x.md, x.x.md)
                         /\ [x EXCEPT !.x = [f \in DOMAIN @ \ {"md"} |-> @[f]], !.len = 0]
                            = [e EXCEPT !.x = [f \in DOMAIN @ \ {"md"} |-> @[f]], !.len = 0]
    [] op = "syncspl" -> \A f \in DOMAIN e : f \in DOMAIN x /\ x[f] = e[f]
    [] OTHER          -> x = e

\* a Metaplex record is paid for by the mint authority of the wrapped mint
PayerOK(w, ev) ==
  IF ev.op # "syncspl" \/ ev.a[2] \notin DOMAIN ev.d THEN TRUE
  ELSE LET o == A(w, ev.a[2])  n == ev.d[ev.a[2]]
       IN n.k = "sys" /\ ~HasData(A(w, ev.a[1])) /\ NLe(n.lam, o.lam)
Slack(op, ev) == IF op = "syncspl" THEN {ev.a[2]} ELSE {}

EffectOK(w, ev, d) ==
  /\ DOMAIN ev.d \subseteq DOMAIN d \cup Slack(ev.op, ev)
  /\ \A l \in DOMAIN d : Agrees(ev.op, d[l], A(Apply(w, ev.d), l))
  /\ PayerOK(w, ev)
  /\ Opt(ev, "hid", <<>>) = <<>>
=============================================================================
