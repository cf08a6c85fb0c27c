------------------------------- MODULE Worlds -------------------------------
(* Constructors of accounts, worlds and instructions for the bounded models. *)
EXTENDS Props, SequencesExt

N(i) == NatN(i)

ExtSize(e) == CASE e = "fee" -> 108
                [] e \in {"clo", "pd"} -> 32
                [] e = "ct" -> 65
                [] e \in {"das", "hk", "cg", "mt"} -> 1
                [] e = "ib" -> 52
                [] e \in {"hook", "mp"} -> 64
                [] e = "paus" -> 33
                [] e = "fa" -> 8
                [] OTHER -> 0
RECURSIVE Sizes(_)
Sizes(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN 4 + ExtSize(e) + Sizes(S \ {e})
AcctLen(x) == IF DOMAIN x = {} THEN 165 ELSE 166 + Sizes(DOMAIN x)
MintLen(x) == IF DOMAIN x = {} THEN 82 ELSE 166 + Sizes(DOMAIN x)

Tok(p, m, own, amt, x) ==
  [k |-> "tok", p |-> p, lam |-> RentMin(AcctLen(x)), mint |-> m, own |-> own, amt |-> amt,
   del |-> "", damt |-> Zero, st |-> "init", clo |-> "", nat |-> FALSE, len |-> AcctLen(x), x |-> x]
Mint(p, auth, frz, sup, x) ==
  [k |-> "mint", p |-> p, lam |-> RentMin(MintLen(x)), auth |-> auth, frz |-> frz, dec |-> 6,
   sup |-> sup, len |-> MintLen(x), x |-> x]
Ptr(to) == [k |-> "ptr", p |-> "TW", lam |-> RentMin(32), to |-> to, len |-> 32]
Wallet(l) == [k |-> "sys", p |-> "SYS", lam |-> l]
Msig(p, m, sg) == [k |-> "msig", p |-> p, lam |-> RentMin(355), m |-> m, sg |-> sg]
Raw(p, len) == [k |-> "raw", p |-> p, lam |-> RentMin(len), len |-> len, h |-> "?"]
Ctr(n) == [k |-> "ctr", p |-> "HOOK", lam |-> RentMin(16), cnt |-> n, last |-> Zero]
Hval(m, xs) == [k |-> "hval", p |-> "HOOK", lam |-> RentMin(16 + 35 * (1 + Len(xs))), xs |-> xs, ctr |-> CTRof(m), h |-> "?"]

\* what a Token-2022 account of the mint has
AcctX(req) == [e \in req |-> CASE e = "fa" -> Zero [] e = "hk" -> FALSE [] OTHER -> TRUE]
NeededX(u) == IF u.p = "T22" THEN AcctX(Required(u)) ELSE <<>>            \* an associated token account
UserX(u) == IF u.p = "T22" THEN AcctX(Required(u) \ {"io"}) ELSE <<>>     \* any other

WMint(U, u, P, cust, sup) ==
  LET WM == WMof(U, P) IN
  [k |-> "mint", p |-> P, lam |-> RentMin(WmLen(cust, P)), auth |-> AUof(WM),
   frz |-> IF cust = "comp" THEN "COMP-FRZ" ELSE u.frz, dec |-> u.dec, sup |-> sup,
   len |-> WmLen(cust, P), x |-> WmExt(cust, P, WM)]
Escrow(U, u, P, amt) == Tok(u.p, U, AUof(WMof(U, P)), amt, NeededX(u))
EscAddr(U, u, P) == ATA(AUof(WMof(U, P)), U, u.p)

\* wrapped mint, backpointer, escrow of a pair
Deployed(U, u, P, cust, sup, amt) ==
     (WMof(U, P) :> WMint(U, u, P, cust, sup))
  @@ (BPof(WMof(U, P)) :> Ptr(U))
  @@ (EscAddr(U, u, P) :> Escrow(U, u, P, amt))
WTok(U, P, cust, own, amt) ==
  LET m == WMint(U, Mint("SPL", "", "", Zero, <<>>), P, cust, Zero)
  IN Tok(P, WMof(U, P), own, amt, IF P = "T22" THEN AcctX(Required(m) \ {"io"}) ELSE <<>>)

Wd(a, cust, tag) == [a |-> a, epoch |-> 0, cust |-> cust, tag |-> tag]

-----------------------------------------------------------------------------
Ev(op, a, sg) == [op |-> op, a |-> a, s |-> sg, wr |-> <<>>, ro |-> <<>>, n |-> Zero, idem |-> FALSE, to |-> "SYS"]

WrapEv(U, up, P, src, rcp, ta, sg, ex, n) ==
  LET WM == WMof(U, P) IN
  [Ev("wrap", <<rcp, WM, AUof(WM), up, P, src, U, ATA(AUof(WM), U, up), ta>> \o ex, sg) EXCEPT !.n = n]
UnwrapEv(U, up, P, hld, rcp, ta, sg, ex, n) ==
  LET WM == WMof(U, P) IN
  [Ev("unwrap", <<ATA(AUof(WM), U, up), rcp, AUof(WM), U, P, up, hld, WM, ta>> \o ex, sg) EXCEPT !.n = n]
CreateEv(U, P, idem) ==
  [Ev("create", <<WMof(U, P), BPof(WMof(U, P)), U, "SYS", P>>, <<>>) EXCEPT !.idem = idem]
CloseEv(U, up, P, dst) ==
  Ev("close", <<ATA(AUof(WMof(U, P)), U, up), dst, U, WMof(U, P), AUof(WMof(U, P)), "T22">>, <<>>)
Sync22Ev(U, src) == Ev("sync22", <<WMof(U, "T22"), AUof(WMof(U, "T22")), U, "T22">> \o src, <<>>)
SyncSplEv(U, src) ==
  [Ev("syncspl", <<MPLof(WMof(U, "SPL")), AUof(WMof(U, "SPL")), WMof(U, "SPL"), U, "MPL", "SYS", "RENT">> \o src, <<>>)
   EXCEPT !.wr = <<AUof(WMof(U, "SPL"))>>]
CanonEv(U, auth, sg, to) == [Ev("canon", <<auth, CPof(U), U, "SYS">>, sg) EXCEPT !.to = to]

(* mutations of an instruction *)
Replace(ev, pool) == {[ev EXCEPT !.a[j] = y] : j \in 1..Len(ev.a), y \in pool}
\* the impostor signs as well
Posing(ev, j, pool) == {[ev EXCEPT !.a[j] = y, !.s = <<y>>] : y \in pool}
Cuts(ev) == {[ev EXCEPT !.a = SubSeq(@, 1, j)] : j \in 0..(Len(ev.a) - 1)}
Locked(ev) == {[ev EXCEPT !.ro = <<y>>] : y \in Range(ev.a)}
Unsigned(ev) == {[ev EXCEPT !.s = <<>>]}
Swaps(ev) == {[ev EXCEPT !.a[j] = ev.a[l], !.a[l] = ev.a[j]] : j \in 1..Len(ev.a), l \in 1..Len(ev.a)}
=============================================================================
