------------------------------- MODULE Token -------------------------------
(* Accounts, addresses, and the parts of the two token programs that          *)
(* token-wrap relies on: transfer, mint and burn as they behave inside a      *)
(* cross-program invocation.                                                  *)
(*                                                                            *)
(* A world is [epoch, cust, a] with a : address -> account. An address is its *)
(* derivation written out ("wm(U,T22)", "au(...)", "ata(owner,mint,prog)") or *)
(* a name; an address without entry in a is an empty system account.          *)
EXTENDS Num, Integers, FiniteSets, TLC

TokProgs == {"SPL", "T22"}
Programs == {"SYS", "SPL", "T22", "TW", "ATAP", "MPL", "HOOK", "EXT", "EXT2", "EVIL", "RENT"}

NoAcct   == [k |-> "sys", p |-> "SYS", lam |-> <<>>]
ProgAcct == [k |-> "prog", p |-> "LOADER", lam |-> <<1>>]
A(w, l) == IF l \in Programs THEN ProgAcct
           ELSE IF l \in DOMAIN w.a THEN w.a[l] ELSE NoAcct

WMof(U, P)   == "wm(" \o U \o "," \o P \o ")"      \* wrapped mint
AUof(WM)     == "au(" \o WM \o ")"                 \* its mint authority, owner of the escrow
BPof(WM)     == "bp(" \o WM \o ")"                 \* its backpointer
CPof(U)      == "cp(" \o U \o ")"                  \* canonical pointer of an unwrapped mint
ATA(O, M, P) == "ata(" \o O \o "," \o M \o "," \o P \o ")"
MPLof(M)     == "mpl(" \o M \o ")"                 \* Metaplex record
HVof(M)      == "hv(" \o M \o ")"                  \* validation account of a hook
CTRof(M)     == "ctr:" \o M                        \* the counter the hook program keeps per mint

ESCof(w, U, P) == ATA(AUof(WMof(U, P)), U, A(w, U).p)

IsTok(x)  == x.k = "tok"
IsMint(x) == x.k = "mint"
Has(x, e) == e \in DOMAIN x.x
HasData(x) == x.k # "sys"

Range(s) == {s[i] : i \in 1..Len(s)}
Opt(r, f, dflt) == IF f \in DOMAIN r THEN r[f] ELSE dflt
Signers(ev) == Range(ev.s)
ReadOnly(ev) == Range(Opt(ev, "ro", <<>>))
Writes(ev) == Range(Opt(ev, "wr", <<>>))
Extras(ev, k) == {ev.a[i] : i \in (k + 1)..Len(ev.a)}

G(name, cond) == IF cond THEN {} ELSE {name}

RentMin(len) == NMul(NatN(128 + len), 6960)

-----------------------------------------------------------------------------
(* authority *)

Quorum(msig, ev, extras) ==
  LET sg     == msig.sg
      listed == {x \in extras : x \in Range(sg)}
  IN /\ listed \subseteq Signers(ev)
     /\ Cardinality({i \in 1..Len(sg) : sg[i] \in listed}) >= msig.m

Signed(w, ev, auth, extras) ==
  IF A(w, auth).k = "msig" THEN Quorum(A(w, auth), ev, extras) ELSE auth \in Signers(ev)

(* SPL Token does not take a Token-2022 multisig for one, the instruction helpers do *)
AuthUnsure(w, P, auth) == A(w, auth).k = "msig" /\ A(w, auth).p # P

PermDel(m) == IF Has(m, "pd") THEN m.x.pd ELSE ""
ViaPD(x, m, auth)  == PermDel(m) # "" /\ PermDel(m) = auth
ViaDel(x, m, auth) == ~ViaPD(x, m, auth) /\ x.del # "" /\ x.del = auth

AuthG(w, ev, x, m, auth, n, bySelf, extras) ==
     G("authority", ViaPD(x, m, auth) \/ ViaDel(x, m, auth) \/ x.own = auth)
\cup G("signature", bySelf \/ Signed(w, ev, auth, extras)
                   \/ (AuthUnsure(w, m.p, auth) /\ auth \in Signers(ev)))
\cup G("allowance", ViaDel(x, m, auth) => NLe(n, x.damt))
\cup G("cpiguard", ~(Has(x, "cg") /\ x.x.cg /\ x.own = auth))

SpendDel(x, n) ==
  LET r == NSub(x.damt, n)
  IN [x EXCEPT !.damt = r, !.del = IF r = Zero THEN "" ELSE @]

Paused(m) == Has(m, "paus") /\ m.x.paus.on

-----------------------------------------------------------------------------
(* transfer *)

FeeOf(bps, max, n) == IF bps = 0 THEN Zero ELSE NMin(NCeilB(NMul(n, bps)), max)
EpochFee(m, epoch, n) ==
  IF ~IsMint(m) \/ ~Has(m, "fee") THEN Zero
  ELSE LET f == m.x.fee
       IN IF epoch >= f.ne THEN FeeOf(f.nb, f.nm, n) ELSE FeeOf(f.ob, f.om, n)

HookOf(m) == IF IsMint(m) /\ Has(m, "hook") THEN m.x.hook ELSE ""

HookReady(w, ev, mint, extras) ==
  /\ {"HOOK", HVof(mint), CTRof(mint)} \subseteq extras
  /\ A(w, CTRof(mint)).k = "ctr"
  /\ A(w, HVof(mint)).k = "hval"
  /\ Range(A(w, HVof(mint)).xs) \subseteq extras
  /\ CTRof(mint) \in Writes(ev)
  /\ CTRof(mint) \notin ReadOnly(ev)

TransferG(w, ev, P, src, mint, dst, auth, n, bySelf, extras) ==
  LET s == A(w, src)  m == A(w, mint)  d == A(w, dst)
      g0 == G("tprog", P \in TokProgs)
            \cup G("source", IsTok(s) /\ s.p = P)
            \cup G("destination", IsTok(d) /\ d.p = P)
            \cup G("mint", IsMint(m) /\ m.p = P)
      fee == EpochFee(m, w.epoch, n)
  IN IF g0 # {} THEN g0 ELSE
       G("frozen", s.st # "frozen" /\ d.st # "frozen")
  \cup G("funds", NLe(n, s.amt))
  \cup G("mintmatch", s.mint = mint /\ d.mint = mint)
  \cup G("nontransferable", ~Has(s, "nta"))
  \cup G("paused", ~Paused(m))
  \cup AuthG(w, ev, s, m, auth, n, bySelf, extras)
  \cup G("memo", ~(Has(d, "mt") /\ d.x.mt))
  \cup (IF src = dst THEN {} ELSE
            G("overflow", NLe(NAdd(d.amt, NSub(n, fee)), U64Max))
       \cup G("feeaccount", fee # Zero => Has(d, "fa"))
       \cup G("hookaccount", HookOf(m) # "" => Has(s, "hk") /\ Has(d, "hk"))
       \cup G("hook", HookOf(m) = "HOOK" => HookReady(w, ev, mint, extras)))
  \cup G("readonly", {src, dst} \cap ReadOnly(ev) = {})

(* circumstances this specification does not decide *)
TransferMay(w, P, src, mint, dst, auth) ==
  LET s == A(w, src)  m == A(w, mint)  d == A(w, dst)
  IN \/ AuthUnsure(w, P, auth)
     \/ HookOf(m) \notin {"", "HOOK"}
     \/ HookOf(m) # "" /\ src = dst
     \/ IsMint(m) /\ Has(m, "nt") /\ IsTok(s) /\ ~Has(s, "nta")
     \/ IsTok(s) /\ IsMint(m) /\ s.nat /\ NLt(s.lam, s.amt)

TransferD(w, src, mint, dst, auth, n) ==
  LET s == A(w, src)  m == A(w, mint)  d == A(w, dst)
      fee == EpochFee(m, w.epoch, n)
      s1 == IF ViaDel(s, m, auth) THEN SpendDel(s, n) ELSE s
      s2 == [s1 EXCEPT !.amt = NSub(@, n), !.lam = IF s.nat THEN NSub(@, n) ELSE @]
      d1 == [d EXCEPT !.amt = NAdd(@, NSub(n, fee)), !.lam = IF s.nat THEN NAdd(@, n) ELSE @]
      d2 == IF fee = Zero THEN d1 ELSE [d1 EXCEPT !.x.fa = NAdd(@, fee)]
      hk == IF HookOf(m) = "HOOK"
            THEN CTRof(mint) :> [A(w, CTRof(mint)) EXCEPT !.cnt = @ + 1, !.last = n]
            ELSE <<>>
  IN IF src = dst THEN <<>> ELSE (src :> s2) @@ (dst :> d2) @@ hk

-----------------------------------------------------------------------------
(* mint, burn *)

MintG(w, ev, P, mint, dst, auth, n) ==
  LET m == A(w, mint)  d == A(w, dst)
      g0 == G("wprog", P \in TokProgs)
            \cup G("wmint", IsMint(m) /\ m.p = P)
            \cup G("recipient", IsTok(d) /\ d.p = P)
  IN IF g0 # {} THEN g0 ELSE
       G("recipientfrozen", d.st # "frozen")
  \cup G("recipientmint", d.mint = mint)
  \cup G("mintauthority", m.auth = auth)
  \cup G("wpaused", ~Paused(m))
  \cup G("woverflow", NLe(NAdd(m.sup, n), U64Max) /\ NLe(NAdd(d.amt, n), U64Max))
  \cup G("readonly", {mint, dst} \cap ReadOnly(ev) = {})

MintD(w, mint, dst, n) ==
  (mint :> [A(w, mint) EXCEPT !.sup = NAdd(@, n)])
  @@ (dst :> [A(w, dst) EXCEPT !.amt = NAdd(@, n)])

Nobodys(x) == x.own \in {"SYS", "INC"}     \* both token programs let anyone burn these

BurnG(w, ev, P, acct, mint, auth, n, extras) ==
  LET m == A(w, mint)  x == A(w, acct)
      g0 == G("wprog", P \in TokProgs)
            \cup G("wmint", IsMint(m) /\ m.p = P)
            \cup G("holder", IsTok(x) /\ x.p = P)
  IN IF g0 # {} THEN g0 ELSE
       G("frozen", x.st # "frozen")
  \cup G("funds", NLe(n, x.amt) /\ NLe(n, m.sup))
  \cup G("mintmatch", x.mint = mint)
  \cup G("wpaused", ~Paused(m))
  \cup (IF Nobodys(x) THEN G("cpiguard", ~(Has(x, "cg") /\ x.x.cg /\ x.own = auth))
        ELSE AuthG(w, ev, x, m, auth, n, FALSE, extras))
  \cup G("readonly", {mint, acct} \cap ReadOnly(ev) = {})

BurnMay(w, P, acct, auth) ==
  \/ AuthUnsure(w, P, auth)
  \/ IsTok(A(w, acct)) /\ Nobodys(A(w, acct))
  \/ IsTok(A(w, acct)) /\ A(w, acct).nat

BurnD(w, acct, mint, auth, n) ==
  LET x == A(w, acct)  m == A(w, mint)
      x1 == IF ~Nobodys(x) /\ ViaDel(x, m, auth) THEN SpendDel(x, n) ELSE x
  IN (acct :> [x1 EXCEPT !.amt = NSub(@, n)]) @@ (mint :> [m EXCEPT !.sup = NSub(@, n)])

(* the extensions a Token-2022 account of this mint must have *)
Required(m) == (IF Has(m, "fee") THEN {"fa"} ELSE {})
          \cup (IF Has(m, "nt") THEN {"nta"} ELSE {})
          \cup (IF Has(m, "hook") THEN {"hk"} ELSE {})
          \cup (IF Has(m, "paus") THEN {"pa"} ELSE {})
          \cup {"io"}
=============================================================================
