------------------------------- MODULE Props -------------------------------
(* The properties C01..C15, C19, C20 over one observed event: the world       *)
(* before it, the event as reported by the implementation, the world after.   *)
(* Bad(w, ev) is the set of <<property, what is wrong>>.                      *)
EXTENDS TokenWrap, Codec

(* which properties a condition of an instruction belongs to *)
Auth == {"authority", "signature", "allowance"}
Ident == {"wm", "au", "esc", "bp", "tprog", "wprog", "wmint", "mint", "source", "destination",
          "recipient", "holder", "mintmatch", "recipientmint", "escowner", "program",
          "wmprogram", "escrow", "mplprogram", "record", "accounts"}
Origin == {"nosource", "mplowner", "mplpda", "mplrecord", "sourceprogram", "sourcemint", "unset",
           "nomd", "pointer", "t22source", "noprogram", "ownerprogram", "returned"}
BurnNames == {"wprog", "wmint", "holder", "frozen", "funds", "mintmatch", "wpaused", "authority",
              "signature", "allowance", "cpiguard", "readonly"}

OfWrap(g) ==
  CASE g = "zero" -> {"C02"}
    [] g = "escself" -> {"C01"}
    [] g \in Auth -> {"C04"}
    [] g = "hook" -> {"C19"}
    [] g \in {"wm", "au", "esc"} -> {"C05"}
    [] g \in Ident -> {"C05", "C02"}
    [] OTHER -> {"C02"}
OfUnwrap(g) ==
  CASE g = "zero" -> {"C03"}
    [] g \in {"burn:" \o x : x \in Auth} -> {"C04"}
    [] g = "hook" -> {"C19"}
    [] g \in {"wm", "au", "esc"} -> {"C05"}
    [] g \in Ident \cup {"burn:" \o x : x \in Ident} -> {"C05", "C03"}
    [] OTHER -> {"C03"}
OfCreate(g) ==
  CASE g \in {"wm", "bp"} -> {"C05", "C08"}
    [] OTHER -> {"C08"}
OfClose(g) ==
  CASE g \in {"wm", "au", "esc", "program"} -> {"C05", "C10"}
    [] OTHER -> {"C10"}
OfSync(op, g) ==
  CASE g \in Origin -> {"C14"}
    [] g \in Ident -> {"C05"}
    [] OTHER -> {IF op = "sync22" THEN "C12" ELSE "C13"}
OfCanon(g) == {"C15"} \cup (IF g = "address" THEN {"C05"} ELSE {})

Guards(op, g) ==
  CASE op = "wrap" -> OfWrap(g)
    [] op = "unwrap" -> OfUnwrap(g)
    [] op = "create" -> OfCreate(g)
    [] op = "close" -> OfClose(g)
    [] op = "canon" -> OfCanon(g)
    [] OTHER -> OfSync(op, g)

(* a condition is violated, and the instruction went through *)
Accepted(w, ev, st) ==
  IF ~ev.ok THEN {}
  ELSE UNION {{<<c, ev.op \o " accepted despite: " \o g>> : c \in Guards(ev.op, g)} : g \in st.g}

(* it should have gone through *)
Refused(w, ev, st) ==
  IF ev.ok \/ st.g # {} \/ st.may THEN {}
  ELSE LET msg == ev.op \o " refused: " \o ev.err
           hooked == ev.op \in {"wrap", "unwrap"} /\ Len(ev.a) >= 9
                     /\ HookOf(A(w, IF ev.op = "wrap" THEN ev.a[7] ELSE ev.a[4])) # ""
           c == CASE ev.op \in {"wrap", "unwrap"} ->
                       {"C06"} \cup (IF hooked THEN {"C19"} ELSE {})
                               \cup (IF w.tag = "stuck" THEN {"C11"} ELSE {})
                  [] ev.op = "create" -> {"C08"}
                  [] ev.op = "close" -> {"C11"}
                  [] ev.op = "sync22" -> {"C12"}
                  [] ev.op = "syncspl" -> {"C13"}
                  [] ev.op = "canon" -> {"C15"}
       IN {<<x, msg>> : x \in c}

(* it went through, but not with the effect it should have *)
Wrong(w, ev, st) ==
  IF ~ev.ok \/ st.g # {} \/ EffectOK(w, ev, st.d) THEN {}
  ELSE LET c == CASE ev.op = "wrap" -> {"C02"}
                  [] ev.op = "unwrap" -> {"C03"}
                  [] ev.op = "create" -> IF st.d = <<>> THEN {"C08"}
                                         ELSE IF w.cust = "std" THEN {"C07"} ELSE {"C20"}
                  [] ev.op = "close" -> {"C10"}
                  [] ev.op = "sync22" -> {"C12"}
                  [] ev.op = "syncspl" -> {"C13"}
                  [] ev.op = "canon" -> {"C15"}
       IN {<<x, ev.op \o " had another effect">> : x \in c}

(* the error of a second creation is the documented one *)
WrongError(ev, st) ==
  IF ~ev.ok /\ ev.op = "create" /\ "exists" \in st.g /\ st.g \subseteq {"exists", "wmowner", "bpowner"} /\ ev.err # "AccountAlreadyInitialized"
  THEN {<<"C08", "second creation failed with " \o ev.err>>} ELSE {}

(* C24: the error names the reason. Code: the documented error of a condition; *)
(* Own: conditions the program looks at itself, before it hands over to a     *)
(* token program, whose error is one of the standard ones.                    *)
Code(w, ev, g) ==
  LET o == ev.op
      mv == o \in {"wrap", "unwrap"}
      sync == o \in {"sync22", "syncspl"}
  IN CASE g = "zero" /\ mv -> "C2"
       [] g = "wm" -> "C0"
       [] g = "au" -> "C3"
       [] g = "esc" -> "C7"
       [] g = "escowner" -> "C4"
       [] g = "bp" -> "C1"
       [] g = "exists" -> "AccountAlreadyInitialized"
       [] g = "wmowner" -> "C5"
       [] g = "bpowner" -> "C6"
       [] g = "fundmint" -> "AccountNotRentExempt"
       [] g = "good" -> "C8"
       [] g \in {"mplpda", "record"} -> "C10"
       [] g = "unset" -> "C12"
       [] g = "pointer" -> "C13"
       [] g = "wmprogram" /\ o = "syncspl" -> "C15"
       [] g = "returned" -> LET k == IF o = "sync22" THEN 5 ELSE 8
                                r == A(w, ev.a[k])
                            IN IF r.k = "ext" /\ r.mode = 1 /\ k < Len(ev.a) /\ ev.a[k + 1] \in {"EXT", "EXT2"}
                                  /\ r.p = ev.a[k + 1]
                               THEN "C14" ELSE ""
       [] OTHER -> ""
Own(op) ==
  CASE op = "create" -> {"mintprogram"}
    [] op = "close" -> {"program", "escrow", "balance", "frozen"}
    [] op \in {"sync22", "syncspl"} -> {"program", "wmprogram", "mplprogram", "sourceprogram", "mplowner", "mplrecord",
                                       "nosource", "nomd", "t22source", "noprogram", "ownerprogram", "returned", "badfield"}
    [] OTHER -> {}
\* it may also look at these accounts before it looks at their addresses
Soft == {"mint", "wmint", "destination", "source", "mintprogram"}
Customs == {"C" \o ToString(i) : i \in 0..15}
WrongCode(w, ev, st) ==
  IF ev.ok \/ st.g = {} \/ "accounts" \in st.g THEN {}
  ELSE LET doc == {g \in st.g : Code(w, ev, g) # ""}
           own == st.g \cap Own(ev.op)
           codes == {Code(w, ev, g) : g \in doc}
       IN IF doc = {} /\ (~(st.g \subseteq own) \/ st.may) THEN {}
          ELSE IF ev.err \in codes \/ ("returned" \in st.g /\ ev.err = "C14") \/ ((own \cup (st.g \cap Soft)) \ doc # {} /\ ev.err \notin Customs) THEN {}
          ELSE {<<"C24", ev.op \o " failed with " \o ev.err \o " despite " \o ToString(doc)>>}

-----------------------------------------------------------------------------
(* Properties stated directly over what changed, whatever the instruction     *)

Mints(w) == {l \in DOMAIN w.a : IsMint(w.a[l])}
Pairs(w) == {q \in Mints(w) \X TokProgs : WMof(q[1], q[2]) \in DOMAIN w.a}

SupOf(w, l) == IF IsMint(A(w, l)) THEN A(w, l).sup ELSE Zero
AmtOf(w, l) == IF IsTok(A(w, l)) THEN A(w, l).amt ELSE Zero

\* C01: supply grows by no more than the escrow, the escrow shrinks by no more than supply
BackedStep(w, w1, q) ==
  LET WM == WMof(q[1], q[2])  E == ESCof(w, q[1], q[2])
  IN NLe(NAdd(SupOf(w1, WM), AmtOf(w, E)), NAdd(SupOf(w, WM), AmtOf(w1, E)))
\* the permanent delegate of a mint moves anybody's tokens: as the authority of a wrap it takes
\* them from wherever it likes, even from the escrow of another pair
DelegateTook(w, ev, l) ==
  ev.op = "wrap" /\ Len(ev.a) >= 9 /\ l = ev.a[6] /\ l # ev.a[8]
  /\ IsMint(A(w, ev.a[7])) /\ PermDel(A(w, ev.a[7])) = ev.a[9] /\ ev.a[9] # ""
  /\ Signed(w, ev, ev.a[9], Extras(ev, 9))
Unbacked(w, ev, w1) ==
  IF \A q \in Pairs(w) : BackedStep(w, w1, q) \/ DelegateTook(w, ev, ESCof(w, q[1], q[2])) THEN {} ELSE {<<"C01", ev.op \o " unbalanced supply and escrow">>}

\* the backing invariant itself, for worlds whose history leaves the escrow alone
Backed(w) == \A q \in Pairs(w) : NLe(SupOf(w, WMof(q[1], q[2])), AmtOf(w, ESCof(w, q[1], q[2])))

\* C04: whoever was debited had authorized it
Escrows(w) == {ESCof(w, q[1], q[2]) : q \in Pairs(w)}
Debit(w, w1, l) == NSub(AmtOf(w, l), AmtOf(w1, l))
Authorized(w, ev, l, n) ==
  LET x == A(w, l)  m == A(w, x.mint)  ex == Extras(ev, 9)
      by(who) == who # "" /\ (Signed(w, ev, who, ex) \/ who \in Signers(ev))
  IN \/ by(x.own) \/ Nobodys(x)
     \/ by(x.del) /\ NLe(n, x.damt)
     \/ IsMint(m) /\ by(PermDel(m))
\* the escrow only answers to an unwrap of its own pair
OwnEscrow(w, ev, l) == ev.op = "unwrap" /\ Len(ev.a) >= 9
  /\ ev.a[4] \in Mints(w) /\ l = ESCof(w, ev.a[4], A(w, ev.a[8]).p)
  /\ ev.a[8] = WMof(ev.a[4], A(w, ev.a[8]).p)
Unauthorized(w, ev, w1) ==
  LET dn == {l \in DOMAIN ev.d : IsTok(A(w, l)) /\ Debit(w, w1, l) # Zero}
  IN UNION {IF l \in Escrows(w)
            THEN IF OwnEscrow(w, ev, l) \/ DelegateTook(w, ev, l) THEN {} ELSE {<<"C04", ev.op \o " moved a foreign escrow">>}
            ELSE IF Authorized(w, ev, l, Debit(w, w1, l)) THEN {}
            ELSE {<<"C04", ev.op \o " debited " \o l \o " without authority">>} : l \in dn}

\* C09: what never changes about a wrapped mint, an escrow, a backpointer
Ext(x) == [f \in DOMAIN x.x \ {"md"} |-> x.x[f]]
SameMint(o, n) == IsMint(n) /\ n.p = o.p /\ n.auth = o.auth /\ n.frz = o.frz /\ n.dec = o.dec
                  /\ Ext(n) = Ext(o)
SameEscrow(o, n, closing) ==
  \/ closing /\ n.k = "sys"
  \/ IsTok(n) /\ n.p = o.p /\ n.mint = o.mint /\ n.own = o.own /\ n.clo = o.clo /\ n.del = o.del
Custody(w, ev, w1) ==
  LET WMs == {WMof(q[1], q[2]) : q \in Pairs(w)}
      ch == DOMAIN ev.d
  IN UNION {
       IF l \in WMs /\ IsMint(A(w, l)) /\ ~SameMint(A(w, l), A(w1, l))
         THEN {<<"C09", ev.op \o " changed the wrapped mint">>}
       ELSE IF l \in Escrows(w) /\ IsTok(A(w, l)) /\ ~SameEscrow(A(w, l), A(w1, l), ev.op = "close")
         THEN {<<"C09", ev.op \o " changed who controls an escrow">>}
       ELSE IF (\E m \in WMs : l = BPof(m)) /\ A(w, l).k = "ptr"
               /\ (A(w1, l).k # "ptr" \/ A(w1, l).to # A(w, l).to)
         THEN {<<"C09", ev.op \o " changed a backpointer">>}
       ELSE {} : l \in ch}

\* C19: executions of the hook
HookRuns(w, ev, w1) ==
  LET u == IF ev.op = "wrap" THEN 7 ELSE 4
      mv == ev.op \in {"wrap", "unwrap"} /\ Len(ev.a) >= 9
      self == mv /\ (IF ev.op = "wrap" THEN ev.a[6] = ev.a[8] ELSE ev.a[1] = ev.a[2])
      ran(m) == LET c == CTRof(m)
                IN A(w1, c).cnt = A(w, c).cnt + 1 /\ A(w1, c).last = ev.n
      bad == {m \in Mints(w) : HookOf(A(w, m)) = "HOOK" /\ A(w, CTRof(m)).k = "ctr"
                /\ (IF mv /\ ev.a[u] = m THEN ~self /\ ~ran(m)
                    ELSE A(w1, CTRof(m)).cnt # A(w, CTRof(m)).cnt)}
  IN IF bad = {} THEN {} ELSE {<<"C19", ev.op \o ": hook did not run exactly once">>}

\* C10/C05: nothing but CloseStuckEscrow removes accounts, and it removes one escrow
Removed(w, ev, w1) ==
  LET gone == {l \in DOMAIN ev.d : HasData(A(w, l)) /\ A(w1, l).k = "sys"}
      keep(l) == A(w, l).amt # Zero \/ (IsMint(A(w, A(w, l).mint)) /\ DOMAIN A(w, l).x = Required(A(w, A(w, l).mint)))
  IN IF gone = {} THEN {}
     ELSE IF ~(ev.op = "close" /\ gone = {ev.a[1]} /\ gone \subseteq Escrows(w))
     THEN {<<"C10", ev.op \o " removed an account">>, <<"C09", ev.op \o " removed an account">>}
     ELSE IF \E l \in gone : keep(l) THEN {<<"C10", "an escrow that is in use or in order was closed">>} ELSE {}

\* C15, C08: what the program's own records say, and who had them say it
Recorded(w, ev, w1) ==
  UNION {IF A(w1, l).k # "ptr" \/ A(w1, l).p # "TW" \/ (A(w, l).k = "ptr" /\ A(w, l).p = "TW" /\ A(w, l).to = A(w1, l).to) THEN {}
         ELSE IF ev.op = "canon" THEN
           IF /\ Len(ev.a) >= 3 /\ l = CPof(ev.a[3]) /\ A(w1, l).to = ev.to
              /\ IsMint(A(w, ev.a[3])) /\ ev.a[1] # "" /\ A(w, ev.a[3]).auth = ev.a[1] /\ ev.a[1] \in Signers(ev)
           THEN {} ELSE {<<"C15", "a canonical pointer was set without the mint's authority, elsewhere, or to another program">>}
         ELSE IF ev.op = "create" /\ (\E U \in Mints(w), P \in TokProgs : l = BPof(WMof(U, P)) /\ A(w1, l).to = U) THEN {}
         ELSE {<<"C08", ev.op \o " wrote a record that is no backpointer">>} : l \in DOMAIN ev.d}
Born(w, ev, w1) ==
  UNION {IF IsMint(A(w, l)) \/ ~IsMint(A(w1, l)) THEN {}
         ELSE IF /\ ev.op = "create" /\ ~HasData(A(w, l)) /\ ~HasData(A(w, BPof(l)))
                 /\ \E U \in Mints(w) : /\ l = WMof(U, A(w1, l).p) /\ A(w1, l).dec = A(w, U).dec
                                        /\ A(w1, BPof(l)).k = "ptr" /\ A(w1, BPof(l)).to = U
                 /\ A(w1, l).auth = AUof(l) /\ A(w1, l).sup = Zero
              THEN {} ELSE {<<"C08", ev.op \o " made a mint that is not a wrapped mint">>} : l \in DOMAIN ev.d}

\* C14: name, symbol, URI are those of the designated source
Foreign(w, ev, st, w1) ==
  IF ~ev.ok \/ st.g # {} THEN {}
  ELSE IF ev.op = "sync22" THEN
    LET e == st.d[ev.a[1]].x.md.src  x == A(w1, ev.a[1])
    IN IF IsMint(x) /\ Has(x, "md") /\ x.x.md.name = e.name /\ x.x.md.sym = e.sym /\ x.x.md.uri = e.uri
       THEN {} ELSE {<<"C14", "sync22 wrote metadata of another source">>}
  ELSE IF ev.op = "syncspl" THEN
    LET e == st.d[ev.a[1]]  x == A(w1, ev.a[1])
    IN IF x.k = "mpl" /\ x.name = e.name /\ x.sym = e.sym /\ x.uri = e.uri
       THEN {} ELSE {<<"C14", "syncspl wrote metadata of another source">>}
  ELSE {}

\* C26: an instruction changes the accounts it is for, in what it is for, and nothing else; no lamports appear or vanish.
\* (The accounts by position; a hook may change what is its own.)
Touch(op) == CASE op = "wrap" -> {1, 2, 6, 8} [] op = "unwrap" -> {1, 2, 7, 8} [] op \in {"create", "close", "syncspl"} -> {1, 2}
               [] op = "sync22" -> {1} [] op = "canon" -> {2} [] OTHER -> {}
RECURSIVE LamSum(_, _)
LamSum(w, S) == IF S = {} THEN Zero ELSE LET l == CHOOSE x \in S : TRUE IN NAdd(A(w, l).lam, LamSum(w, S \ {l}))
\* of a token account only what moving tokens changes, of a mint only its supply
KeepTok(o, n) == [n EXCEPT !.amt = o.amt, !.del = o.del, !.damt = o.damt, !.lam = o.lam,
                           !.x = IF "fa" \in DOMAIN o.x /\ "fa" \in DOMAIN @ THEN [@ EXCEPT !.fa = o.x.fa] ELSE @] = o
KeepMint(o, n) == [n EXCEPT !.sup = o.sup] = o
Frame(w, ev, w1) ==
  LET ch == DOMAIN ev.d
      for == {ev.a[i] : i \in Touch(ev.op) \cap DOMAIN ev.a}
      mv == ev.op \in {"wrap", "unwrap"}
      other == {l \in ch : l \notin for /\ ~(mv /\ A(w, l).p = "HOOK" /\ A(w1, l).p = "HOOK")}
      kept(o, n) == \/ IsTok(o) /\ IsTok(n) /\ KeepTok(o, n)
                    \/ IsMint(o) /\ IsMint(n) /\ KeepMint(o, n)
      bent == {l \in ch \cap for : IF mv THEN ~kept(A(w, l), A(w1, l))
                                  ELSE ev.op \notin {"close", "syncspl"} /\ A(w, l).lam # A(w1, l).lam}
  IN (IF other # {} THEN {<<"C26", ev.op \o " changed " \o (CHOOSE l \in other : TRUE)>>} ELSE {})
     \cup (IF bent # {} THEN {<<"C26", ev.op \o " changed more of " \o (CHOOSE l \in bent : TRUE) \o " than it may">>} ELSE {})
     \cup (IF LamSum(w, ch) # LamSum(w1, ch) THEN {<<"C26", ev.op \o " does not conserve lamports">>} ELSE {})

Direct(w, ev, w1) ==
  IF ~ev.ok THEN (IF DOMAIN ev.d = {} THEN {} ELSE {<<"C26", ev.op \o " failed and had an effect">>})
  ELSE Unbacked(w, ev, w1) \cup Unauthorized(w, ev, w1) \cup Custody(w, ev, w1)
       \cup HookRuns(w, ev, w1) \cup Removed(w, ev, w1)
       \cup Recorded(w, ev, w1) \cup Born(w, ev, w1) \cup Frame(w, ev, w1)

Bad1(w, ev, w1) ==
  LET st == Step(w, ev)
  IN Accepted(w, ev, st) \cup Refused(w, ev, st) \cup Wrong(w, ev, st) \cup WrongError(ev, st) \cup WrongCode(w, ev, st)
     \cup Foreign(w, ev, st, w1) \cup Direct(w, ev, w1)

\* C17: instruction data that means nothing has no effect
ZeroKey == [i \in 1..32 |-> 0]
Meaning(ev) ==
  LET d == Decode(ev.data)
  IN IF d.op # "canon" THEN d ELSE [op |-> "canon", to |-> IF d.to = ZeroKey THEN "SYS" ELSE "?"]
Garbage(ev) ==
  IF ev.ok \/ DOMAIN ev.d # {} THEN {<<"C17", "data that encodes nothing had an effect">>}
  ELSE IF ev.err # "InvalidInstructionData" THEN {<<"C17", "data that encodes nothing failed with " \o ev.err>>} ELSE {}

\* C16: what the crate's builders make of a request
BadMetas(ev) ==
  LET r == ev.req  a == r.a
      opt == (IF r.src = "" THEN <<>> ELSE <<r.src>>) \o (IF r.own = "" THEN <<>> ELSE <<r.own>>)
      full == CASE r.f = "create" -> <<a[1], a[2], a[3], "SYS", a[4]>>
                [] r.f \in {"wrap", "unwrap"} -> a
                [] r.f = "close" -> Append(a, "T22")
                [] r.f = "sync22" -> Append(a, "T22") \o opt
                [] r.f = "syncspl" -> a \o <<"MPL", "SYS", "RENT">> \o opt
                [] r.f = "canon" -> Append(a, "SYS")
  IN r.metas # Metas(r.f, full, r.ms)

Bad2(w, ev, w1) ==
  IF ev.op = "raw" THEN
    LET d == Meaning(ev)
    IN IF d = Invalid THEN Garbage(ev)
       ELSE LET b == Bad1(w, d @@ ev, w1) IN b \cup {<<"C17", x[2]>> : x \in {y \in b : y[1] # "C24"}}
  ELSE LET b == Bad1(w, ev, w1)
       IN IF "req" \notin DOMAIN ev THEN b
          ELSE b \cup {<<"C16", x[2]>> : x \in {y \in b : y[1] # "C24"}}
                 \cup (IF BadMetas(ev) THEN {<<"C16", ev.op \o " has other accounts or privileges than documented">>} ELSE {})

Bad(w, ev, w1) ==
  LET b == Bad2(w, ev, w1)
  IN IF w.cust = "std" THEN b ELSE b \cup {<<"C20", x[2]>> : x \in b}
=============================================================================
