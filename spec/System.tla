------------------------------- MODULE System -------------------------------
(* The program and its users as one state machine, in small worlds chosen by  *)
(* IOEnv.SCEN. In every reachable state every instruction of Attempts is      *)
(* tried: Next takes those whose guards hold, Safe says what may come of      *)
(* them, and Emit writes state and instructions as a script, which is run     *)
(* against the implementation and judged by Trace.                            *)
(* IOEnv: SCEN, VAR (variant of the scenario), BIG (1: larger bounds), EMIT   *)
(* (k: write, of the attempts violating several guards, every k-th; 0: write  *)
(* nothing), THIN (the same for one guard), OFF (a guard to leave out).       *)
EXTENDS Worlds, Json

VARIABLE w

Scen == IOEnv.SCEN
Var  == Opt(IOEnv, "VAR", "")
Big  == Opt(IOEnv, "BIG", "") = "1"
Every == atoi(Opt(IOEnv, "EMIT", "0"))
Thin  == atoi(Opt(IOEnv, "THIN", "1"))

Users == {"alice", "mallory"}

-----------------------------------------------------------------------------
(* flow: one unwrapped mint, both its pairs, two users                        *)
Units == IF Big THEN 3 ELSE 2
FlowX == CASE Var = "pd" -> [pd |-> "mallory"]
           [] Var = "fee" -> [fee |-> [auth |-> "FEE", wauth |-> "FEE", wh |-> Zero, oe |-> 0, om |-> N(1), ob |-> 5000,
                                       ne |-> 1, nm |-> N(1), nb |-> 0]]
           [] Var = "fee2" -> [fee |-> [auth |-> "FEE", wauth |-> "FEE", wh |-> Zero, oe |-> 0, om |-> Zero, ob |-> 10000,
                                       ne |-> 1, nm |-> U64Max, nb |-> 10000]]
           [] Var = "hook" -> [hook |-> "HOOK"]
           [] OTHER -> <<>>
FlowP == IF Var \in {"spl", "nat", "comp", "noext"} THEN "SPL" ELSE "T22"
FlowCust == IF Var \in {"comp", "noext"} THEN Var ELSE "std"
FlowU == Mint(FlowP, "MA", "FA", N(Units), FlowX)
Nat_(x) == IF Var = "nat" THEN [x EXCEPT !.nat = TRUE, !.lam = NAdd(@, x.amt)] ELSE x
UA(o) == o \o ":U"
WA(o, P) == o \o ":" \o P
FlowStart ==
  {Wd(("U" :> FlowU)
     @@ (UA("alice") :> Nat_(Tok(FlowP, "U", "alice", N(Units), UserX(FlowU))))
     @@ (UA("mallory") :> Nat_(Tok(FlowP, "U", "mallory", Zero, UserX(FlowU))))
     @@ (IF Var = "hook" THEN (HVof("U") :> Hval("U", <<>>)) @@ (CTRof("U") :> Ctr(0)) ELSE <<>>)
     @@ [l \in {WA(o, P) : o \in Users, P \in TokProgs} |->
           LET q == CHOOSE q \in Users \X TokProgs : l = WA(q[1], q[2]) IN WTok("U", q[2], FlowCust, q[1], Zero)]
     @@ [l \in DOMAIN Deployed("U", FlowU, "SPL", FlowCust, Zero, Zero) |->
           LET x == Deployed("U", FlowU, "SPL", FlowCust, Zero, Zero)[l] IN IF IsTok(x) THEN Nat_(x) ELSE x]
     @@ [l \in DOMAIN Deployed("U", FlowU, "T22", FlowCust, Zero, Zero) |->
           LET x == Deployed("U", FlowU, "T22", FlowCust, Zero, Zero)[l] IN IF IsTok(x) THEN Nat_(x) ELSE x],
     FlowCust, "")}

HookX == IF Var = "hook" THEN <<"HOOK", HVof("U"), CTRof("U")>> ELSE <<>>
Esc(P) == EscAddr("U", FlowU, P)
Sg(b, x) == IF b THEN <<x>> ELSE <<>>
Hooked(ev) == [ev EXCEPT !.wr = IF Var = "hook" THEN <<CTRof("U")>> ELSE <<>>]
FlowAttempts(v) ==
     {Hooked(WrapEv("U", FlowP, P, src, WA(r, P), ta, Sg(b, ta), HookX, N(n))) :
        P \in TokProgs, src \in {UA(o) : o \in Users} \cup {Esc("SPL"), Esc("T22")}, r \in Users,
        ta \in Users, b \in BOOLEAN, n \in 0..(Units + 1)}
\cup {Hooked(UnwrapEv("U", FlowP, P, WA(h, P), rcp, ta, Sg(b, ta), HookX, N(n))) :
        P \in TokProgs, h \in Users, rcp \in {UA(o) : o \in Users} \cup {Esc("SPL"), Esc("T22")},
        ta \in Users, b \in BOOLEAN, n \in 0..(Units + 1)}

\* ordinary use of the token programs
Move(v, P, src, mint, dst, auth, n) ==
  LET ev == Hooked([Ev("x", <<>>, <<auth>>) EXCEPT !.a = HookX])
      ex == IF mint = "U" THEN Range(HookX) ELSE {}
  IN IF TransferG(v, ev, P, src, mint, dst, auth, n, FALSE, ex) = {}
     THEN {Apply(v, TransferD(v, src, mint, dst, auth, n))} ELSE {}
Give(v, l, x) == {[v EXCEPT !.a[l] = x]}
FlowEnv(v) ==
  IF Var = "pd" THEN UNION {Move(v, FlowP, Esc(P), "U", UA(o), "mallory", N(1)) : o \in Users, P \in TokProgs}
                     \cup {[v EXCEPT !.a["U"].x.pd = "alice"]} ELSE
  UNION {Move(v, P, WA(o, P), WMof("U", P), WA(r, P), o, N(1)) : P \in TokProgs, o \in Users, r \in Users}
  \cup UNION {Move(v, FlowP, UA(o), "U", d, o, N(1)) : o \in Users, d \in {UA("mallory"), Esc("T22")}}
  \cup UNION {IF AmtOf(v, WA(o, P)) = Zero THEN {}
              ELSE {Apply(v, BurnD(v, WA(o, P), WMof("U", P), o, N(1)))} : o \in {"mallory"}, P \in {"SPL"}}
  \cup (IF Var = "fee" \/ Var = "fee2" THEN (IF v.epoch < 1 THEN {[v EXCEPT !.epoch = @ + 1]} ELSE {})
        ELSE IF Var = "comp" THEN
          {[v EXCEPT !.a[WMof("U", "T22")].x.paus.on = ~@]}
          \cup {[v EXCEPT !.a[WA("alice", P)].st = IF @ = "init" THEN "frozen" ELSE "init"] : P \in {"T22"}}
          \cup Move(v, "T22", WA("alice", "T22"), WMof("U", "T22"), WA("mallory", "T22"), "COMP-PD", N(1))
        ELSE {[v EXCEPT !.a[UA("alice")].del = "mallory", !.a[UA("alice")].damt = N(1)]}
             \cup {[v EXCEPT !.a[WA("alice", "T22")].del = "mallory", !.a[WA("alice", "T22")].damt = N(2)]})

\* whoever holds wrapped tokens can redeem them, now
Redeemable(v, o, P) ==
  LET b == AmtOf(v, WA(o, P)) IN
  b # Zero => LET st == Step(v, Hooked(UnwrapEv("U", FlowP, P, WA(o, P), UA(o), o, <<o>>, HookX, b)))
              IN st.g = {} /\ ~st.may
FlowGoal(v) ==
  /\ Var # "pd" => Backed(v)
  /\ Var \notin {"pd", "comp"} => \A o \in Users, P \in TokProgs : Redeemable(v, o, P)
FlowBound(v) ==
  /\ Var = "pd" => NLe(NAdd(v.a[WMof("U", "SPL")].sup, v.a[WMof("U", "T22")].sup), N(IF Big THEN Units + 1 ELSE Units))
  /\ Var = "hook" => v.a[CTRof("U")].cnt < (IF Big THEN 5 ELSE 3)

-----------------------------------------------------------------------------
(* auth: every way to sign, for one account                                   *)
AP == IF Var = "spl" THEN "SPL" ELSE "T22"
AuthU(pd) == Mint(AP, "MA", "FA", N(9), IF pd = "" THEN <<>> ELSE [pd |-> pd])
AuthWorld(own, del, damt, pd, cg, st) ==
  LET u == AuthU(pd)
      x == IF cg = "" THEN UserX(u) ELSE [cg |-> cg = "on"] @@ UserX(u)
      give(t) == [t EXCEPT !.del = del, !.damt = damt, !.st = st]
  IN Wd(("U" :> u)
       @@ ("src" :> give(Tok(AP, "U", own, N(3), x))) @@ ("dst" :> Tok(AP, "U", "carol", Zero, UserX(u)))
       @@ ("hld" :> give(WTok("U", AP, "std", own, N(3)))) @@ ("rcp" :> WTok("U", AP, "std", "carol", Zero))
       @@ ("M" :> Msig(AP, 2, <<"s1", "s2", "s3">>)) @@ ("D" :> Msig(AP, 2, <<"s1", "s1", "s2">>))
       @@ ("F" :> Msig(IF AP = "SPL" THEN "T22" ELSE "SPL", 1, <<"s1">>))
       @@ Deployed("U", u, AP, "std", N(3), N(3)), "std", "")
AuthAU == AUof(WMof("U", AP))
AuthStart ==
     {AuthWorld(own, del, d, pd, "", "init") : own \in {"alice", "M", "D"}, del \in {"", "bob", "M"}, d \in {N(1), N(2)},
        pd \in IF AP = "SPL" THEN {""} ELSE {"", "bob", "M"}}
\cup {AuthWorld(q[1], q[2], N(2), "", "", "init") : q \in {<<AuthAU, "">>, <<AuthAU, "bob">>, <<"alice", AuthAU>>, <<"M", AuthAU>>}}
\cup {AuthWorld(own, del, N(2), "", cg, st) : own \in {"alice", "M"}, del \in {"", "bob"},
        cg \in IF AP = "SPL" THEN {""} ELSE {"", "on", "off"}, st \in {"init", "frozen"}}
AuthExtras == {<<>>, <<"s1">>, <<"s1", "s2">>, <<"s3", "s1">>, <<"s1", "s1">>, <<"s1", "s2", "s3">>, <<"s2", "bob">>, <<"alice", "s2", "s3">>}
AuthSigs == {<<>>, <<"alice">>, <<"bob">>, <<"M">>, <<"D">>, <<"s1">>, <<"s1", "s2">>, <<"s1", "s3">>, <<"s1", "s2", "s3">>, <<"M", "s1">>, <<"bob", "s2">>}
AuthAttempts(v) ==
  {WrapEv("U", AP, AP, "src", "rcp", ta, sg, ex, N(n)) : ta \in {"alice", "bob", "M", "D", AuthAU}, sg \in AuthSigs, ex \in AuthExtras, n \in {1, 2}}
\cup {UnwrapEv("U", AP, AP, "hld", "dst", ta, sg, ex, N(n)) : ta \in {"alice", "bob", "M", "D", AuthAU}, sg \in AuthSigs, ex \in AuthExtras, n \in {1, 2}}

-----------------------------------------------------------------------------
(* hook: every selection and order of the accounts a hook wants               *)
HookPool == {"HOOK", HVof("U"), CTRof("U"), "x1"} \cup (IF Big THEN {"x2"} ELSE {})
RECURSIVE Orders(_)
Orders(S) == {<<>>} \cup UNION {{<<y>> \o o : o \in Orders(S \ {y})} : y \in S}
HookU == Mint("T22", "MA", "FA", N(9), [hook |-> "HOOK"])
HookStart ==
  {Wd(("U" :> HookU) @@ (HVof("U") :> Hval("U", xs)) @@ (CTRof("U") :> Ctr(c))
     @@ ("src" :> Tok("T22", "U", own, N(3), UserX(HookU))) @@ ("dst" :> Tok("T22", "U", "carol", Zero, UserX(HookU)))
     @@ ("hld" :> WTok("U", P, "std", own, N(3))) @@ ("rcp" :> WTok("U", P, "std", "carol", Zero))
     @@ ("M" :> Msig("T22", 1, <<"s1", "s2">>))
     @@ Deployed("U", HookU, P, "std", N(3), N(3)), "std", "") :
   P \in TokProgs, xs \in {<<>>, <<"x1">>} \cup (IF Big THEN {<<"x2", "x1">>} ELSE {}), c \in {0, 7}, own \in {"alice", "M"}}
HookAttempts(v) ==
  LET own == v.a["src"].own  P == v.a["hld"].p
      sg == IF own = "M" THEN <<"s2">> ELSE <<own>>
      withM(o) == IF own = "M" THEN {<<"s2">> \o o, o \o <<"s2">>} ELSE {o}
      xs == UNION {withM(o) : o \in Orders(HookPool)}
      wr == {<<CTRof("U")>>, <<>>}
  IN {[WrapEv("U", "T22", P, "src", "rcp", own, sg, x, N(2)) EXCEPT !.wr = y] : x \in xs, y \in wr}
     \cup {[UnwrapEv("U", "T22", P, "hld", "dst", own, sg, x, N(1)) EXCEPT !.wr = y] : x \in xs, y \in wr}

-----------------------------------------------------------------------------
(* stuck: the unwrapped mint is closed and made again with other extensions   *)
StuckKinds == IF Big THEN {"fee", "nt", "hook", "paus"} ELSE {"fee", "hook", "nt"}
StuckX(S) == [clo |-> "CLO"]
  @@ [e \in S |-> CASE e = "fee" -> [auth |-> "FEE", wauth |-> "FEE", wh |-> Zero, oe |-> 0, om |-> N(1), ob |-> 10000,
                                     ne |-> 0, nm |-> N(1), nb |-> 10000]
                    [] e = "hook" -> ""
                    [] e = "paus" -> [auth |-> "PAUS", on |-> FALSE]
                    [] OTHER -> TRUE]
StuckU(S) == Mint("T22", "MA", "FA", N(2), StuckX(S))
StuckUser(S) == Tok("T22", "U", "alice", N(2), UserX(StuckU(S)))
StuckP == IF Var = "spl" THEN "SPL" ELSE "T22"
StuckStart == {Wd(("U" :> StuckU(S)) @@ ("alice:U" :> StuckUser(S)) @@ ("alice:W" :> WTok("U", StuckP, "std", "alice", Zero))
                 @@ Deployed("U", StuckU(S), StuckP, "std", Zero, Zero), "std", "stuck") : S \in SUBSET StuckKinds}
SE == ATA(AUof(WMof("U", StuckP)), "U", "T22")
StuckEsc(v) == A(v, SE)
StuckMove(v, rd) ==
  {WrapEv("U", "T22", StuckP, "alice:U", "alice:W", "alice", <<"alice">>, <<>>, N(n)) : n \in {1, 2}}
  \cup {UnwrapEv("U", "T22", StuckP, "alice:W", "alice:U", "alice", <<"alice">>, <<>>, N(n)) : n \in {1, 2}}
StuckAttempts(v) ==
  StuckMove(v, TRUE)
  \cup {CloseEv("U", "T22", StuckP, d) : d \in {"bob", "newacct", SE, AUof(WMof("U", StuckP))}}
  \cup Locked(CloseEv("U", "T22", StuckP, "bob"))
  \cup {CreateEv("U", StuckP, b) : b \in BOOLEAN}
  \cup {[CloseEv("U", "T22", P, "bob") EXCEPT !.a[1] = e, !.a[6] = f] : P \in TokProgs, e \in {SE, "alice:U", "alice:W"}, f \in {"T22", "SPL"}}
StuckEnv(v) ==
  LET e == StuckEsc(v)  u == A(v, "U") IN
  \* the mint is closed and re-created (its supply being burned first)
  (IF IsTok(e) /\ e.amt = Zero /\ (Has(e, "fa") => e.x.fa = Zero)
      /\ (IF IsTok(A(v, "alice:W")) THEN v.a["alice:W"].amt = Zero ELSE TRUE)
   THEN {[v EXCEPT !.a = ("U" :> StuckU(S)) @@ ("alice:U" :> StuckUser(S)) @@ @] : S \in SUBSET StuckKinds} ELSE {})
  \* anybody creates the escrow (again)
  \cup (IF e.k = "sys" /\ IsMint(u) THEN {[v EXCEPT !.a = (SE :> Escrow("U", u, StuckP, Zero)) @@ @]} ELSE {})
  \* withheld fees go to the mint, and are withdrawn from there
  \cup (IF IsTok(e) /\ Has(e, "fa") /\ e.x.fa # Zero THEN {[v EXCEPT !.a[SE].x.fa = Zero]} ELSE {})
  \cup (IF IsTok(e) THEN {[v EXCEPT !.a[SE].st = IF @ = "init" THEN "frozen" ELSE "init"]} ELSE {})
\* an empty escrow that no longer fits can be closed, by anyone, at once; then it is made again and works
StuckGoal(v) ==
  LET e == StuckEsc(v)  u == A(v, "U") IN
  /\ Backed(v)
  /\ (/\ IsTok(e) /\ e.amt = Zero /\ e.st = "init" /\ (Has(e, "fa") => e.x.fa = Zero)
      /\ DOMAIN e.x # Required(u))
     => LET st == Step(v, CloseEv("U", "T22", StuckP, "bob"))
            v1 == Apply(v, st.d)
            v2 == [v1 EXCEPT !.a = (SE :> Escrow("U", u, StuckP, Zero)) @@ @]
            wr == Step(v2, WrapEv("U", "T22", StuckP, "alice:U", "alice:W", "alice", <<"alice">>, <<>>, N(2)))
        IN /\ st.g = {} /\ ~st.may /\ A(v1, SE) = NoAcct
           /\ (Has(u, "nt") \/ v.a["alice:U"].amt # N(2) \/ (wr.g = {} /\ ~wr.may))
  \* and one that fits cannot
  /\ IsTok(e) /\ DOMAIN e.x = Required(u) => Step(v, CloseEv("U", "T22", StuckP, "bob")).g # {}

-----------------------------------------------------------------------------
(* create: what may lie at the addresses of a pair and be offered as a mint   *)
CU == [spl  |-> Mint("SPL", "MA", "FA", N(5), <<>>),
       t22  |-> [Mint("T22", "", "", N(5), [clo |-> "CLO"]) EXCEPT !.dec = 0],
       none |-> NoAcct,
       tok  |-> Tok("SPL", "V", "alice", N(1), <<>>),
       tok22 |-> Tok("T22", "V", "alice", N(1), [io |-> TRUE]),
       msig |-> Msig("SPL", 1, <<"alice">>),
       evil |-> Raw("EVIL", 82),
       rawspl |-> Raw("SPL", 82),
       rawt22 |-> Raw("T22", 82)]
CLam(len) == {Zero, N(1), NSub(RentMin(len), N(1)), RentMin(len), NAdd(RentMin(len), N(1))}
CPr == IF Big THEN {"SPL", "T22"} ELSE {IF Var = "std" THEN "T22" ELSE "T22"}
CCust == IF Var \in {"comp", "noext"} THEN Var ELSE "std"
CWm(u, P) == {Wallet(l) : l \in CLam(WmLen(CCust, P))}
             \cup {WMint("U", CU.spl, P, CCust, N(3)), Raw("EVIL", 82), Raw(IF P = "SPL" THEN "T22" ELSE "SPL", 82), Raw("TW", 40),
                   Tok(P, "U", "alice", Zero, <<>>)}
CBp == {Wallet(l) : l \in CLam(32)} \cup {Ptr("U"), Ptr("V"), Raw("EVIL", 32), Raw("T22", 32)}
CreateStart ==
  {Wd(("U" :> CU[k]) @@ (WMof("U", P) :> wm) @@ (BPof(WMof("U", P)) :> bp) @@ ("rich" :> Wallet(N(9000000))), CCust, P) :
     k \in DOMAIN CU, P \in TokProgs, bp \in CBp, wm \in CWm("U", "SPL") \cup CWm("U", "T22")}
CreateSome == {v \in CreateStart : v.tag = "T22" \/ Big \/ v.a["U"].k = "mint"}
CreateAttempts(v) ==
  LET e == {CreateEv("U", v.tag, b) : b \in BOOLEAN} IN
  e \cup {CreateEv("U", P, FALSE) : P \in {"SPL", "T22", "EVIL", "ATAP"}}
  \cup (IF IsMint(v.a["U"]) THEN UNION {Locked(x) \cup Cuts(x) \cup Swaps(x) \cup {[x EXCEPT !.a[j] = "rich"] : j \in 1..3} : x \in e} ELSE {})

-----------------------------------------------------------------------------
(* canon: the canonical pointer                                               *)
KU(auth) == [Mint(IF Var = "spl" THEN "SPL" ELSE "T22", auth, "FA", N(5), <<>>) EXCEPT !.dec = 2]
KPtr == {Wallet(l) : l \in CLam(32)} \cup {Ptr("TW")}   \* nobody else can own such an address
CanonStart == {Wd(("U" :> m) @@ ("V" :> KU("mallory")) @@ (CPof("U") :> c) @@ ("M" :> Msig(m.p, 1, <<"MA", "bob">>)) , "std", "") :
                 m \in {KU("MA"), KU("mallory"), KU(""), KU("M"), KU("SYS")} \cup {[KU("MA") EXCEPT !.p = "EVIL", !.k = "raw", !.x = <<>>]}, c \in KPtr}
CanonMints(v) == IF IsMint(v.a["U"]) THEN v ELSE [v EXCEPT !.a["U"] = Raw("EVIL", 82)]
CanonAttempts(v) ==
  {CanonEv("U", auth, sg, to) : auth \in {"MA", "mallory", "M", "SYS", "FA"}, sg \in {<<>>, <<"MA">>, <<"mallory">>, <<"M">>, <<"MA", "mallory">>}, to \in {"TW", "EVIL", "SYS"}}
  \cup UNION {LET e == CanonEv("U", au, <<au>>, "EVIL")
              IN Replace(e, {"V", CPof("V"), BPof("U"), "alice", "M", "SYS", "U", CPof("U")}) \cup Locked(e) \cup Cuts(e) \cup Swaps(e) : au \in {"MA", "mallory"}}
CanonEnv(v) ==
  IF ~IsMint(v.a["U"]) THEN {} ELSE
  IF v.a["U"].auth = "" THEN {} ELSE {[v EXCEPT !.a["U"].auth = y] : y \in {"MA", "mallory", ""}}
CanonGoal(v) ==
  \A au \in {"MA", "mallory"} :
    LET st == Step(v, CanonEv("U", au, <<au>>, "EVIL")) IN
    (IsMint(v.a["U"]) /\ v.a["U"].auth = au /\ v.a[CPof("U")].k \in {"sys", "ptr"}
      /\ NLe(RentMin(32), v.a[CPof("U")].lam)) => st.g = {} /\ ~st.may /\ Apply(v, st.d).a[CPof("U")].to = "EVIL"

-----------------------------------------------------------------------------
(* metadata: sources, what was synced before, substituted accounts            *)
MdRec(mint, name, sym, uri, kv) ==
  [ua |-> "alice", mint |-> mint, name |-> name, sym |-> sym, uri |-> uri,
   nl |-> Len(name), sl |-> Len(sym), ul |-> Len(uri),
   kv |-> [j \in 1..Len(kv) |-> [k |-> kv[j][1], v |-> kv[j][2],
            j |-> IF kv[j][1] = "seller_fee_basis_points" THEN (IF kv[j][2] = "500" THEN [t |-> "num", c |-> 500] ELSE [t |-> "bad"])
                  ELSE [t |-> "str"]]]]
MplRec(mint, name, sym, uri, cr, coll) ==
  [k |-> "mpl", p |-> "MPL", lam |-> N(20000000), ua |-> "alice", mint |-> mint, name |-> name, sym |-> sym, uri |-> uri,
   nl |-> Len(name), sl |-> Len(sym), ul |-> Len(uri), tl |-> [n |-> Len(name), s |-> Len(sym), u |-> Len(uri)],
   sf |-> 250, cr |-> cr, prim |-> FALSE, mut |-> TRUE, nonce |-> -1, std |-> "", coll |-> coll, uses |-> NoUses,
   cd |-> [some |-> FALSE, size |-> Zero], pc |-> [some |-> FALSE, rs |-> ""], len |-> 0]
Cr(l) == [some |-> TRUE, l |-> l]
One(a, v, s) == [a |-> a, v |-> v, s |-> s]
Coll(b) == [some |-> TRUE, v |-> b, key |-> "COLL"]

MpX(addr) == [mp |-> [auth |-> "MP", addr |-> addr]]
MdMint(p, x) == [Mint(p, "MA", "", N(1), <<>>) EXCEPT !.x = x, !.lam = N(50000000), !.len = 0]
ExtAcct(p, mode, md) == [k |-> "ext", p |-> p, lam |-> N(20000000), mode |-> mode, md |-> md]

KvSets == {<<>>, <<<<"a", "1">>>>, <<<<"a", "2">>, <<"b", "1">>>>, <<<<"b", "1">>, <<"a", "1">>>>}
          \cup {<<<<"seller_fee_basis_points", "500">>>>, <<<<"seller_fee_basis_points", "x">>>>}
OwnMds == {MdRec("U", n, "S", "u", kv) : n \in {"", "Coin"}, kv \in KvSets}
Mpls(m) == {MplRec(m, n, "", "uri", cr, co) : n \in {"X", "LongerName"},
              cr \in {NoCr, Cr(<<>>), Cr(<<One("alice", TRUE, 100)>>), Cr(<<One("alice", FALSE, 40), One("bob", TRUE, 60)>>)},
              co \in {NoColl, Coll(TRUE)}}
\* the unwrapped mint and what it points to
Sources ==
     {("U" :> MdMint("T22", [md |-> md] @@ MpX("U"))) : md \in OwnMds}
\cup {("U" :> MdMint("T22", MpX("U")))}
\cup {("U" :> MdMint("T22", MpX(""))), ("U" :> MdMint("T22", [md |-> CHOOSE md \in OwnMds : md.name = "Coin"] @@ MpX("")))}
\cup {("U" :> u) @@ (MPLof("U") :> r) : u \in {MdMint("SPL", <<>>), MdMint("T22", <<>>), MdMint("T22", MpX(MPLof("U")))}, r \in Mpls("U")}
\cup {("U" :> MdMint("T22", MpX("ext"))) @@ ("ext" :> ExtAcct(p, mode, md)) :
        p \in {"EXT", "EXT2"}, mode \in 0..3, md \in {x \in OwnMds : Len(x.kv) < 2 /\ x.name # ""}}
\cup {("U" :> MdMint("T22", MpX("V"))), ("U" :> MdMint("T22", MpX("V22")))}
Around ==
  LET v == MdMint("SPL", <<>>)
      md == MdRec("V22", "Evil", "E", "e", <<>>)
      v22 == MdMint("T22", [md |-> md] @@ MpX("V22"))
  IN ("V" :> v) @@ (MPLof("V") :> MplRec("V", "Evil", "E", "e", NoCr, NoColl)) @@ ("V22" :> v22)
     @@ ("evilext" :> ExtAcct("EXT2", 0, md)) @@ ("fake" :> Raw("EVIL", 700))
\* these make every second field of a wrapped mint's metadata
Wrapped22 == WMint("U", MdMint("SPL", <<>>), "T22", "std", Zero)
Before22 == {Wrapped22} \cup
  {[Wrapped22 EXCEPT !.x = [md |-> [MdRec(WMof("U", "T22"), n, "S", "u", kv) EXCEPT !.ua = AUof(WMof("U", "T22"))]] @@ @] :
     n \in {"", "Old", "coin", "Coin "}, kv \in {<<>>, <<<<"a", "1">>, <<"c", "9">>>>, <<<<"c", "1">>, <<"b", "0">>, <<"a", "7">>>>}}
Fund(x) == [x EXCEPT !.lam = N(50000000)]
Meta22Start == {Wd(s @@ Around @@ (WMof("U", "T22") :> Fund(b)) @@ (BPof(WMof("U", "T22")) :> Ptr("U")), "std", "") : s \in Sources, b \in Before22}

SrcFor(v) ==
  LET u == v.a["U"] IN
  IF u.p = "SPL" \/ ~Has(u, "mp") THEN <<MPLof("U")>>
  ELSE IF u.x.mp.addr \in {"", "U"} THEN <<>>
  ELSE IF u.x.mp.addr = "ext" THEN <<"ext", v.a["ext"].p>>
  ELSE <<u.x.mp.addr>>
SrcPool == {MPLof("U"), MPLof("V"), "V", "V22", "ext", "evilext", "fake", "U", "EXT", "EXT2", "MPL"}
SrcWrong(v) == {<<>>} \cup {<<y>> : y \in SrcPool} \cup {<<y, z>> : y \in {"ext", "evilext", MPLof("V"), "V22"}, z \in {"EXT", "EXT2", "EVIL", "MPL", "T22"}}
MdPlain(v) == v.a[WMof("U", "T22")] = Fund(Wrapped22)
Meta22Attempts(v) ==
  {Sync22Ev("U", SrcFor(v))}
  \cup (IF ~MdPlain(v) THEN {} ELSE
        {Sync22Ev("U", s) : s \in SrcWrong(v)}
        \cup Cuts(Sync22Ev("U", SrcFor(v))) \cup Locked(Sync22Ev("U", SrcFor(v)))
        \cup Replace(Sync22Ev("U", SrcFor(v)), {"V", "V22", AUof(WMof("U", "SPL")), "SPL", "alice"}))

WrappedSpl == Fund(WMint("U", MdMint("SPL", <<>>), "SPL", "std", Zero))
WR == MPLof(WMof("U", "SPL"))
BeforeSpl == {<<>>} \cup
  {WR :> ([MplRec(WMof("U", "SPL"), n, "O", "o", cr, co) EXCEPT !.ua = AUof(WMof("U", "SPL")), !.std = st, !.sf = 1, !.prim = pr] @@ [pad |-> 607]) :
     n \in {"Old"}, cr \in {NoCr, Cr(<<One("bob", FALSE, 100)>>)}, co \in {NoColl, [Coll(FALSE) EXCEPT !.key = "COLL2"]},
     st \in {"", "Fungible"}, pr \in BOOLEAN}
MetaSplStart == {Wd(s @@ Around @@ (WMof("U", "SPL") :> WrappedSpl) @@ (BPof(WMof("U", "SPL")) :> Ptr("U"))
                   @@ (AUof(WMof("U", "SPL")) :> Wallet(N(30000000))) @@ b, "std", "") : s \in Sources, b \in BeforeSpl}
MetaSplAttempts(v) ==
  {SyncSplEv("U", SrcFor(v))}
  \cup (IF WR \in DOMAIN v.a THEN {} ELSE
        {SyncSplEv("U", s) : s \in SrcWrong(v)}
        \cup Cuts(SyncSplEv("U", SrcFor(v))) \cup Locked(SyncSplEv("U", SrcFor(v)))
        \cup Replace(SyncSplEv("U", SrcFor(v)), {"V", "V22", AUof(WMof("U", "T22")), MPLof("U"), MPLof("V"), "alice"}))
\* a sync that succeeds leaves nothing to do for a second one
MetaGoal(v) == TRUE

-----------------------------------------------------------------------------
(* subst: instructions that work, with one (BIG: two) of their accounts       *)
(* replaced by any other account there is                                     *)
SU(p) == Mint(p, "MA", "FA", N(20), IF p = "T22" THEN [clo |-> "CLO"] ELSE <<>>)
SubstWorld ==
  LET u == SU("T22")  v == SU("SPL")  us == UserX(u)
      pair(U, m, P) == Deployed(U, m, P, "std", N(4), N(4))
      old(t) == [t EXCEPT !.x = [io |-> TRUE, pa |-> TRUE], !.lam = RentMin(AcctLen([io |-> TRUE, pa |-> TRUE])), !.len = AcctLen([io |-> TRUE, pa |-> TRUE])]
  IN Wd(("U" :> u) @@ ("V" :> v) @@ ("X" :> SU("T22"))
       @@ ("alice:U" :> Tok("T22", "U", "alice", N(4), us)) @@ ("mallory:U" :> Tok("T22", "U", "mallory", N(4), us))
       @@ ("alice:V" :> Tok("SPL", "V", "alice", N(4), <<>>)) @@ ("mallory:V" :> Tok("SPL", "V", "mallory", N(4), <<>>))
       @@ ("alice:US" :> WTok("U", "SPL", "std", "alice", N(4))) @@ ("mallory:US" :> WTok("U", "SPL", "std", "mallory", Zero))
       @@ ("alice:UT" :> WTok("U", "T22", "std", "alice", N(4))) @@ ("mallory:UT" :> WTok("U", "T22", "std", "mallory", Zero))
       @@ ("alice:VT" :> WTok("V", "T22", "std", "alice", N(4)))
       @@ pair("U", u, "SPL") @@ pair("U", u, "T22") @@ pair("V", v, "T22")
       \* an escrow somebody else made, with the right owner, elsewhere
       @@ ("esc2" :> Tok("T22", "U", AUof(WMof("U", "SPL")), N(4), us))
       @@ ("esc3" :> Tok("SPL", "V", AUof(WMof("V", "T22")), N(4), <<>>))
       \* a mint with the right authority, elsewhere
       @@ ("wm2" :> WMint("U", u, "SPL", "std", N(4))) @@ ("wm3" :> WMint("U", u, "T22", "std", N(4)))
       @@ ("h:wm2" :> Tok("SPL", "wm2", "alice", N(4), <<>>))
       \* a pair whose escrow is outdated
       @@ Deployed("X", SU("T22"), "SPL", "std", Zero, Zero)
       @@ (EscAddr("X", SU("T22"), "SPL") :> old(Tok("T22", "X", AUof(WMof("X", "SPL")), Zero, <<>>)))
       @@ ("esc4" :> old(Tok("T22", "X", AUof(WMof("X", "SPL")), Zero, <<>>)))
       @@ (EscAddr("X", SU("T22"), "T22") :> old(Tok("T22", "X", AUof(WMof("X", "T22")), Zero, <<>>)))
       @@ Around @@ (MPLof("U") :> MplRec("U", "Good", "G", "g", NoCr, NoColl))
       @@ (WMof("V22", "SPL") :> WMint("V22", SU("T22"), "SPL", "std", Zero))
       @@ (AUof(WMof("U", "SPL")) :> Wallet(N(30000000))) @@ (AUof(WMof("U", "T22")) :> Wallet(N(30000000)))
       @@ (WMof("X", "T22") :> Wallet(N(30000000))) @@ (BPof(WMof("X", "T22")) :> Wallet(N(30000000)))
       @@ (CPof("U") :> Wallet(N(30000000))) @@ (CPof("V") :> Wallet(N(30000000))), "std", "")
SubstBase ==
  {WrapEv("U", "T22", "SPL", "alice:U", "alice:US", "alice", <<"alice">>, <<>>, N(2)),
   WrapEv("U", "T22", "T22", "alice:U", "mallory:UT", "alice", <<"alice">>, <<>>, N(2)),
   WrapEv("V", "SPL", "T22", "alice:V", "alice:VT", "alice", <<"alice">>, <<>>, N(2)),
   UnwrapEv("U", "T22", "SPL", "alice:US", "alice:U", "alice", <<"alice">>, <<>>, N(2)),
   UnwrapEv("U", "T22", "T22", "alice:UT", "mallory:U", "alice", <<"alice">>, <<>>, N(2)),
   UnwrapEv("V", "SPL", "T22", "alice:VT", "alice:V", "alice", <<"alice">>, <<>>, N(2)),
   CloseEv("X", "T22", "SPL", "bob"), CreateEv("X", "T22", FALSE), CreateEv("U", "T22", TRUE),
   Sync22Ev("U", <<MPLof("U")>>), SyncSplEv("U", <<MPLof("U")>>), CanonEv("U", "MA", <<"MA">>, "EVIL")}
SubstPool(v) == DOMAIN v.a \cup {"SPL", "T22", "SYS", "EVIL", "ATAP", "TW", "nowhere", "alice", "mallory",
                  BPof(WMof("U", "SPL")), CPof("X"), ATA("alice", "U", "T22"), MPLof(WMof("U", "SPL")), WMof("X", "T22"), WMof("V", "SPL")}
SubstOf(v, e) == Replace(e, SubstPool(v)) \cup Locked(e) \cup Cuts(e) \cup Swaps(e) \cup Unsigned(e)
                 \cup (IF e.op \in {"wrap", "unwrap"} THEN Posing(e, 9, SubstPool(v)) ELSE {})
                 \cup (IF e.op = "canon" THEN Posing(e, 1, SubstPool(v)) ELSE {})
Share == atoi(Opt(IOEnv, "SHARE", "0"))   \* BIG: which of the instructions
SubstAttempts(v) ==
  LET q == SetToSeq(SubstBase) IN
  IF ~Big THEN UNION {SubstOf(v, q[j]) : j \in {y \in 1..Len(q) : y % 4 = Share}}
  ELSE LET e == q[Share + 1] IN UNION {Replace(f, SubstPool(v)) : f \in Replace(e, SubstPool(v))}

-----------------------------------------------------------------------------
Start == CASE Scen = "flow" -> FlowStart [] Scen = "auth" -> AuthStart [] Scen = "hook" -> HookStart
           [] Scen = "stuck" -> StuckStart [] Scen = "create" -> CreateSome
           [] Scen = "canon" -> {CanonMints(v) : v \in CanonStart}
           [] Scen = "meta22" -> Meta22Start [] Scen = "metaspl" -> MetaSplStart [] Scen = "subst" -> {SubstWorld}
Attempts(v) == CASE Scen = "flow" -> FlowAttempts(v) [] Scen = "auth" -> AuthAttempts(v) [] Scen = "hook" -> HookAttempts(v)
           [] Scen = "stuck" -> StuckAttempts(v) [] Scen = "create" -> CreateAttempts(v) [] Scen = "canon" -> CanonAttempts(v)
           [] Scen = "meta22" -> Meta22Attempts(v) [] Scen = "metaspl" -> MetaSplAttempts(v) [] Scen = "subst" -> SubstAttempts(v)
Environment(v) == CASE Scen = "flow" -> FlowEnv(v) [] Scen = "stuck" -> StuckEnv(v) [] Scen = "canon" -> CanonEnv(v) [] OTHER -> {}
Goal(v) == CASE Scen = "flow" -> FlowGoal(v) [] Scen = "stuck" -> StuckGoal(v) [] Scen = "canon" -> CanonGoal(v) [] OTHER -> TRUE
\* scenarios in which what an instruction leaves behind is explored further
Dynamic == Scen \in {"flow", "stuck", "canon"}

(* the script for the implementation: all attempts that should succeed, every THIN-th that violates one *)
(* guard, every EMIT-th of the others                                                                  *)
Emit(v, q, st) ==
  IF Every = 0 THEN TRUE ELSE
  LET off == TLCGet(1)
      s == SelectSeq([j \in 1..Len(q) |-> [e |-> q[j], in |-> LET k == Cardinality(st[j].g)
                                                          IN (off + j) % (IF k = 0 THEN 1 ELSE IF k = 1 THEN Thin ELSE Every) = 0]],
                     LAMBDA r : r.in)
  IN /\ TLCSet(1, off + Len(q))
     /\ PrintT("@SYS " \o ToJson([w |-> v, s |-> [j \in 1..Len(s) |-> s[j].e]]))
ASSUME TLCSet(1, atoi(Opt(IOEnv, "SEED", "0")))

(* nothing that the guards let through does what the properties forbid *)
Outcome(ev, st) == ev @@ [ok |-> TRUE, err |-> "", d |-> st.d]
Harm(v, ev, st) ==
  IF ~Clear(st.g) \/ ev.op \in {"sync22", "syncspl"} THEN {} ELSE Direct(v, Outcome(ev, st), Apply(v, st.d))
Safe(v, ev, st) == LET h == Harm(v, ev, st) IN Assert(h = {}, <<"@HARM", h, ev, st>>)

\* where the lamports of closed escrows go does not matter for what follows
Norm(v) == IF Scen # "stuck" THEN v ELSE [v EXCEPT !.a = [l \in {y \in DOMAIN @ : HasData(@[y])} |-> @[l]]]

Init == w \in Start
Next ==
  \E q \in {SetToSeq(Attempts(w))} : \E st \in {[j \in 1..Len(q) |-> TLCEval(Step(w, q[j]))]} :
     /\ Emit(w, q, st)
     /\ \A j \in 1..Len(q) : Safe(w, q[j], st[j])
     /\ TLCSet(2, TLCGet(2) + Len(q))
     /\ \/ Dynamic /\ \E j \in 1..Len(q) : Clear(st[j].g) /\ st[j].d # <<>> /\ w' = Norm(Apply(w, st[j].d))
        \/ \E v \in Environment(w) : w' = v
        \/ w' = w
Spec == Init /\ [][Next]_w
Bound == Scen = "flow" => FlowBound(w)
Good == Goal(w)
ASSUME TLCSet(2, 0)
Post == PrintT("@TRIED " \o ToString(TLCGet(2)))
=============================================================================
