------------------------------- MODULE GenLib -------------------------------
(* What the generators of requests to the clients share: choices by a hash of *)
(* request number and SEED, accounts on chain.                                 *)
EXTENDS CliModel, Json, IOUtils, SequencesExt

N == atoi(IOEnv.N)
SEED == atoi(IOEnv.SEED)
Prop == IOEnv.PROP

-----------------------------------------------------------------------------
Mix(a, b) == (((a * 30011) % 65521) + ((b * 28411) % 65521) + 17) % 65521
Rnd(i, j) == LET a == Mix(Mix(SEED % 65521, i % 65521), j)
                 b == Mix((a * 31 + j) % 65521, (a \div 7) + (i % 1009))
             IN Mix((b * 17) % 65521, (b \div 256) + (j * 251)) \div 3
Pick(s, i, j) == s[(Rnd(i, j) % Len(s)) + 1]
Chance(i, j, pct) == Rnd(i, j) % 100 < pct

-----------------------------------------------------------------------------
Nm(x, i) == x \o ToString(i)
Kp(x, i) == "k:" \o x \o ToString(i)
File(l) == [k |-> "file", l |-> l]
Pub(l) == [k |-> "pub", l |-> l]
None == [k |-> "", l |-> ""]

Mint(l, own, ptr, x) == [l |-> l, own |-> own, lam |-> 5000000, k |-> "mint", m |-> "", ptr |-> ptr, x |-> x]
Tok(l, own, m, x) == [l |-> l, own |-> own, lam |-> 2039280, k |-> "tok", m |-> m, ptr |-> "none", x |-> x]
Lam(l, n) == [l |-> l, own |-> "SYS", lam |-> n, k |-> "none", m |-> "", ptr |-> "none", x |-> FALSE]
Junk(l) == [l |-> l, own |-> "other", lam |-> 1500000, k |-> "junk", m |-> "", ptr |-> "none", x |-> FALSE]

\* the names that may come up
Derived(us, payer) ==
  UNION {LET wm == dWM(u, p, "TW") au == dAU(wm, "TW")
         IN {wm, au, dBP(wm, "TW"), dATA(au, u, "SPL"), dATA(au, u, "T22"), dATA(payer, wm, p)} : u \in us, p \in Tokens}
Meta(u) == {MPX(u), MPX(dWM(u, "SPL", "TW")), MPX(dWM(u, "T22", "TW"))}

Big == <<Zero, <<1>>, <<255>>, <<256>>, <<1000>>, <<6789, 2345, 1>>, U64Max, <<1616, 955, 737, 6744, 1844>>, <<5808, 5477, 3685, 3372, 922>>>>
BigOk == SelectSeq(Big, LAMBDA n : NLe(n, U64Max))

\* the unwrapped mint, as found on chain
MintAt(l, i) ==
  LET own == Pick(<<"SPL", "T22">>, i, 10) IN
  CASE Rnd(i, 11) % 20 = 0 -> <<>>
    [] Rnd(i, 11) % 20 = 1 -> <<Junk(l)>>
    [] Rnd(i, 11) % 20 = 2 -> <<Tok(l, own, Nm("x", i), FALSE)>>
    [] Rnd(i, 11) % 20 = 3 -> <<Lam(l, 1000000)>>
    [] Rnd(i, 11) % 20 = 4 -> <<Mint(l, "other", "none", FALSE)>>
    [] OTHER -> <<Mint(l, own, IF own = "SPL" THEN "none" ELSE Pick(<<"none", "unset", l, Nm("src", i), MPX(l)>>, i, 12), own = "T22" /\ Chance(i, 13, 50))>>

\* an address that may have been funded, up to around its rent
Funded(l, size, i, j) ==
  LET n == Pick(<<0, 0, 1, RentOf(size) - 1, RentOf(size), RentOf(size) + 1, RentOf(size) \div 2, 2 * RentOf(size), RentOf(32), RentOf(82), RentOf(303)>>, i, j)
  IN IF n = 0 THEN <<>> ELSE <<Lam(l, n)>>
=============================================================================
