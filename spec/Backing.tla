------------------------------ MODULE Backing ------------------------------
(* The flow of tokens through the program for all 64-bit amounts and fees:    *)
(* two unwrapped mints, a pair for each token program. Checked with Apalache: *)
(* Ind holds initially and is preserved by every step, and it implies Safe -  *)
(* after any number of steps, then. (TokenWrap.tla has the same transfers on  *)
(* worlds of accounts; Trace.tla checks that the code makes no others.)       *)
EXTENDS Integers

U == {"U", "V"}
P == {"US", "UT", "VS", "VT"}
\* @type: (Str) => Str;
Of(p) == IF p \in {"US", "UT"} THEN "U" ELSE "V"
Max == 18446744073709551615
\* @type: (Int) => Bool;
Amount(n) == 0 <= n /\ n <= Max

CONSTANT
  \* @type: Str;
  Flaw      \* "none"; anything else takes a rule away, which the check has to notice
Sound == Flaw = "none"
Gross == Flaw = "gross"    \* wraps mint what was sent, not what arrived
Itself == Flaw = "itself"  \* an escrow is wrapped into itself
Loose == Flaw = "loose"    \* unwraps release more than they burn

VARIABLES
  \* @type: Str -> Int;
  esc,     \* tokens in the escrow of a pair
  \* @type: Str -> Int;
  sup,     \* supply of its wrapped mint
  \* @type: Str -> Int;
  lent,    \* what the mint's permanent delegate took out of the escrow
  \* @type: Str -> Int;
  out,     \* unwrapped tokens of a mint anywhere else
  \* @type: Str -> Int;
  held     \* and fees withheld, by accounts that cannot use them

\* @type: (Int, Int, Int) => Int;
Fee(n, bps, most) == LET f == (n * bps + 9999) \div 10000 IN IF f < most THEN f ELSE most

\* @type: (Str) => Int;
Total(u) == out[u] + held[u] + (IF u = "U" THEN esc["US"] + esc["UT"] ELSE esc["VS"] + esc["VT"])

Init ==
  /\ esc = [p \in P |-> 0] /\ sup = [p \in P |-> 0] /\ lent = [p \in P |-> 0]
  /\ out \in [U -> Int] /\ held = [u \in U |-> 0] /\ \A u \in U : Amount(out[u])

\* the fee of a transfer stays in the account that receives it
Wrap(p, n, fee) ==
  /\ n > 0 /\ n <= out[Of(p)]
  /\ out' = [out EXCEPT ![Of(p)] = @ - n]
  /\ esc' = [esc EXCEPT ![p] = @ + (n - fee)]
  /\ held' = [held EXCEPT ![Of(p)] = @ + fee]
  /\ sup' = [sup EXCEPT ![p] = @ + (IF Flaw = "gross" THEN n ELSE n - fee)]
  /\ UNCHANGED lent
\* the permanent delegate wraps what is in another pair's escrow, never what is in this one's
Seize(p, q, n, fee) ==
  /\ (p # q \/ Flaw = "itself") /\ Of(p) = Of(q) /\ n > 0 /\ n <= esc[q]
  /\ esc' = [esc EXCEPT ![q] = @ - n, ![p] = @ + (n - fee)]
  /\ held' = [held EXCEPT ![Of(p)] = @ + fee]
  /\ sup' = [sup EXCEPT ![p] = @ + (n - fee)]
  /\ lent' = [lent EXCEPT ![q] = IF p = q THEN @ ELSE @ + n]
  /\ UNCHANGED out
Unwrap(p, n, fee) ==
  /\ n > 0 /\ n <= sup[p] /\ n <= esc[p]
  /\ sup' = [sup EXCEPT ![p] = @ - (IF Flaw = "loose" THEN n - fee ELSE n)]
  /\ esc' = [esc EXCEPT ![p] = @ - n]
  /\ out' = [out EXCEPT ![Of(p)] = @ + (n - fee)]
  /\ held' = [held EXCEPT ![Of(p)] = @ + fee]
  /\ UNCHANGED lent
\* the world around
Donate(p, n, fee) ==
  /\ n <= out[Of(p)]
  /\ out' = [out EXCEPT ![Of(p)] = @ - n] /\ esc' = [esc EXCEPT ![p] = @ + (n - fee)]
  /\ held' = [held EXCEPT ![Of(p)] = @ + fee]
  /\ UNCHANGED <<sup, lent>>
BurnWrapped(p, n) == n <= sup[p] /\ sup' = [sup EXCEPT ![p] = @ - n] /\ UNCHANGED <<esc, lent, out, held>>
Issue(u, n) == Total(u) + n <= Max /\ out' = [out EXCEPT ![u] = @ + n] /\ UNCHANGED <<esc, sup, lent, held>>
Burn(u, n) == n <= out[u] /\ out' = [out EXCEPT ![u] = @ - n] /\ UNCHANGED <<esc, sup, lent, held>>
Collect(u, n) == n <= held[u] /\ held' = [held EXCEPT ![u] = @ - n] /\ out' = [out EXCEPT ![u] = @ + n] /\ UNCHANGED <<esc, sup, lent>>
Claw(p, n) ==
  /\ n <= esc[p] /\ esc' = [esc EXCEPT ![p] = @ - n] /\ lent' = [lent EXCEPT ![p] = @ + n]
  /\ out' = [out EXCEPT ![Of(p)] = @ + n] /\ UNCHANGED <<sup, held>>
\* an escrow is closed when there is nothing in it, and comes back empty
Close(p) == esc[p] = 0 /\ UNCHANGED <<esc, sup, lent, out, held>>

Next ==
  \E n \in Int, bps \in Int, most \in Int, p \in P :
    /\ Amount(n) /\ Amount(most) /\ 0 <= bps /\ bps <= 10000
    /\ LET fee == Fee(n, bps, most) IN
          \/ Wrap(p, n, fee) \/ Unwrap(p, n, fee) \/ Donate(p, n, fee)
          \/ \E q \in P : Seize(p, q, n, fee)
          \/ BurnWrapped(p, n) \/ Issue(Of(p), n) \/ Burn(Of(p), n) \/ Collect(Of(p), n) \/ Claw(p, n) \/ Close(p)

Ind ==
  /\ esc \in [P -> Int] /\ sup \in [P -> Int] /\ lent \in [P -> Int] /\ out \in [U -> Int] /\ held \in [U -> Int]
  /\ \A u \in U : Amount(out[u]) /\ Amount(held[u]) /\ Total(u) <= Max
  /\ \A p \in P : Amount(esc[p]) /\ sup[p] >= 0 /\ lent[p] >= 0 /\ sup[p] <= esc[p] + lent[p]

\* no more claims than tokens, unless the mint's own delegate took them; all of them can be redeemed, one after the other
Safe ==
  /\ \A p \in P : lent[p] = 0 => sup[p] <= esc[p]
  /\ \A u \in U : (\A p \in P : lent[p] = 0) => (IF u = "U" THEN sup["US"] + sup["UT"] ELSE sup["VS"] + sup["VT"]) <= Total(u)
=============================================================================
