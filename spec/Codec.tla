------------------------------- MODULE Codec -------------------------------
(* The wire format: instruction data, the accounts of each instruction with   *)
(* their privileges, and the program-derived addresses.                       *)
EXTENDS Num, Integers, FiniteSets

-----------------------------------------------------------------------------
(* instruction data: a tag byte, then the argument, then nothing *)

RECURSIVE LE(_)
LE(b) == IF b = <<>> THEN Zero ELSE NAdd(NMul(LE(Tail(b)), 256), NatN(Head(b)))

Invalid == [op |-> "invalid"]
Decode(b) ==
  CASE Len(b) = 2 /\ b[1] = 0 /\ b[2] \in {0, 1} -> [op |-> "create", idem |-> b[2] = 1]
    [] Len(b) = 9 /\ b[1] = 1 -> [op |-> "wrap", n |-> Strip(LE(Tail(b)))]
    [] Len(b) = 9 /\ b[1] = 2 -> [op |-> "unwrap", n |-> Strip(LE(Tail(b)))]
    [] b = <<3>> -> [op |-> "close"]
    [] b = <<4>> -> [op |-> "sync22"]
    [] b = <<5>> -> [op |-> "syncspl"]
    [] Len(b) = 33 /\ b[1] = 6 -> [op |-> "canon", to |-> Tail(b)]
    [] OTHER -> Invalid
Valid(b) == Decode(b) # Invalid

\* n as eight bytes
RECURSIVE Bytes(_, _)
NDiv256(n) == \* <<quotient, remainder>>, digit by digit from the top
  LET RECURSIVE D(_, _, _)
      D(i, r, q) == IF i = 0 THEN <<Strip(q), r>>
                    ELSE LET t == r * B + n[i] IN D(i - 1, t % 256, <<t \div 256>> \o q)
  IN D(Len(n), 0, <<>>)
Bytes(n, k) == IF k = 0 THEN <<>>
               ELSE LET d == NDiv256(n) IN <<d[2]>> \o Bytes(d[1], k - 1)
Encode(ix) ==
  CASE ix.op = "create" -> <<0, IF ix.idem THEN 1 ELSE 0>>
    [] ix.op = "wrap" -> <<1>> \o Bytes(ix.n, 8)
    [] ix.op = "unwrap" -> <<2>> \o Bytes(ix.n, 8)
    [] ix.op = "close" -> <<3>>
    [] ix.op = "sync22" -> <<4>>
    [] ix.op = "syncspl" -> <<5>>
    [] ix.op = "canon" -> <<6>> \o ix.to

-----------------------------------------------------------------------------
(* accounts: name, signer, writable. "either": a multisignature authority     *)
(* does not sign itself                                                        *)

Acc(n, s, w) == [n |-> n, s |-> s, w |-> w]
R(n) == Acc(n, "false", FALSE)
W(n) == Acc(n, "false", TRUE)

Doc(op) ==
  CASE op = "create" -> <<W("wrappedMint"), W("backpointer"), R("unwrappedMint"), R("systemProgram"), R("wrappedTokenProgram")>>
    [] op = "wrap" -> <<W("recipientWrappedTokenAccount"), W("wrappedMint"), R("wrappedMintAuthority"),
                        R("unwrappedTokenProgram"), R("wrappedTokenProgram"), W("unwrappedTokenAccount"),
                        R("unwrappedMint"), W("unwrappedEscrow"), Acc("transferAuthority", "either", FALSE)>>
    [] op = "unwrap" -> <<W("unwrappedEscrow"), W("recipientUnwrappedToken"), R("wrappedMintAuthority"), R("unwrappedMint"),
                          R("wrappedTokenProgram"), R("unwrappedTokenProgram"), W("wrappedTokenAccount"),
                          W("wrappedMint"), Acc("transferAuthority", "either", FALSE)>>
    [] op = "close" -> <<W("escrow"), W("destination"), R("unwrappedMint"), R("wrappedMint"), R("wrappedMintAuthority"),
                         R("token2022Program")>>
    [] op = "sync22" -> <<W("wrappedMint"), R("wrappedMintAuthority"), R("unwrappedMint"), R("token2022Program"),
                          R("sourceMetadata"), R("ownerProgram")>>
    [] op = "syncspl" -> <<W("metaplexMetadata"), W("wrappedMintAuthority"), R("wrappedMint"), R("unwrappedMint"),
                           R("metaplexProgram"), R("systemProgram"), R("rentSysvar"), R("sourceMetadata"), R("ownerProgram")>>
    [] op = "canon" -> <<Acc("unwrappedMintAuthority", "true", FALSE), W("canonicalPointer"), R("unwrappedMint"),
                         R("systemProgram")>>
\* the accounts every request must have; the rest is optional
Fixed(op) == CASE op = "sync22" -> 4 [] op = "syncspl" -> 7 [] OTHER -> Len(Doc(op))
\* programs a client fills in by itself
Default(n) == CASE n = "systemProgram" -> "SYS" [] n = "token2022Program" -> "T22"
                [] n = "metaplexProgram" -> "MPL" [] n = "rentSysvar" -> "RENT" [] OTHER -> ""

\* a: the accounts, in order, multisignature members ms
Metas(op, a, ms) ==
  [i \in 1..(Len(a) + Len(ms)) |->
     IF i > Len(a) THEN [l |-> ms[i - Len(a)], s |-> TRUE, w |-> FALSE]
     ELSE LET d == Doc(op)[i]
          IN [l |-> a[i], s |-> d.s = "true" \/ (d.s = "either" /\ ms = <<>>), w |-> d.w]]

-----------------------------------------------------------------------------
(* addresses: seeds under a program. "#x" is the text x, anything else a key  *)

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN Head(s) ELSE Head(s) \o "," \o Join(Tail(s))
PDA(prog, seeds) == "pda(" \o prog \o "," \o Join(seeds) \o ")"

dWM(u, p, prog) == PDA(prog, <<"#mint", u, p>>)
dAU(m, prog) == PDA(prog, <<"#authority", m>>)
dBP(m, prog) == PDA(prog, <<"#backpointer", m>>)
dCP(u, prog) == PDA(prog, <<"#canonical_pointer", u>>)
dATA(o, m, p) == PDA("ATAP", <<o, p, m>>)
dESC(u, up, p, prog) == dATA(dAU(dWM(u, p, prog), prog), u, up)

Address(f, a, prog) ==
  CASE f = "wrapped_mint" -> dWM(a[1], a[2], prog)
    [] f = "authority" -> dAU(a[1], prog)
    [] f = "backpointer" -> dBP(a[1], prog)
    [] f = "canonical" -> dCP(a[1], prog)
    [] f = "escrow" -> dESC(a[1], a[2], a[3], prog)

(* The seeds of an address are hashed one after the other without separators: *)
(* what keeps the kinds apart is that no two of them have the same length     *)
(* (authority and escrow of a program differ in program or length).           *)
SeedLength == [mint |-> 4 + 64, authority |-> 9 + 32, backpointer |-> 11 + 32, canonical_pointer |-> 17 + 32]
ASSUME \A x, y \in DOMAIN SeedLength : x # y => SeedLength[x] # SeedLength[y]
=============================================================================
