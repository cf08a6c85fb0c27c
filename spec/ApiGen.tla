------------------------------- MODULE ApiGen -------------------------------
(* All requests to the client-side part of the crate within bounds: what is   *)
(* to be decoded, built and derived. IOEnv: OUT, KIND, N (keys), TAG.         *)
EXTENDS Codec, Json, IOUtils, SequencesExt, TLC

N == atoi(IOEnv.N)
TAG == IOEnv.TAG

-----------------------------------------------------------------------------
(* instruction data *)
Byte == 0..255
Short == {<<>>} \cup {<<a>> : a \in Byte} \cup {<<a, b>> : a \in Byte, b \in Byte}
Fill(k, f) == [i \in 1..k |-> CASE f = 0 -> 0 [] f = 1 -> 1 [] f = 2 -> 255 [] f = 3 -> i % 256
                                  [] OTHER -> (i * i * 37 + f * 101 + 13) % 256]
Long == {<<t>> \o Fill(k, f) : t \in 0..8 \cup {127, 128, 255}, k \in 2..N, f \in 0..6}
\* numbers around every byte boundary
Edge8 == LET z == Fill(8, 0) m == Fill(8, 2)
         IN {[z EXCEPT ![i] = v] : i \in 1..8, v \in {1, 127, 128, 255}}
            \cup {[m EXCEPT ![i] = v] : i \in 1..8, v \in {0, 127, 128, 254}}
Amounts == {<<t>> \o e : t \in {1, 2}, e \in Edge8}
Keys32 == {<<6>> \o [Fill(32, f) EXCEPT ![i] = v] : f \in 0..3, i \in 1..32, v \in {0, 200}}
\* valid data, cut short or followed by something
Frayed == UNION {{x \o <<0>>, x \o <<1>>, x \o x, SubSeq(x, 1, Len(x) - 1), Tail(x)} :
                    x \in Amounts \cup {<<0, 0>>, <<0, 1>>, <<3>>, <<4>>, <<5>>}}
Data == Short \cup Long \cup Amounts \cup Keys32 \cup Frayed
Dec == {[t |-> "dec", b |-> b] : b \in Data}

-----------------------------------------------------------------------------
(* builders *)
K(i) == TAG \o "k" \o ToString(i)
Big == {Zero, <<1>>, <<255>>, <<256>>, <<1615, 955, 737, 6744, 1844>>, <<5807, 5477, 3685, 3372, 922>>, <<9999, 9999, 1>>}
Prog == {"TW", K(90)}
Seq1(k, off) == [i \in 1..k |-> K(i + off)]
\* arguments in the order of the accounts; some of them equal, some the programs
Mixed(k) == {Seq1(k, 0), Seq1(k, 20), [i \in 1..k |-> K(1)], [i \in 1..k |-> IF i % 2 = 0 THEN "T22" ELSE "SPL"],
             [i \in 1..k |-> K((i * 3) % 7)], [i \in 1..k |-> IF i % 3 = 0 THEN "SYS" ELSE IF i % 3 = 1 THEN "WSOL" ELSE K(i)]}
Ms == {Seq1(k, 40) : k \in 0..11} \cup {<<K(40), K(40)>>, <<K(9)>>, <<K(9), K(1)>>}
Req(f, p, a, ms, x) == [t |-> "build", f |-> f, p |-> p, a |-> a, ms |-> ms] @@ x
Build ==
     {Req("create", p, a, <<>>, [idem |-> b]) : p \in Prog, a \in Mixed(4), b \in BOOLEAN}
\cup {Req(f, p, a, ms, [n |-> n]) : f \in {"wrap", "unwrap"}, p \in Prog, a \in Mixed(9), ms \in Ms, n \in Big}
\cup {Req("close", p, a, <<>>, <<>>) : p \in Prog, a \in Mixed(5)}
\cup {Req("sync22", p, a, <<>>, [src |-> s, own |-> o]) : p \in Prog, a \in Mixed(3), s \in {"", K(50), K(1)}, o \in {"", K(51), "EXT"}}
\cup {Req("syncspl", p, a, <<>>, [src |-> s, own |-> o]) : p \in Prog, a \in Mixed(4), s \in {"", K(50), K(1)}, o \in {"", K(51), "EXT"}}
\cup {Req("canon", p, a, <<>>, [to |-> x]) : p \in Prog, a \in Mixed(3), x \in {K(60), "TW", "SYS"}}

-----------------------------------------------------------------------------
(* addresses; prog = "" is the variant for the program itself *)
Progs == {"", "TW", TAG \o "f1", TAG \o "f2"}
TP == {"SPL", "T22", TAG \o "other"}
Fn(f, a, p) == [t |-> "fn", f |-> f, a |-> a, p |-> p]
\* term known to the harness by name, with the ones it must not be mistaken for
Of(p) == IF p = "" THEN "TW" ELSE p
DeriveFor(k) ==
     {Fn("wrapped_mint", <<k, t>>, p) : t \in TP, p \in Progs}
\cup {Fn(f, <<k>>, p) : f \in {"authority", "backpointer", "canonical"}, p \in Progs}
\cup {Fn("escrow", <<k, up, t>>, p) : up \in TP, t \in TP, p \in Progs}
\* derived addresses as arguments, as everybody uses them
\cup UNION {{Fn(f, <<dWM(k, t, Of(p))>>, q) : f \in {"authority", "backpointer", "canonical"}} : t \in {"SPL", "T22"}, p \in Progs, q \in Progs}
\* accounts everybody has, some of them mints: no derivation makes an exception for them
Known == {"WSOL", "WSOL22", "SYS", "SPL", "T22", "TW", "RENT", "MPL"}
Derive == UNION {DeriveFor(k) : k \in {K(i) : i \in 1..N} \cup Known}
With(r) == r @@ [exp |-> Address(r.f, r.a, Of(r.p))]

Requests == CASE IOEnv.KIND = "dec" -> Dec [] IOEnv.KIND = "build" -> Build
              [] IOEnv.KIND = "fn" -> {With(r) : r \in Derive}

\* the format itself: decoding and encoding are inverse, and different data mean different things
RoundTrip == \A b \in Data : Valid(b) => Encode(Decode(b)) = b
ASSUME IOEnv.KIND = "dec" => RoundTrip
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Requests))
ASSUME PrintT("@GEN " \o ToString(Cardinality(Requests)))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
