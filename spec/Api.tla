-------------------------------- MODULE Api --------------------------------
(* What the crate answered to the requests of ApiGen, line by line.           *)
EXTENDS Codec, Json, IOUtils, TLC, Sequences

Log == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP
VARIABLE i

\* the instruction a builder was asked for
Wanted(e) ==
  CASE e.f = "create" -> [op |-> "create", idem |-> e.idem]
    [] e.f \in {"wrap", "unwrap"} -> [op |-> e.f, n |-> e.n]
    [] e.f = "canon" -> [op |-> "canon", to |-> e.tob]
    [] OTHER -> [op |-> e.f]
Opt1(x) == IF x = "" THEN <<>> ELSE <<x>>
\* its accounts, in order
Given(e) ==
  LET a == e.a IN
  CASE e.f = "create" -> <<a[1], a[2], a[3], "SYS", a[4]>>
    [] e.f \in {"wrap", "unwrap"} -> a
    [] e.f = "close" -> Append(a, "T22")
    [] e.f = "sync22" -> Append(a, "T22") \o Opt1(e.src) \o Opt1(e.own)
    [] e.f = "syncspl" -> a \o <<"MPL", "SYS", "RENT">> \o Opt1(e.src) \o Opt1(e.own)
    [] e.f = "canon" -> Append(a, "SYS")

\* an optional account given without the one before it takes its place
MetasOf(e) ==
  LET g == Given(e) IN Metas(e.f, g, e.ms)

BadDec(e) ==
  LET d == Decode(e.b) IN
  IF e.panic THEN {<<"C17", "unpack panicked">>}
  ELSE IF d = Invalid THEN (IF e.ok THEN {<<"C17", "accepted data that encodes nothing">>}
                       ELSE IF e.err # "InvalidInstructionData" THEN {<<"C17", "rejected data with " \o e.err>>} ELSE {})
  ELSE IF ~e.ok THEN {<<"C17", "rejected valid data: " \o e.err>>}
  ELSE (IF e.ix # d THEN {<<"C17", "decoded to another instruction">>} ELSE {})
       \cup (IF e.re # e.b THEN {<<"C17", "encoding is not the inverse of decoding">>} ELSE {})

BadBuild(e) ==
  (IF e.prog # e.p THEN {<<"C16", e.f \o " addresses another program">>} ELSE {})
  \cup (IF e.metas # MetasOf(e) THEN {<<"C16", e.f \o " has other accounts or privileges than documented">>} ELSE {})
  \cup (IF Decode(e.data) # Wanted(e) THEN {<<"C16", e.f \o " has other data than asked for">>} ELSE {})

BadFn(e) ==
  IF e.r # Address(e.f, e.a, IF e.p = "" THEN "TW" ELSE e.p)
  THEN {<<"C18", e.f \o " is not the documented derivation">>} ELSE {}

Bad(e) == CASE e.t = "dec" -> BadDec(e) [] e.t = "build" -> BadBuild(e) [] e.t = "fn" -> BadFn(e)

Init == i = 0
Next == /\ i < Len(Log)
        /\ i' = i + 1
        /\ \A b \in Bad(Log[i + 1]) : b[1] = Prop => PrintT("@VIOL " \o ToString(i + 1) \o " " \o b[1] \o " " \o b[2])
Spec == Init /\ [][Next]_i
Post == TLCGet("distinct") = Len(Log) + 1 /\ PrintT("@DONE " \o ToString(Len(Log)))
=============================================================================
