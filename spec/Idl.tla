-------------------------------- MODULE Idl --------------------------------
(* The published IDL, and the crate's table of errors, against the format.    *)
(* IOEnv.LOG: the IDL with uniform types (run/api.py), then the errors.       *)
EXTENDS Codec, Json, IOUtils, TLC, Sequences

Log == ndJsonDeserialize(IOEnv.LOG)
Prop == IOEnv.PROP
VARIABLE i

OpOf(n) == CASE n = "createMint" -> "create" [] n = "wrap" -> "wrap" [] n = "unwrap" -> "unwrap"
             [] n = "closeStuckEscrow" -> "close" [] n = "syncMetadataToToken2022" -> "sync22"
             [] n = "syncMetadataToSplToken" -> "syncspl" [] n = "setCanonicalPointer" -> "canon" [] OTHER -> ""
Required == {"createMint", "wrap", "unwrap", "closeStuckEscrow", "syncMetadataToToken2022", "syncMetadataToSplToken"}

\* data put together as the IDL says, with argument value v for each type
Val(t, v) == CASE t = "bool" -> <<v % 2>> [] t = "u64" -> Bytes(NatN(v), 8)
               [] t = "key" -> [k \in 1..32 |-> (k * v) % 256] [] OTHER -> <<>>
RECURSIVE Args(_, _)
Args(a, v) == IF a = <<>> THEN <<>> ELSE Val(Head(a).ty, v) \o Args(Tail(a), v)
Data(x, v) == <<x.disc>> \o Args(x.args, v)
Want(op, v) == CASE op = "create" -> [op |-> op, idem |-> v % 2 = 1]
                 [] op \in {"wrap", "unwrap"} -> [op |-> op, n |-> NatN(v)]
                 [] op = "canon" -> [op |-> op, to |-> [k \in 1..32 |-> (k * v) % 256]]
                 [] OTHER -> [op |-> op]

BadAccount(op, j, x) ==
  LET d == Doc(op)[j] IN
  \/ x.n # d.n \/ x.s # d.s \/ x.w # d.w
  \/ (x.opt /\ j <= Fixed(op) /\ x.def = "")              \* nothing to fill in for it
  \/ (x.def # "" /\ Default(d.n) # "" /\ x.def # Default(d.n))
  \/ (x.def # "" /\ Default(d.n) = "" /\ x.def # "identity")
BadIx(x) ==
  LET op == OpOf(x.name) IN
  IF op = "" THEN {}
  ELSE (IF Len(x.accts) \notin Fixed(op)..Len(Doc(op)) THEN {<<"C16", "IDL: number of accounts of " \o x.name>>}
        ELSE IF \E j \in 1..Len(x.accts) : BadAccount(op, j, x.accts[j])
        THEN {<<"C16", "IDL: accounts of " \o x.name>>} ELSE {})
       \cup (IF \E v \in {0, 1, 7, 300, 70001} : Decode(Data(x, v)) # Want(op, v)
             THEN {<<"C16", "IDL: data of " \o x.name>>} ELSE {})
       \cup (IF op \in {"wrap", "unwrap"} /\ x.rem # "signers" THEN {<<"C16", "IDL: multisignature members of " \o x.name>>} ELSE {})
       \cup (IF op \notin {"wrap", "unwrap"} /\ x.rem # "" THEN {<<"C16", "IDL: remaining accounts of " \o x.name>>} ELSE {})

Seeds(n) == CASE n = "wrappedMint" -> <<"#mint", "unwrappedMint", "wrappedTokenProgram">>
              [] n = "wrappedMintAuthority" -> <<"#authority", "wrappedMint">>
              [] n = "backpointer" -> <<"#backpointer", "wrappedMint">>
              [] n = "canonicalPointer" -> <<"#canonical_pointer", "unwrappedMint">>
              [] n = "canonicalDeploymentPointer" -> <<"#canonical_pointer", "unwrappedMint">>
              [] OTHER -> <<>>
BadPda(x) == IF Seeds(x.name) # <<>> /\ x.seeds # Seeds(x.name) THEN {<<"C18", "IDL: derivation of " \o x.name>>} ELSE {}

BadProgram(x) ==
  (IF x.key # "TW" THEN {<<"C16", "IDL: program address">>} ELSE {})
  \cup (IF ~(Required \subseteq {x.names[j] : j \in 1..Len(x.names)}) THEN {<<"C16", "IDL: instructions missing">>} ELSE {})

Errors == <<"WrappedMintMismatch", "BackpointerMismatch", "ZeroWrapAmount", "MintAuthorityMismatch", "EscrowOwnerMismatch",
            "InvalidWrappedMintOwner", "InvalidBackpointerOwner", "EscrowMismatch", "EscrowInGoodState",
            "UnwrappedMintHasNoMetadata", "MetaplexMetadataMismatch", "MetadataPointerMissing", "MetadataPointerUnset",
            "MetadataPointerMismatch", "ExternalProgramReturnedNoData", "NoSyncingToToken2022">>
Texts == <<"Wrapped mint account address does not match expected PDA",
           "Wrapped backpointer account address does not match expected PDA",
           "Wrap amount should be positive",
           "Wrapped mint authority does not match expected PDA",
           "Unwrapped escrow token owner is not set to expected PDA",
           "Wrapped mint account owner is not the expected token program",
           "Wrapped backpointer account owner is not the expected token wrap program",
           "Escrow account address does not match expected ATA",
           "The escrow account is in a good state and cannot be recreated",
           "Unwrapped mint does not have the TokenMetadata extension",
           "Metaplex metadata account address does not match expected PDA",
           "Metadata pointer extension missing on mint",
           "Metadata pointer is unset (None)",
           "Provided source metadata account does not match pointer",
           "External metadata program returned no data",
           "Instruction can only be used with spl-token wrapped mints">>
\* codes of later additions are not looked at
BadError(x) ==
  IF x.code >= Len(Errors) THEN {}
  ELSE LET n == Errors[x.code + 1] IN
       IF x.name # n \/ x.back # x.code \/ x.log # "Error: " \o n \/ x.text # Texts[x.code + 1]
       THEN {<<"C16", x.where \o ": error " \o ToString(x.code)>>, <<"C24", x.where \o ": error " \o ToString(x.code)>>} ELSE {}

Bad(e) == CASE e.t = "ix" -> BadIx(e) [] e.t = "pda" -> BadPda(e) [] e.t = "program" -> BadProgram(e)
            [] e.t = "err" -> BadError(e)
Init == i = 0
Next == /\ i < Len(Log)
        /\ i' = i + 1
        /\ \A b \in Bad(Log[i + 1]) : b[1] = Prop => PrintT("@VIOL " \o ToString(i + 1) \o " " \o b[1] \o " " \o b[2])
Spec == Init /\ [][Next]_i
Post == TLCGet("distinct") = Len(Log) + 1 /\ PrintT("@DONE " \o ToString(Len(Log)))
=============================================================================
