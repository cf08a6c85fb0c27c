// what clients use of @solana-program/system, token and token-2022
const k = require('./kit.cjs');
const { getAccountMetaFactory } = require('./core.cjs');

const SYSTEM_PROGRAM_ADDRESS = '11111111111111111111111111111111';
const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
const TOKEN_2022_PROGRAM_ADDRESS = 'TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb';
const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const RENT = 'SysvarRent111111111111111111111111111111111';

const ix = (programAddress, metas, ...data) => {
    const meta = getAccountMetaFactory(programAddress, 'programId');
    return Object.freeze({ accounts: metas.map(([value, isWritable]) => meta('', { value, isWritable })), data: new Uint8Array(data.flatMap(d => [...d])), programAddress });
};
const u8 = v => k.getU8Encoder().encode(v), u32 = v => k.getU32Encoder().encode(v), u64 = v => k.getU64Encoder().encode(v);
const at = (c, d) => c?.programAddress ?? d;

const getTransferSolInstruction = (i, c) => ix(at(c, SYSTEM_PROGRAM_ADDRESS), [[i.source, true], [i.destination, true]], u32(2), u64(i.amount));
const getCreateAccountInstruction = (i, c) => ix(at(c, SYSTEM_PROGRAM_ADDRESS), [[i.payer, true], [i.newAccount, true]],
    u32(0), u64(i.lamports), u64(i.space), k.getAddressEncoder().encode(i.programAddress));
const initialize = d => (i, c) => ix(at(c, d), [[i.account, true], [i.mint, false], [i.owner, false], [i.rent ?? RENT, false]], u8(1));
const initialize3 = d => (i, c) => ix(at(c, d), [[i.account, true], [i.mint, false]], u8(18), k.getAddressEncoder().encode(i.owner));

const findAssociatedTokenPda = (s, c = {}) => k.getProgramDerivedAddress({
    programAddress: c.programAddress ?? ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
    seeds: [s.owner, s.tokenProgram, s.mint].map(x => k.getAddressEncoder().encode(x)),
});
const create = (d, tp) => (i, c) => ix(at(c, ASSOCIATED_TOKEN_PROGRAM_ADDRESS),
    [[i.payer, true], [i.ata, true], [i.owner, false], [i.mint, false], [i.systemProgram ?? SYSTEM_PROGRAM_ADDRESS, false], [i.tokenProgram ?? tp, false]], u8(d));
const createAsync = f => async (i, c) => f({ ...i, ata: i.ata ?? (await findAssociatedTokenPda({ owner: i.owner, mint: i.mint, tokenProgram: i.tokenProgram ?? TOKEN_2022_PROGRAM_ADDRESS }))[0] }, c);

const getTokenSize = () => 165;
const option = d => k.createDecoder({ read: (b, o) => { const [t, p] = k.getU32Decoder().read(b, o); const [v, q] = d.read(b, p); return [t ? k.some(v) : k.none(), q]; } });
const getTokenDecoder = () => k.transformDecoder(k.getStructDecoder([
    ['mint', k.getAddressDecoder()], ['owner', k.getAddressDecoder()], ['amount', k.getU64Decoder()], ['delegate', option(k.getAddressDecoder())],
    ['state', k.getU8Decoder()], ['isNative', option(k.getU64Decoder())], ['delegatedAmount', k.getU64Decoder()], ['closeAuthority', option(k.getAddressDecoder())],
]), v => v);
const decodeToken = a => k.decodeAccount(a, getTokenDecoder());
const fetchMaybeToken = async (rpc, a, c) => decodeToken(await k.fetchEncodedAccount(rpc, a, c));
const fetchToken = async (rpc, a, c) => { const t = await fetchMaybeToken(rpc, a, c); k.assertAccountExists(t); return t; };

const extension = (kind, data) => ({ __kind: kind, ...data });
const SIZES = { MintCloseAuthority: 32, TransferFeeConfig: 108, ConfidentialTransferMint: 65, DefaultAccountState: 1, NonTransferable: 0, InterestBearingConfig: 52,
    PermanentDelegate: 32, TransferHook: 64, ConfidentialTransferFee: 129, MetadataPointer: 64, GroupPointer: 64, GroupMemberPointer: 64, PausableConfig: 33, ScaledUiAmountConfig: 56 };
const getMintSize = x => (x == null ? 82 : 166 + x.reduce((n, e) => {
    if (SIZES[e.__kind] === undefined) throw new Error('unknown extension ' + e.__kind);
    return n + 4 + SIZES[e.__kind];
}, 0));

const common = { findAssociatedTokenPda, ASSOCIATED_TOKEN_PROGRAM_ADDRESS, getTokenSize, getTokenDecoder, decodeToken, fetchMaybeToken, fetchToken,
    getMintSize, extension, TOKEN_PROGRAM_ADDRESS, TOKEN_2022_PROGRAM_ADDRESS };
const of = p => ({
    getInitializeAccountInstruction: initialize(p), getInitializeAccount3Instruction: initialize3(p),
    getCreateAssociatedTokenInstruction: create(0, p), getCreateAssociatedTokenIdempotentInstruction: create(1, p),
    getCreateAssociatedTokenInstructionAsync: createAsync(create(0, p)), getCreateAssociatedTokenIdempotentInstructionAsync: createAsync(create(1, p)),
});
module.exports = { system: { SYSTEM_PROGRAM_ADDRESS, getTransferSolInstruction, getCreateAccountInstruction },
    token: { ...common, ...of(TOKEN_PROGRAM_ADDRESS) }, token22: { ...common, ...of(TOKEN_2022_PROGRAM_ADDRESS) } };
