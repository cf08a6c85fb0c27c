// The part of @solana/kit that clients use, written from its documentation: the package is not installed here.
const crypto = require('node:crypto');

class SolanaError extends Error {
    constructor(code, context = {}) {
        super(`Solana error ${String(code)}`);
        this.name = 'SolanaError';
        this.context = { __code: code, ...context };
    }
}
const isSolanaError = (e, code) => e instanceof SolanaError && (code === undefined || e.context.__code === code);
const fail = (code, ctx) => {
    throw new SolanaError(code, ctx);
};

// codecs
const total = (enc, v) => (enc.fixedSize !== undefined ? enc.fixedSize : enc.getSizeFromValue(v));
const createEncoder = e => Object.freeze({
    ...e,
    encode: v => {
        const b = new Uint8Array(total(e, v));
        e.write(v, b, 0);
        return b;
    },
});
const createDecoder = d => Object.freeze({ ...d, decode: (b, o = 0) => d.read(b, o)[0] });
const createCodec = c => Object.freeze({ ...createEncoder(c), ...createDecoder(c) });
const combineCodec = (e, d) => Object.freeze({ ...d, ...e, decode: d.decode, encode: e.encode, read: d.read, write: e.write });
const isFixedSize = c => c.fixedSize !== undefined;
const isVariableSize = c => !isFixedSize(c);
const need = (b, o, n) => {
    if (b.length - o < n || b.length - o <= 0 && n > 0) fail('CODECS__INVALID_BYTE_LENGTH', { bytesLength: b.length - o, expected: n });
};
const exp = {};
for (const [name, bits, signed] of [['U8', 8], ['U16', 16], ['U32', 32], ['U64', 64], ['U128', 128], ['I8', 8, 1], ['I16', 16, 1], ['I32', 32, 1], ['I64', 64, 1]]) {
    const n = bits / 8;
    const min = signed ? -(1n << BigInt(bits - 1)) : 0n;
    const max = (1n << BigInt(signed ? bits - 1 : bits)) - 1n;
    const enc = (cfg = {}) => createEncoder({
        fixedSize: n,
        write: (v, b, o) => {
            if (typeof v !== 'number' && typeof v !== 'bigint') throw new TypeError(`not a number: ${String(v)}`);
            if (BigInt(v) < min || BigInt(v) > max) fail('CODECS__NUMBER_OUT_OF_RANGE', { value: v });
            let x = BigInt.asUintN(bits, BigInt(v));
            for (let i = 0; i < n; i++) {
                b[o + (cfg.endian === 1 ? n - 1 - i : i)] = Number(x & 255n);
                x >>= 8n;
            }
            return o + n;
        },
    });
    const dec = (cfg = {}) => createDecoder({
        fixedSize: n,
        read: (b, o) => {
            need(b, o, n);
            let x = 0n;
            for (let i = 0; i < n; i++) x = (x << 8n) | BigInt(b[o + (cfg.endian === 1 ? i : n - 1 - i)]);
            if (signed) x = BigInt.asIntN(bits, x);
            return [bits <= 32 ? Number(x) : x, o + n];
        },
    });
    exp[`get${name}Encoder`] = enc;
    exp[`get${name}Decoder`] = dec;
    exp[`get${name}Codec`] = c => combineCodec(enc(c), dec(c));
}
const transformEncoder = (e, f) => createEncoder({ ...e, getSizeFromValue: e.getSizeFromValue && (v => e.getSizeFromValue(f(v))), write: (v, b, o) => e.write(f(v), b, o) });
const transformDecoder = (d, f) => createDecoder({ ...d, read: (b, o) => { const [v, p] = d.read(b, o); return [f(v, b, o), p]; } });
const transformCodec = (c, f, g) => combineCodec(transformEncoder(c, f), g ? transformDecoder(c, g) : c);
const getBooleanEncoder = (c = {}) => transformEncoder(c.size ?? exp.getU8Encoder(), v => (v ? 1 : 0));
const getBooleanDecoder = (c = {}) => transformDecoder(c.size ?? exp.getU8Decoder(), v => Number(v) === 1);
const sum = a => (a.every(c => c.fixedSize !== undefined) ? a.reduce((x, c) => x + c.fixedSize, 0) : undefined);
const getStructEncoder = fields => createEncoder({
    ...(sum(fields.map(f => f[1])) !== undefined
        ? { fixedSize: sum(fields.map(f => f[1])) }
        : { getSizeFromValue: v => fields.reduce((x, [k, c]) => x + total(c, v[k]), 0) }),
    write: (v, b, o) => fields.reduce((p, [k, c]) => c.write(v[k], b, p), o),
});
const getStructDecoder = fields => createDecoder({
    ...(sum(fields.map(f => f[1])) !== undefined ? { fixedSize: sum(fields.map(f => f[1])) } : {}),
    read: (b, o) => {
        const r = {};
        for (const [k, c] of fields) [r[k], o] = c.read(b, o);
        return [r, o];
    },
});
const getTupleEncoder = items => createEncoder({
    ...(sum(items) !== undefined ? { fixedSize: sum(items) } : { getSizeFromValue: v => items.reduce((x, c, i) => x + total(c, v[i]), 0) }),
    write: (v, b, o) => items.reduce((p, c, i) => c.write(v[i], b, p), o),
});
const getTupleDecoder = items => createDecoder({
    ...(sum(items) !== undefined ? { fixedSize: sum(items) } : {}),
    read: (b, o) => [items.map(c => { const [v, p] = c.read(b, o); o = p; return v; }), o],
});
const getBytesEncoder = () => createEncoder({ getSizeFromValue: v => v.length, write: (v, b, o) => (b.set(v, o), o + v.length) });
const getBytesDecoder = () => createDecoder({ read: (b, o) => [b.slice(o), b.length] });
const getConstantEncoder = c => createEncoder({ fixedSize: c.length, write: (_, b, o) => (b.set(c, o), o + c.length) });
const getConstantDecoder = c => createDecoder({
    fixedSize: c.length,
    read: (b, o) => {
        if (!containsBytes(b, c, o)) fail('CODECS__INVALID_CONSTANT');
        return [undefined, o + c.length];
    },
});
const fixEncoderSize = (e, n) => createEncoder({ fixedSize: n, write: (v, b, o) => { const x = e.encode(v).slice(0, n); b.set(x, o); return o + n; } });
const fixDecoderSize = (d, n) => createDecoder({ fixedSize: n, read: (b, o) => { need(b, o, n); return [d.read(b.slice(o, o + n), 0)[0], o + n]; } });
const addEncoderSizePrefix = (e, p) => createEncoder({
    getSizeFromValue: v => { const x = e.encode(v); return total(p, x.length) + x.length; },
    write: (v, b, o) => { const x = e.encode(v); o = p.write(x.length, b, o); b.set(x, o); return o + x.length; },
});
const addDecoderSizePrefix = (d, p) => createDecoder({ read: (b, o) => { const [n, q] = p.read(b, o); need(b, q, Number(n)); return [d.read(b.slice(q, q + Number(n)), 0)[0], q + Number(n)]; } });
const getUtf8Encoder = () => createEncoder({ getSizeFromValue: v => Buffer.byteLength(v), write: (v, b, o) => { const x = Buffer.from(v, 'utf8'); b.set(x, o); return o + x.length; } });
const getUtf8Decoder = () => createDecoder({ read: (b, o) => [Buffer.from(b.slice(o)).toString('utf8').replace(/\u0000/g, ''), b.length] });
const getBase64Encoder = () => createEncoder({ getSizeFromValue: v => Buffer.from(v, 'base64').length, write: (v, b, o) => { const x = Buffer.from(v, 'base64'); b.set(x, o); return o + x.length; } });
const getBase64Decoder = () => createDecoder({ read: (b, o) => [Buffer.from(b.slice(o)).toString('base64'), b.length] });
const A58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const b58 = b => {
    let n = BigInt('0x0' + Buffer.from(b).toString('hex')), s = '', i = 0;
    while (n > 0n) { s = A58[Number(n % 58n)] + s; n /= 58n; }
    while (i < b.length && b[i] === 0) { s = '1' + s; i++; }
    return s;
};
const unb58 = s => {
    let n = 0n, z = 0;
    for (const c of s) {
        const k = A58.indexOf(c);
        if (k < 0) fail('CODECS__INVALID_STRING_FOR_BASE', { value: s });
        n = n * 58n + BigInt(k);
    }
    while (z < s.length && s[z] === '1') z++;
    let h = n === 0n ? '' : n.toString(16);
    if (h.length % 2) h = '0' + h;
    return new Uint8Array([...new Uint8Array(z), ...Buffer.from(h, 'hex')]);
};
const getBase58Encoder = () => createEncoder({ getSizeFromValue: v => unb58(v).length, write: (v, b, o) => { const x = unb58(v); b.set(x, o); return o + x.length; } });
const getBase58Decoder = () => createDecoder({ read: (b, o) => [b58(b.slice(o)), b.length] });

// bytes
const containsBytes = (data, bytes, offset) => {
    const s = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
    return s.length === bytes.length && bytes.every((x, i) => x === s[i]);
};
const bytesEqual = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const mergeBytes = a => new Uint8Array(a.flatMap(x => [...x]));

// addresses
const isAddress = s => typeof s === 'string' && s.length >= 32 && s.length <= 44 && [...s].every(c => A58.includes(c)) && unb58(s).length === 32;
const assertIsAddress = s => { if (!isAddress(s)) fail('ADDRESSES__INVALID_ADDRESS', { address: s }); };
const address = s => (assertIsAddress(s), s);
const getAddressEncoder = () => createEncoder({ fixedSize: 32, write: (v, b, o) => { assertIsAddress(v); b.set(unb58(v), o); return o + 32; } });
const getAddressDecoder = () => createDecoder({ fixedSize: 32, read: (b, o) => { need(b, o, 32); return [b58(b.slice(o, o + 32)), o + 32]; } });
const P = 2n ** 255n - 19n;
const pow = (b, e) => { let r = 1n; b %= P; while (e > 0n) { if (e & 1n) r = (r * b) % P; b = (b * b) % P; e >>= 1n; } return r; };
const D = ((-121665n * pow(121666n, P - 2n)) % P + P) % P;
const onCurve = b => {
    let y = 0n;
    for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(b[i]);
    y &= (1n << 255n) - 1n;
    const v = (((y * y - 1n) % P + P) % P) * pow(D * y * y + 1n, P - 2n) % P;
    return v === 0n || pow(v, (P - 1n) / 2n) === 1n;
};
const createPda = (programAddress, seeds) => {
    if (seeds.length > 16) fail('ADDRESSES__MAX_NUMBER_OF_PDA_SEEDS_EXCEEDED');
    const parts = seeds.map(s => (typeof s === 'string' ? Buffer.from(s, 'utf8') : s));
    if (parts.some(s => s.length > 32)) fail('ADDRESSES__MAX_PDA_SEED_LENGTH_EXCEEDED');
    const h = crypto.createHash('sha256');
    parts.forEach(s => h.update(s));
    const d = h.update(unb58(programAddress)).update('ProgramDerivedAddress').digest();
    return onCurve(d) ? null : b58(d);
};
const pdas = new Map();
const getProgramDerivedAddress = async ({ programAddress, seeds }) => {
    assertIsAddress(programAddress);
    const key = programAddress + seeds.map(s => Buffer.from(s).toString('hex')).join('.');
    if (!pdas.has(key)) {
        let bump = 255, a = null;
        for (; bump > 0; bump--) if ((a = createPda(programAddress, [...seeds, Uint8Array.of(bump)]))) break;
        if (!a) fail('ADDRESSES__FAILED_TO_FIND_VIABLE_PDA_BUMP_SEED');
        pdas.set(key, [a, bump]);
    }
    return pdas.get(key);
};

// instructions and roles
const AccountRole = { READONLY: 0, WRITABLE: 1, READONLY_SIGNER: 2, WRITABLE_SIGNER: 3, 0: 'READONLY', 1: 'WRITABLE', 2: 'READONLY_SIGNER', 3: 'WRITABLE_SIGNER' };
const isSignerRole = r => r >= 2;
const isWritableRole = r => (r & 1) !== 0;
const isTransactionSigner = v => v !== null && typeof v === 'object' && 'address' in v &&
    ['signTransactions', 'modifyAndSignTransactions', 'signAndSendTransactions'].some(k => typeof v[k] === 'function');
const createNoopSigner = a => Object.freeze({ address: a, signMessages: async m => m.map(() => ({})), signTransactions: async t => t.map(() => ({})) });
const generateKeyPairSigner = async () => ({ ...createNoopSigner(b58(crypto.randomBytes(32))), keyPair: {} });
const assertIsInstructionWithAccounts = ix => { if (ix.accounts === undefined) fail('INSTRUCTION__EXPECTED_TO_HAVE_ACCOUNTS'); };
const isInstructionWithAccounts = ix => Array.isArray(ix.accounts);
const assertIsInstructionWithData = ix => { if (ix.data === undefined) fail('INSTRUCTION__EXPECTED_TO_HAVE_DATA'); };
const isProgramError = (error, message, programAddress, code) => {
    if (!isSolanaError(error, exp.SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM)) return false;
    const p = message.instructions[error.context.index]?.programAddress;
    return p !== undefined && p === programAddress && (code === undefined || error.context.code === code);
};

// accounts
const parseBase64RpcAccount = (a, v) => (v ? Object.freeze({
    address: a, data: new Uint8Array(Buffer.from(v.data[0], 'base64')), executable: v.executable, exists: true, lamports: v.lamports,
    programAddress: v.owner, space: v.space }) : Object.freeze({ address: a, exists: false }));
const fetchEncodedAccount = async (rpc, a, config = {}) => parseBase64RpcAccount(a, (await rpc.getAccountInfo(a, { ...config, encoding: 'base64' }).send()).value);
const fetchEncodedAccounts = async (rpc, as, config = {}) => {
    const r = await rpc.getMultipleAccounts(as, { ...config, encoding: 'base64' }).send();
    return r.value.map((v, i) => parseBase64RpcAccount(as[i], v));
};
const decodeAccount = (a, decoder) => {
    try {
        if ('exists' in a && !a.exists) return a;
        return Object.freeze({ ...a, data: decoder.decode(a.data) });
    } catch {
        fail('ACCOUNTS__FAILED_TO_DECODE_ACCOUNT', { address: a.address });
    }
};
const assertAccountExists = a => { if (!a.exists) fail('ACCOUNTS__ACCOUNT_NOT_FOUND', { address: a.address }); };
const assertAccountsExist = as => { if (as.some(a => !a.exists)) fail('ACCOUNTS__ONE_OR_MORE_ACCOUNTS_NOT_FOUND'); };
const assertAccountDecoded = a => { if (!('exists' in a && !a.exists) && a.data instanceof Uint8Array) fail('ACCOUNTS__EXPECTED_DECODED_ACCOUNT'); };

// transactions
const pipe = (x, ...fs) => fs.reduce((v, f) => f(v), x);
const createTransactionMessage = c => Object.freeze({ instructions: Object.freeze([]), version: c.version });
const setTransactionMessageFeePayer = (a, m) => Object.freeze({ ...m, feePayer: Object.freeze({ address: a }) });
const setTransactionMessageFeePayerSigner = (s, m) => Object.freeze({ ...m, feePayer: s });
const setTransactionMessageLifetimeUsingBlockhash = (l, m) => Object.freeze({ ...m, lifetimeConstraint: Object.freeze({ ...l }) });
const appendTransactionMessageInstructions = (i, m) => Object.freeze({ ...m, instructions: Object.freeze([...m.instructions, ...i]) });
const appendTransactionMessageInstruction = (i, m) => appendTransactionMessageInstructions([i], m);
const prependTransactionMessageInstructions = (i, m) => Object.freeze({ ...m, instructions: Object.freeze([...i, ...m.instructions]) });
const isFullySignedTransaction = t => Object.values(t.signatures).every(s => !!s);
const assertIsFullySignedTransaction = t => {
    const missing = Object.entries(t.signatures).filter(([, s]) => !s).map(([a]) => a);
    if (missing.length) fail('TRANSACTION__SIGNATURES_MISSING', { addresses: missing });
};
const getTransactionSize = t => 1 + 64 * Object.keys(t.signatures).length + t.messageBytes.length;
const assertIsTransactionWithinSizeLimit = t => { if (getTransactionSize(t) > 1232) fail('TRANSACTION__EXCEEDS_SIZE_LIMIT'); };
const assertIsSendableTransaction = t => { assertIsFullySignedTransaction(t); assertIsTransactionWithinSizeLimit(t); };
const assertIsTransactionWithBlockhashLifetime = t => { if (!t.lifetimeConstraint || !('blockhash' in t.lifetimeConstraint)) fail('TRANSACTION__EXPECTED_BLOCKHASH_LIFETIME'); };
const extendClient = (c, x) => Object.freeze(Object.create(Object.getPrototypeOf(c), { ...Object.getOwnPropertyDescriptors(c), ...Object.getOwnPropertyDescriptors(x) }));

const some = value => Object.freeze({ __option: 'Some', value });
const none = () => Object.freeze({ __option: 'None' });
const unwrapOption = (o, f) => (o.__option === 'Some' ? o.value : f ? f() : null);

for (const c of ['PROGRAM_CLIENTS__INSUFFICIENT_ACCOUNT_METAS', 'PROGRAM_CLIENTS__FAILED_TO_IDENTIFY_INSTRUCTION', 'PROGRAM_CLIENTS__UNRECOGNIZED_INSTRUCTION_TYPE',
    'PROGRAM_CLIENTS__FAILED_TO_IDENTIFY_ACCOUNT', 'INSTRUCTION_ERROR__CUSTOM', 'ACCOUNTS__ACCOUNT_NOT_FOUND', 'ACCOUNTS__FAILED_TO_DECODE_ACCOUNT', 'TRANSACTION__SIGNATURES_MISSING'])
    exp['SOLANA_ERROR__' + c] = c;

module.exports = {
    ...exp, SolanaError, isSolanaError, createEncoder, createDecoder, createCodec, combineCodec, isFixedSize, isVariableSize,
    transformEncoder, transformDecoder, transformCodec, getBooleanEncoder, getBooleanDecoder,
    getBooleanCodec: c => combineCodec(getBooleanEncoder(c), getBooleanDecoder(c)),
    getStructEncoder, getStructDecoder, getStructCodec: f => combineCodec(getStructEncoder(f), getStructDecoder(f)),
    getTupleEncoder, getTupleDecoder, getTupleCodec: f => combineCodec(getTupleEncoder(f), getTupleDecoder(f)),
    getBytesEncoder, getBytesDecoder, getBytesCodec: () => combineCodec(getBytesEncoder(), getBytesDecoder()),
    getConstantEncoder, getConstantDecoder, fixEncoderSize, fixDecoderSize, fixCodecSize: (c, n) => combineCodec(fixEncoderSize(c, n), fixDecoderSize(c, n)),
    addEncoderSizePrefix, addDecoderSizePrefix, addCodecSizePrefix: (c, p) => combineCodec(addEncoderSizePrefix(c, p), addDecoderSizePrefix(c, p)),
    getUtf8Encoder, getUtf8Decoder, getUtf8Codec: () => combineCodec(getUtf8Encoder(), getUtf8Decoder()),
    getBase64Encoder, getBase64Decoder, getBase58Encoder, getBase58Decoder,
    containsBytes, bytesEqual, mergeBytes, isAddress, assertIsAddress, address, getAddressEncoder, getAddressDecoder,
    getAddressCodec: () => combineCodec(getAddressEncoder(), getAddressDecoder()), getProgramDerivedAddress, AccountRole, isSignerRole, isWritableRole,
    upgradeRoleToSigner: r => r | 2, upgradeRoleToWritable: r => r | 1, downgradeRoleToNonSigner: r => r & 1, downgradeRoleToReadonly: r => r & 2,
    mergeRoles: (a, b) => a | b, isTransactionSigner, createNoopSigner, generateKeyPairSigner, assertIsInstructionWithAccounts, isInstructionWithAccounts,
    assertIsInstructionWithData, isProgramError, parseBase64RpcAccount, fetchEncodedAccount, fetchEncodedAccounts, decodeAccount, assertAccountExists,
    assertAccountsExist, assertAccountDecoded, pipe, createTransactionMessage, setTransactionMessageFeePayer, setTransactionMessageFeePayerSigner,
    setTransactionMessageLifetimeUsingBlockhash, appendTransactionMessageInstructions, appendTransactionMessageInstruction,
    prependTransactionMessageInstructions, isFullySignedTransaction, assertIsFullySignedTransaction, getTransactionSize, assertIsTransactionWithinSizeLimit,
    assertIsSendableTransaction, assertIsTransactionWithBlockhashLifetime, extendClient, some, none, unwrapOption,
    isSome: o => o.__option === 'Some', isNone: o => o.__option === 'None', lamports: x => BigInt(x), isNoneOption: o => o.__option === 'None',
};
