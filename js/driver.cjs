// Carries out requests (a JSON line each) with the client under test and tells what came of it.
const fs = require('node:fs');
const path = require('node:path');
const tw = require('tw');
const kit = require('./kit.cjs');

const [, , input, output] = process.argv;
const TWA = 'TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR';
const signer = a => kit.createNoopSigner(a);
const big = n => BigInt(n);
const num = r => (r.num && big(r.n) <= BigInt(Number.MAX_SAFE_INTEGER) ? Number(r.n) : big(r.n));

const NAMES = {
    create: ['wrappedMint', 'backpointer', 'unwrappedMint', 'systemProgram', 'wrappedTokenProgram'],
    wrap: ['recipientWrappedTokenAccount', 'wrappedMint', 'wrappedMintAuthority', 'unwrappedTokenProgram', 'wrappedTokenProgram', 'unwrappedTokenAccount',
        'unwrappedMint', 'unwrappedEscrow', 'transferAuthority'],
    unwrap: ['unwrappedEscrow', 'recipientUnwrappedToken', 'wrappedMintAuthority', 'unwrappedMint', 'wrappedTokenProgram', 'unwrappedTokenProgram',
        'wrappedTokenAccount', 'wrappedMint', 'transferAuthority'],
    close: ['escrow', 'destination', 'unwrappedMint', 'wrappedMint', 'wrappedMintAuthority', 'token2022Program'],
    sync22: ['wrappedMint', 'wrappedMintAuthority', 'unwrappedMint', 'token2022Program', 'sourceMetadata', 'ownerProgram'],
    syncspl: ['metaplexMetadata', 'wrappedMintAuthority', 'wrappedMint', 'unwrappedMint', 'metaplexProgram', 'systemProgram', 'rentSysvar', 'sourceMetadata', 'ownerProgram'],
};
const FN = { create: 'CreateMint', wrap: 'Wrap', unwrap: 'Unwrap', close: 'CloseStuckEscrow', sync22: 'SyncMetadataToToken2022', syncspl: 'SyncMetadataToSplToken' };
const lower = s => s[0].toLowerCase() + s.slice(1);
const OP = Object.fromEntries(Object.entries(FN).map(([k, v]) => [tw.TokenWrapInstruction[v], k]));

const show = ix => ({
    p: ix.programAddress,
    m: ix.accounts.map(a => ({ l: a.address, s: kit.isSignerRole(a.role), w: kit.isWritableRole(a.role), h: !!a.signer && a.signer.address === a.address })),
    d: [...ix.data],
});
const parsed = x => ({
    op: OP[x.instructionType],
    p: x.programAddress,
    a: (NAMES[OP[x.instructionType]] ?? []).map(n => x.accounts[n]?.address ?? ''),
    extra: Object.keys(x.accounts).filter(n => !(NAMES[OP[x.instructionType]] ?? []).includes(n)),
    n: x.data.amount === undefined ? '' : String(x.data.amount),
    idem: x.data.idempotent === undefined ? '' : String(x.data.idempotent),
});
const attempt = async f => {
    try {
        return { ok: true, ...(await f()) };
    } catch (e) {
        const why = String(e && e.message).slice(0, 200);
        return { ok: false, why, ...(/^\(0, \w+\.\w+\) is not a function$/.test(why) ? { unsupported: true } : {}) };
    }
};
const clean = x => Object.fromEntries(Object.entries(x).filter(([, v]) => v !== undefined && v !== ''));

let client;
const plugin = () => (client ??= tw.tokenWrapProgram()({ rpc: {}, other: 1 }));

async function build(r) {
    const input = {};
    NAMES[r.f].forEach((n, i) => { if (r.a[i] !== '') input[n] = n === 'transferAuthority' && r.sg ? signer(r.a[i]) : r.a[i]; });
    if (r.f === 'wrap' || r.f === 'unwrap') {
        input.amount = num(r);
        if (r.ms.length || r.num) input.multiSigners = r.ms.map(signer);
    }
    if (r.f === 'create' && r.idem !== '') input.idempotent = r.idem === 'true';
    const make = r.via === 'plugin' ? plugin().tokenWrap.instructions[lower(FN[r.f])] : tw[`get${FN[r.f]}Instruction`];
    const ix = r.via === 'plugin' || r.p === '' ? make(input) : make(input, { programAddress: r.p });
    const back = await attempt(async () => ({ x: parsed((r.via === 'plugin' ? plugin().tokenWrap.parseInstruction : tw.parseTokenWrapInstruction)(ix)) }));
    return { ix: show(ix), back };
}

async function pda(r) {
    const cfg = r.p === '' ? [] : [{ programAddress: r.p }];
    const s = { wrapped_mint: { unwrappedMint: r.a[0], wrappedTokenProgram: r.a[1] }, authority: { wrappedMint: r.a[0] }, backpointer: { wrappedMint: r.a[0] } }[r.f];
    const n = { wrapped_mint: 'WrappedMint', authority: 'WrappedMintAuthority', backpointer: 'Backpointer' }[r.f];
    const f = r.via === 'plugin' ? plugin().tokenWrap.pdas[lower(n)] : tw[`find${n}Pda`];
    const [a] = await f(s, ...cfg);
    return { r: a };
}

async function parse(r) {
    const meta = a => ({ address: a, role: 0 });
    const ix = { programAddress: TWA, accounts: r.a.map(meta), data: new Uint8Array(r.b) };
    return { x: parsed((r.via === 'plugin' ? plugin().tokenWrap.parseInstruction : tw.parseTokenWrapInstruction)(ix)) };
}

function rpc(r, log) {
    const value = a => {
        log.push(a);
        if (r.fault === 'get' && (r.on === '' || r.on === a)) throw new Error('Node is behind');
        const v = r.chain[a];
        return v ? { data: [v.data, 'base64'], executable: false, lamports: BigInt(v.lam), owner: v.own, space: BigInt(v.len) } : null;
    };
    const later = f => ({ send: async () => f() });
    return {
        getAccountInfo: a => later(() => ({ context: { slot: 1n }, value: value(a) })),
        getMultipleAccounts: as => later(() => ({ context: { slot: 1n }, value: as.map(value) })),
        getBalance: a => later(() => ({ context: { slot: 1n }, value: BigInt(value(a)?.lamports ?? 0) })),
        getMinimumBalanceForRentExemption: n => later(() => {
            if (r.fault === 'rent') throw new Error('Internal error');
            return (BigInt(n) + 128n) * 6960n;
        }),
    };
}

async function help(r) {
    const log = [];
    const chain = rpc(r, log), payer = signer(r.payer);
    const ta = r.auth === '' ? undefined : r.sg ? signer(r.auth) : r.auth;
    const blockhash = { blockhash: r.bh, lastValidBlockHeight: 7n };
    if (r.cmd === 'create-mint') {
        const x = await tw.createMint(clean({ rpc: chain, unwrappedMint: r.u, wrappedTokenProgram: r.wp, payer, idempotent: r.idem === '' ? undefined : r.idem === 'true' }));
        return { ixs: x.ixs.map(show), out: { wrappedMint: x.wrappedMint, backpointer: x.backpointer, a: String(x.fundedWrappedMintLamports), b: String(x.fundedBackpointerLamports) } };
    }
    if (r.cmd === 'create-escrow-account') {
        const x = await tw.createEscrowAccount({ rpc: chain, payer, unwrappedMint: r.u, wrappedTokenProgram: r.wp });
        return x.kind === 'already_exists'
            ? { ixs: [], out: { kind: x.kind, address: x.account.address, mint: x.account.data.mint } }
            : { ixs: x.ixs.map(show), out: { kind: x.kind, address: x.address, mint: '' } };
    }
    if (r.cmd === 'wrap' || r.cmd === 'unwrap') {
        const x = r.cmd === 'wrap'
            ? await tw.singleSignerWrap(clean({ rpc: chain, payer, unwrappedTokenAccount: r.ta, wrappedTokenProgram: r.wp, amount: num(r), transferAuthority: ta,
                unwrappedMint: r.um, recipientWrappedTokenAccount: r.rcp, unwrappedTokenProgram: r.up }))
            : await tw.singleSignerUnwrap(clean({ rpc: chain, payer, wrappedTokenAccount: r.ta, amount: num(r), recipientUnwrappedToken: r.rcp, transferAuthority: ta,
                unwrappedMint: r.um, wrappedTokenProgram: r.wp, unwrappedTokenProgram: r.up }));
        return { ixs: x.ixs.map(show), out: { a: String(x.amount), rcp: x.recipientWrappedTokenAccount ?? x.recipientUnwrappedToken ?? '', escrow: x.escrowAccount ?? '' } };
    }
    const args = { payer, blockhash, wrappedTokenProgram: r.wp, amount: num(r), wrappedMint: r.wm, wrappedMintAuthority: r.au, transferAuthority: ta, unwrappedMint: r.um,
        unwrappedTokenProgram: r.up, multiSigners: r.ms.map(signer) };
    const x = r.cmd === 'multi-wrap'
        ? await tw.multisigOfflineSignWrap({ ...args, unwrappedTokenAccount: r.ta, recipientWrappedTokenAccount: r.rcp })
        : await tw.multisigOfflineSignUnwrap({ ...args, wrappedTokenAccount: r.ta, recipientUnwrappedToken: r.rcp });
    return { ixs: x.instructions.map(show), out: { payer: x.feePayer.address, signs: kit.isTransactionSigner(x.feePayer), bh: x.lifetimeConstraint.blockhash,
        height: String(x.lifetimeConstraint.lastValidBlockHeight), version: String(x.version) } };
}

async function combine(r) {
    const sig = s => (s === 0 ? null : new Uint8Array(64).fill(s));
    const txs = r.txs.map(t => ({ messageBytes: new Uint8Array(t.m), lifetimeConstraint: { blockhash: r.bh, lastValidBlockHeight: 1n },
        signatures: Object.fromEntries(t.s.map(([a, s]) => [a, sig(s)])) }));
    const before = JSON.stringify(txs, (_, v) => (typeof v === 'bigint' ? String(v) : v));
    const x = tw.combinedMultisigTx({ signedTxs: txs, blockhash: { blockhash: r.bh, lastValidBlockHeight: 9n } });
    return { m: [...x.messageBytes], s: Object.entries(x.signatures).map(([a, s]) => [a, s ? s[0] : 0]), bh: x.lifetimeConstraint.blockhash,
        same: before === JSON.stringify(txs, (_, v) => (typeof v === 'bigint' ? String(v) : v)) };
}

async function errors(r) {
    const name = 'TOKEN_WRAP_ERROR__' + r.name;
    const code = tw[name];
    const e = c => new kit.SolanaError(kit.SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM, { code: c, index: 1 });
    const message = p => ({ instructions: { 0: { programAddress: r.payer }, 1: { programAddress: p } } });
    return { code: code === undefined ? '' : String(code), text: tw.getTokenWrapErrorMessage(code) ?? '', is: [tw.isTokenWrapError(e(code), message(TWA)),
        tw.isTokenWrapError(e(code), message(TWA), code), tw.isTokenWrapError(e(code), message(r.payer)), tw.isTokenWrapError(e(code + 1), message(TWA), code)] };
}

async function account(r) {
    const log = [];
    const chain = rpc(r, log);
    if (r.f === 'encode') return { b: [...tw.getBackpointerEncoder().encode({ unwrappedMint: r.u })], n: tw.getBackpointerSize(), fixed: tw.getBackpointerCodec().fixedSize };
    if (r.f === 'decode') return { u: tw.getBackpointerDecoder().decode(new Uint8Array(r.b)).unwrappedMint };
    if (r.f === 'fetch') return { u: (await tw.fetchBackpointer(chain, r.at)).data.unwrappedMint };
    if (r.f === 'seeds') return { u: (await tw.fetchBackpointerFromSeeds(chain, { wrappedMint: r.at })).data.unwrappedMint };
    if (r.f === 'maybe') { const x = await tw.fetchMaybeBackpointer(chain, r.at); return { u: x.exists ? x.data.unwrappedMint : 'none' }; }
    const x = await tw.fetchAllMaybeBackpointer(chain, [r.at, r.payer]);
    return { u: x.map(y => (y.exists ? y.data.unwrappedMint : 'none')).join(' ') };
}

const KINDS = { jix: build, jpda: pda, jparse: parse, jhelp: help, jcomb: combine, jerr: errors, jacct: account };
(async () => {
    const out = fs.openSync(output, 'w');
    for (const l of fs.readFileSync(input, 'utf8').split('\n')) {
        if (!l) continue;
        const r = JSON.parse(l);
        fs.writeSync(out, JSON.stringify(await attempt(() => KINDS[r.t](r))) + '\n');
    }
    fs.closeSync(out);
})();
