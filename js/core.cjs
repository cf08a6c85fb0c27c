// @solana/program-client-core as generated clients use it
const { AccountRole, isTransactionSigner, upgradeRoleToSigner } = require('./kit.cjs');

const getAccountMetaFactory = (programAddress, strategy) => (name, account) => {
    if (!account.value) return strategy === 'omitted' ? undefined : Object.freeze({ address: programAddress, role: AccountRole.READONLY });
    const role = account.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;
    const v = Array.isArray(account.value) ? account.value[0] : account.value;
    return Object.freeze({
        address: typeof v === 'string' ? v : v.address,
        role: isTransactionSigner(v) ? upgradeRoleToSigner(role) : role,
        ...(isTransactionSigner(v) ? { signer: v } : {}),
    });
};
const addSelfPlanAndSendFunctions = (client, ix) => Object.freeze({ ...ix, planTransaction: () => client, sendTransaction: () => client });
const addSelfFetchFunctions = (client, codec) => Object.freeze({ ...codec, fetch: () => client, fetchMaybe: () => client });
module.exports = { getAccountMetaFactory, addSelfPlanAndSendFunctions, addSelfFetchFunctions };
