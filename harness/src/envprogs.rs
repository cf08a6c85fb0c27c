//! Programs of the environment, and the token-wrap processor with the other two
//! mint customizers of the crate.
use {
    crate::world::{EXT2_ID, HOOK_ID},
    solana_account_info::{next_account_info, AccountInfo},
    solana_cpi::set_return_data,
    solana_program_error::{ProgramError, ProgramResult},
    solana_pubkey::Pubkey,
    spl_tlv_account_resolution::{account::ExtraAccountMeta, state::ExtraAccountMetaList},
    spl_token_metadata_interface::instruction::TokenMetadataInstruction,
    spl_token_wrap::{
        instruction::TokenWrapInstruction,
        mint_customizer::{
            compliance::ComplianceMintCustomizer, no_extensions::NoExtensionCustomizer,
        },
        processor::{process_create_mint, process_instruction},
    },
    spl_transfer_hook_interface::instruction::{ExecuteInstruction, TransferHookInstruction},
};

/// what the hook asks for: its counter, and accounts it wants to see
pub fn validation_data(counter: Pubkey, others: &[Pubkey]) -> Vec<u8> {
    let mut metas = vec![ExtraAccountMeta::new_with_pubkey(&counter, false, true).unwrap()];
    metas.extend(others.iter().map(|k| ExtraAccountMeta::new_with_pubkey(k, false, false).unwrap()));
    let mut d = vec![0; ExtraAccountMetaList::size_of(metas.len()).unwrap()];
    ExtraAccountMetaList::init::<ExecuteInstruction>(&mut d, &metas).unwrap();
    d
}

/// the keys a validation account lists (first the counter)
pub fn validation_keys(data: &[u8]) -> Option<Vec<Pubkey>> {
    use spl_type_length_value::state::TlvStateBorrowed;
    let tlv = TlvStateBorrowed::unpack(data).ok()?;
    let l = ExtraAccountMetaList::unpack_with_tlv_state::<ExecuteInstruction>(&tlv).ok()?;
    Some(l.iter().map(|m| Pubkey::new_from_array(m.address_config)).collect())
}

/// Transfer hook: counts its executions and keeps the last amount. Insists on all of its
/// accounts, and on both token accounts being in the "transferring" state.
pub fn hook(_p: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let TransferHookInstruction::Execute { amount } = TransferHookInstruction::unpack(data)?
    else {
        return Err(ProgramError::InvalidInstructionData);
    };
    let it = &mut accounts.iter();
    let _source = next_account_info(it)?;
    let mint = next_account_info(it)?;
    let _destination = next_account_info(it)?;
    let _authority = next_account_info(it)?;
    let validation = next_account_info(it)?;
    let counter = next_account_info(it)?;
    let expected =
        spl_transfer_hook_interface::get_extra_account_metas_address(mint.key, &HOOK_ID);
    if *validation.key != expected || counter.owner != &HOOK_ID {
        return Err(ProgramError::InvalidArgument);
    }
    let keys = validation_keys(&validation.try_borrow_data()?).ok_or(ProgramError::InvalidArgument)?;
    for k in &keys[1..] {
        if next_account_info(it)?.key != k {
            return Err(ProgramError::InvalidArgument);
        }
    }
    let mut d = counter.try_borrow_mut_data()?;
    if d.len() != 16 {
        return Err(ProgramError::InvalidAccountData);
    }
    let n = u64::from_le_bytes(d[..8].try_into().unwrap()) + 1;
    d[..8].copy_from_slice(&n.to_le_bytes());
    d[8..].copy_from_slice(&amount.to_le_bytes());
    Ok(())
}

/// External metadata program. Account: mode byte, then a packed `TokenMetadata`.
/// mode 0: returns it; 1: returns nothing; 2: returns bytes that are no metadata; 3: fails;
/// 4: has the other program return it (which always does for its own part)
pub fn ext_meta(_p: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let TokenMetadataInstruction::Emit(_) = TokenMetadataInstruction::unpack(data)? else {
        return Err(ProgramError::InvalidInstructionData);
    };
    let info = next_account_info(&mut accounts.iter())?;
    let d = info.try_borrow_data()?;
    match d.first() {
        Some(0) => set_return_data(&d[1..]),
        Some(1) => {}
        Some(2) => set_return_data(&[1, 2, 3]),
        Some(4) => {
            // lets another program answer
            let mut ix = spl_token_metadata_interface::instruction::emit(&EXT2_ID, info.key, None, None);
            ix.accounts.truncate(1);
            drop(d);
            solana_cpi::invoke(&ix, &[info.clone()])?;
        }
        _ => return Err(ProgramError::InvalidAccountData),
    }
    Ok(())
}

/// The same, as another program.
pub fn liar_meta(p: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let info = next_account_info(&mut accounts.iter())?;
    if info.owner != p {
        let d = info.try_borrow_data()?;
        set_return_data(&d[1..]);
        return Ok(());
    }
    ext_meta(p, accounts, data)
}

/// A "token program" that does nothing and says yes.
pub fn evil(_p: &Pubkey, _a: &[AccountInfo], _d: &[u8]) -> ProgramResult {
    Ok(())
}

pub fn compliance(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    match TokenWrapInstruction::unpack(d)? {
        TokenWrapInstruction::CreateMint { idempotent } => {
            process_create_mint::<ComplianceMintCustomizer>(p, a, idempotent)
        }
        _ => process_instruction(p, a, d),
    }
}

pub fn no_ext(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    match TokenWrapInstruction::unpack(d)? {
        TokenWrapInstruction::CreateMint { idempotent } => {
            process_create_mint::<NoExtensionCustomizer>(p, a, idempotent)
        }
        _ => process_instruction(p, a, d),
    }
}
