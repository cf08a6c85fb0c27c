//! Runs program processors that were compiled for the host as builtins of the SVM.
//!
//! What matters for fidelity: the processor sees the accounts through the same serialized
//! input region as on chain, every CPI goes through the runtime's own
//! `prepare_next_instruction` (privilege escalation, missing accounts, reentrancy, unbalanced
//! lamports are the runtime's decisions), and a CPI that fails ends the whole instruction
//! with the callee's error: on chain a caller never gets to see it.

use {
    solana_account_info::AccountInfo,
    solana_instruction::{error::InstructionError, Instruction},
    solana_program_entrypoint::{deserialize, ProcessInstruction, SUCCESS},
    solana_program_error::ProgramResult,
    solana_program_runtime::{
        declare_process_instruction, invoke_context::InvokeContext,
        serialization::serialize_parameters,
    },
    solana_pubkey::Pubkey,
    solana_sysvar::program_stubs::SyscallStubs,
    std::{
        cell::RefCell,
        collections::HashMap,
        panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    },
};

thread_local! {
    static CTX: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

/// Payload of the unwinding that stands for "the runtime aborts the caller".
struct Abort(InstructionError);

fn abort(e: InstructionError) -> ! {
    resume_unwind(Box::new(Abort(e)))
}

fn ctx<'a, 'b>() -> &'a mut InvokeContext<'b, 'b> {
    let p = CTX.with(|c| *c.borrow().last().expect("no invoke context"));
    unsafe { &mut *(p as *mut InvokeContext<'b, 'b>) }
}

pub fn run(f: ProcessInstruction, ic: &mut InvokeContext) -> Result<(), InstructionError> {
    let p = ic as *mut InvokeContext as usize;
    CTX.with(|c| c.borrow_mut().push(p));
    let r = run_inner(f, ic);
    CTX.with(|c| c.borrow_mut().pop());
    r
}

fn run_inner(f: ProcessInstruction, ic: &mut InvokeContext) -> Result<(), InstructionError> {
    let (mut bytes, n) = {
        let i = ic.transaction_context.get_current_instruction_context()?;
        let n = i.get_number_of_instruction_accounts();
        let (bytes, _regions, _meta, _off) = serialize_parameters(&i, false, false, true)?;
        (bytes, n)
    };
    let (program_id, infos, input) =
        unsafe { deserialize(&mut bytes.as_slice_mut()[0] as *mut u8) };
    match catch_unwind(AssertUnwindSafe(|| f(program_id, &infos, input))) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(InstructionError::from(u64::from(e))),
        Err(payload) => {
            return Err(match payload.downcast::<Abort>() {
                Ok(a) => a.0,
                Err(_) => InstructionError::ProgramFailedToComplete,
            })
        }
    }
    // write what the program left in the input region back, as the loader does
    let map: HashMap<Pubkey, AccountInfo> = infos.into_iter().map(|a| (*a.key, a)).collect();
    let i = ic.transaction_context.get_current_instruction_context()?;
    for idx in 0..n {
        let mut b = i.try_borrow_instruction_account(idx)?;
        let Some(a) = map.get(b.get_key()) else { continue };
        if b.get_lamports() != a.lamports() {
            b.set_lamports(a.lamports())?;
        }
        let data = a
            .try_borrow_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?;
        match b.can_data_be_resized(data.len()) {
            Ok(()) if b.can_data_be_changed().is_ok() => b.set_data_from_slice(&data)?,
            _ if b.get_data() != *data => {
                return Err(InstructionError::ReadonlyDataModified);
            }
            _ => {}
        }
        if b.get_owner() != a.owner {
            b.set_owner(a.owner.as_ref())?;
        }
    }
    Ok(())
}

fn cpi(
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> Result<(), InstructionError> {
    let ic = ctx();
    let caller = *ic
        .transaction_context
        .get_current_instruction_context()?
        .get_program_key()?;
    let signers = signers_seeds
        .iter()
        .map(|s| {
            Pubkey::create_program_address(s, &caller).map_err(|_| InstructionError::InvalidSeeds)
        })
        .collect::<Result<Vec<_>, _>>()?;
    ic.prepare_next_instruction(instruction.clone(), &signers)?;

    let mut writable = vec![];
    {
        let tc = &ic.transaction_context;
        let i = tc.get_current_instruction_context()?;
        let next = tc.get_next_instruction_context()?;
        for ia in next.instruction_accounts().iter() {
            let key = *tc.get_key_of_account_at_index(ia.index_in_transaction)?;
            let pos = match account_infos.iter().position(|a| *a.key == key) {
                Some(p) => p,
                None => {
                    // an executable account need not be passed
                    let in_caller = i.get_index_of_account_in_instruction(ia.index_in_transaction)?;
                    #[allow(deprecated)]
                    if i.try_borrow_instruction_account(in_caller)?.is_executable() {
                        continue;
                    }
                    return Err(InstructionError::MissingAccount);
                }
            };
            let info = &account_infos[pos];
            let in_caller = i.get_index_of_account_in_instruction(ia.index_in_transaction)?;
            let mut b = i.try_borrow_instruction_account(in_caller)?;
            if b.get_lamports() != info.lamports() {
                b.set_lamports(info.lamports())?;
            }
            let data = unsafe { &*(info.data.as_ptr() as *const &mut [u8]) };
            match b.can_data_be_resized(data.len()) {
                Ok(()) if b.can_data_be_changed().is_ok() => b.set_data_from_slice(data)?,
                _ if b.get_data() != *data => return Err(InstructionError::ReadonlyDataModified),
                _ => {}
            }
            if b.get_owner() != info.owner {
                b.set_owner(info.owner.as_ref())?;
            }
            if ia.is_writable() {
                writable.push((ia.index_in_transaction, pos));
            }
        }
    }

    let mut cu = 0;
    ic.process_instruction(&mut cu, &mut Default::default())?;

    let tc = &ic.transaction_context;
    let i = tc.get_current_instruction_context()?;
    for (index, pos) in writable {
        let in_caller = i.get_index_of_account_in_instruction(index)?;
        let b = i.try_borrow_instruction_account(in_caller)?;
        let info = &account_infos[pos];
        **info
            .try_borrow_mut_lamports()
            .map_err(|_| InstructionError::AccountBorrowFailed)? = b.get_lamports();
        if info.owner != b.get_owner() {
            // the runtime rewrites the owner in the caller's input region
            info.assign(b.get_owner());
        }
        let new = b.get_data();
        if info.data_len() != new.len() {
            info.resize(new.len())
                .map_err(|e| InstructionError::from(u64::from(e)))?;
        }
        info.try_borrow_mut_data()
            .map_err(|_| InstructionError::AccountBorrowFailed)?
            .copy_from_slice(new);
    }
    Ok(())
}

struct Hooks;
impl solana_cpi::offchain::Hooks for Hooks {
    fn invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        match cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => abort(e),
        }
    }
    fn get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (p, d) = ctx().transaction_context.get_return_data();
        if d.is_empty() {
            None
        } else {
            Some((*p, d.to_vec()))
        }
    }
    fn set_return_data(&self, data: &[u8]) {
        let tc = &mut ctx().transaction_context;
        let caller = *tc
            .get_current_instruction_context()
            .unwrap()
            .get_program_key()
            .unwrap();
        tc.set_return_data(caller, data.to_vec()).unwrap();
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_clock_sysvar(&self, addr: *mut u8) -> u64 {
        let c = ctx().get_sysvar_cache().get_clock().unwrap();
        unsafe { *(addr as *mut solana_sysvar::clock::Clock) = (*c).clone() };
        SUCCESS
    }
    fn sol_get_rent_sysvar(&self, addr: *mut u8) -> u64 {
        let c = ctx().get_sysvar_cache().get_rent().unwrap();
        unsafe { *(addr as *mut solana_rent::Rent) = (*c).clone() };
        SUCCESS
    }
    fn sol_get_sysvar(&self, id: *const u8, addr: *mut u8, offset: u64, length: u64) -> u64 {
        let id = unsafe { &*(id as *const Pubkey) };
        let cache = ctx().get_sysvar_cache();
        let Some(buf) = cache.sysvar_id_to_buffer(id) else {
            return 2;
        };
        let end = offset.saturating_add(length) as usize;
        if end > buf.len() {
            return 1;
        }
        unsafe {
            std::ptr::copy_nonoverlapping(
                buf[offset as usize..].as_ptr(),
                addr,
                length as usize,
            )
        };
        SUCCESS
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        solana_cpi::offchain::Hooks::get_return_data(&Hooks)
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        solana_cpi::offchain::Hooks::set_return_data(&Hooks, data)
    }
}

pub fn install() {
    solana_cpi::offchain::set(Box::new(Hooks));
    solana_sysvar::program_stubs::set_syscall_stubs(Box::new(Stubs));
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        // panics of the code under test are data
        if CTX.with(|c| c.borrow().is_empty()) {
            default(i)
        }
    }));
}

macro_rules! native_program {
    ($m:ident, $f:path) => {
        pub mod $m {
            use super::*;
            declare_process_instruction!(Entrypoint, 1, |invoke_context| {
                run($f, invoke_context)
            });
        }
    };
}

native_program!(token_wrap, spl_token_wrap::processor::process_instruction);
native_program!(hook, crate::envprogs::hook);
native_program!(ext_meta, crate::envprogs::ext_meta);
native_program!(liar_meta, crate::envprogs::liar_meta);
native_program!(evil, crate::envprogs::evil);
native_program!(compliance, crate::envprogs::compliance);
native_program!(no_ext, crate::envprogs::no_ext);
