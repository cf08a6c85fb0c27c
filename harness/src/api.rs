//! The client-side part of the crate: instruction data, builders, derivations.
use {
    crate::world::{limbs, unlimbs, Labels},
    serde_json::{json, Value},
    solana_instruction::Instruction,
    solana_pubkey::Pubkey,
    spl_token_wrap::{self as tw, instruction as ti, instruction::TokenWrapInstruction as Ix},
    std::{
        io::{BufRead, Write},
        panic::{catch_unwind, AssertUnwindSafe},
    },
};

pub fn ix_json(ix: &Ix) -> Value {
    match ix {
        Ix::CreateMint { idempotent } => json!({"op": "create", "idem": idempotent}),
        Ix::Wrap { amount } => json!({"op": "wrap", "n": limbs(*amount as u128)}),
        Ix::Unwrap { amount } => json!({"op": "unwrap", "n": limbs(*amount as u128)}),
        Ix::CloseStuckEscrow => json!({"op": "close"}),
        Ix::SyncMetadataToToken2022 => json!({"op": "sync22"}),
        Ix::SyncMetadataToSplToken => json!({"op": "syncspl"}),
        Ix::SetCanonicalPointer { program_id } => json!({"op": "canon", "to": program_id.to_bytes()}),
    }
}

fn opt(l: &Labels, v: &Value) -> Option<Pubkey> {
    v.as_str().filter(|x| !x.is_empty()).map(|x| l.key(x))
}

/// `a`: the arguments that are accounts, in the order of the builder's parameters
#[allow(clippy::too_many_arguments)]
pub fn builder(f: &str, p: &Pubkey, a: &[Pubkey], ms: &[Pubkey], n: u64, idem: bool, src: Option<Pubkey>, own: Option<Pubkey>, to: Pubkey) -> Instruction {
    let ms: Vec<&Pubkey> = ms.iter().collect();
    match f {
        "create" => ti::create_mint(p, &a[0], &a[1], &a[2], &a[3], idem),
        "wrap" => ti::wrap(p, &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6], &a[7], &a[8], &ms, n),
        "unwrap" => ti::unwrap(p, &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6], &a[7], &a[8], &ms, n),
        "close" => ti::close_stuck_escrow(p, &a[0], &a[1], &a[2], &a[3], &a[4]),
        "sync22" => ti::sync_metadata_to_token_2022(p, &a[0], &a[1], &a[2], src.as_ref(), own.as_ref()),
        "syncspl" => ti::sync_metadata_to_spl_token(p, &a[0], &a[1], &a[2], &a[3], src.as_ref(), own.as_ref()),
        "canon" => ti::set_canonical_pointer(p, &a[0], &a[1], &a[2], &to),
        _ => panic!("builder {f}"),
    }
}

pub fn metas_json(l: &Labels, ix: &Instruction) -> Value {
    ix.accounts.iter().map(|m| json!({"l": l.name(&m.pubkey), "s": m.is_signer, "w": m.is_writable})).collect()
}

fn derive(f: &str, k: &[Pubkey], p: Option<Pubkey>) -> Pubkey {
    match (f, p) {
        ("wrapped_mint", None) => tw::get_wrapped_mint_address(&k[0], &k[1]),
        ("wrapped_mint", Some(p)) => tw::get_wrapped_mint_address_for_program(&k[0], &k[1], &p),
        ("authority", None) => tw::get_wrapped_mint_authority(&k[0]),
        ("authority", Some(p)) => tw::get_wrapped_mint_authority_for_program(&k[0], &p),
        ("backpointer", None) => tw::get_wrapped_mint_backpointer_address(&k[0]),
        ("backpointer", Some(p)) => tw::get_wrapped_mint_backpointer_address_for_program(&k[0], &p),
        ("canonical", None) => tw::get_canonical_pointer_address(&k[0]),
        ("canonical", Some(p)) => tw::get_canonical_pointer_address_for_program(&k[0], &p),
        ("escrow", None) => tw::get_escrow_address(&k[0], &k[1], &k[2]),
        ("escrow", Some(p)) => tw::get_escrow_address_for_program(&k[0], &k[1], &k[2], &p),
        _ => panic!("derivation {f}"),
    }
}

pub fn main(input: &str, output: &str) {
    let l = Labels::new();
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).expect("output"));
    let inp = std::io::BufReader::new(std::fs::File::open(input).expect("input"));
    let keys = |v: &Value| -> Vec<Pubkey> { v.as_array().map(|a| a.iter().map(|x| l.key(x.as_str().unwrap())).collect()).unwrap_or_default() };
    std::panic::set_hook(Box::new(|_| {}));
    for line in inp.lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).expect("json");
        let mut e = v.as_object().unwrap().clone();
        match v["t"].as_str().unwrap() {
            "dec" => {
                let b: Vec<u8> = v["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                let r = catch_unwind(AssertUnwindSafe(|| Ix::unpack(&b)));
                e.insert("panic".into(), json!(r.is_err()));
                match r {
                    Ok(Ok(ix)) => {
                        e.insert("ok".into(), json!(true));
                        e.insert("err".into(), json!(""));
                        e.insert("ix".into(), ix_json(&ix));
                        e.insert("re".into(), json!(ix.pack()));
                    }
                    Ok(Err(x)) => {
                        e.insert("ok".into(), json!(false));
                        e.insert("err".into(), json!(format!("{x:?}")));
                    }
                    Err(_) => {}
                }
            }
            "build" => {
                let (a, ms) = (keys(&v["a"]), keys(&v["ms"]));
                let p = l.key(v["p"].as_str().unwrap());
                let to = opt(&l, &v["to"]).unwrap_or_default();
                let n = v.get("n").map(unlimbs).unwrap_or(0);
                let ix = builder(v["f"].as_str().unwrap(), &p, &a, &ms, n, v["idem"].as_bool().unwrap_or(false), opt(&l, &v["src"]), opt(&l, &v["own"]), to);
                if v["f"] == "canon" {
                    e.insert("tob".into(), json!(to.to_bytes()));
                }
                e.insert("prog".into(), json!(l.name(&ix.program_id)));
                e.insert("metas".into(), metas_json(&l, &ix));
                e.insert("data".into(), json!(ix.data));
            }
            "fn" => {
                l.key(v["exp"].as_str().unwrap());
                let r = derive(v["f"].as_str().unwrap(), &keys(&v["a"]), opt(&l, &v["p"]));
                e.insert("r".into(), json!(l.name(&r)));
            }
            "errors" => {
                let mut list = vec![];
                for code in 0..64u32 {
                    if let Ok(x) = tw::error::TokenWrapError::try_from(code) {
                        let e: solana_program_error::ProgramError = x.clone().into();
                        let back = if let solana_program_error::ProgramError::Custom(c) = e { c as i64 } else { -1 };
                        list.push(json!([code, format!("{x:?}"), back, solana_program_error::ToStr::to_str(&x), x.to_string()]));
                    }
                }
                e.insert("list".into(), json!(list));
            }
            o => panic!("request {o}"),
        }
        writeln!(out, "{}", Value::Object(e)).unwrap();
    }
    out.flush().unwrap();
}
