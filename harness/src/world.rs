//! Abstract worlds (JSON) <-> concrete accounts.
//!
//! An address is a *label*: a base name, or a derivation term over labels
//!   wm(U,P)   wrapped mint PDA            au(WM)  mint authority PDA
//!   bp(WM)    backpointer PDA             cp(U)   canonical pointer PDA
//!   ata(O,M,P) associated token account   mpl(M)  Metaplex metadata PDA
//!   hv(M)     transfer-hook validation PDA of the HOOK program
//! The derivations are computed here from literal seeds, not with the crate's helpers.

use {
    mpl_token_metadata::{accounts::Metadata, types as mt},
    serde_json::{json, Map, Value},
    sha2::{Digest, Sha256},
    solana_account::Account,
    solana_nullable::MaybeNull,
    solana_program_pack::Pack,
    solana_pubkey::Pubkey,
    solana_rent::Rent,
    spl_token_2022_interface::{
        extension::{
            confidential_transfer::ConfidentialTransferMint,
            confidential_transfer_fee::ConfidentialTransferFeeConfig, cpi_guard::CpiGuard,
            default_account_state::DefaultAccountState, group_member_pointer::GroupMemberPointer,
            group_pointer::GroupPointer, immutable_owner::ImmutableOwner,
            interest_bearing_mint::InterestBearingConfig, memo_transfer::MemoTransfer,
            metadata_pointer::MetadataPointer, mint_close_authority::MintCloseAuthority,
            non_transferable::{NonTransferable, NonTransferableAccount},
            pausable::{PausableAccount, PausableConfig}, permanent_delegate::PermanentDelegate,
            scaled_ui_amount::ScaledUiAmountConfig,
            transfer_fee::{TransferFee, TransferFeeAmount, TransferFeeConfig},
            transfer_hook::{TransferHook, TransferHookAccount},
            BaseStateWithExtensions, BaseStateWithExtensionsMut, ExtensionType,
            PodStateWithExtensions, PodStateWithExtensionsMut,
        },
        pod::{PodAccount, PodCOption, PodMint},
        state::Multisig,
    },
    spl_token_metadata_interface::state::TokenMetadata,
    spl_type_length_value::variable_len_pack::VariableLenPack,
    std::{cell::RefCell, collections::HashMap, str::FromStr},
};

pub const HOOK_ID: Pubkey = Pubkey::new_from_array([0xA1; 32]);
pub const EXT_ID: Pubkey = Pubkey::new_from_array([0xA2; 32]);
pub const EXT2_ID: Pubkey = Pubkey::new_from_array([0xA3; 32]);

pub fn limbs(mut n: u128) -> Value {
    let mut v = vec![];
    while n > 0 {
        v.push(json!((n % 10_000) as u32));
        n /= 10_000;
    }
    Value::Array(v)
}
pub fn unlimbs(v: &Value) -> u64 {
    match v {
        Value::Null => 0,
        Value::Number(n) => n.as_u64().unwrap(),
        Value::String(s) => s.parse().unwrap(),
        Value::Array(a) => a
            .iter()
            .rev()
            .fold(0u128, |acc, x| acc * 10_000 + x.as_u64().unwrap() as u128)
            .try_into()
            .unwrap(),
        _ => panic!("amount {v}"),
    }
}

/// label <-> pubkey
#[derive(Default)]
pub struct Labels {
    fwd: RefCell<HashMap<String, Pubkey>>,
    rev: RefCell<HashMap<Pubkey, String>>,
}

impl Labels {
    pub fn new() -> Self {
        let l = Self::default();
        let fix = |n: &str, k: Pubkey| {
            l.fwd.borrow_mut().insert(n.into(), k);
            l.rev.borrow_mut().insert(k, n.into());
        };
        fix("SYS", Pubkey::default());
        fix("SPL", spl_token::id());
        fix("T22", spl_token_2022_interface::id());
        fix("TW", spl_token_wrap::id());
        fix("ATAP", ata_program());
        fix("MPL", mpl_token_metadata::ID);
        fix("HOOK", HOOK_ID);
        fix("EXT", EXT_ID);
        fix("EXT2", EXT2_ID);
        fix("EVIL", crate::exec::EVIL_ID);
        fix("INC", solana_sdk_ids::incinerator::id());
        fix("RENT", solana_sdk_ids::sysvar::rent::id());
        fix("LOADER", solana_sdk_ids::bpf_loader_upgradeable::id());
        fix("NATIVE", solana_sdk_ids::native_loader::id());
        for (n, k) in [
            ("COMP-PD", "deLpBmD7UP27BHTuhnxR7mBE9rEV6mWUnwWsXMXTFwR"),
            ("COMP-CT", "con2YXp7bKscyhzJzbSQgwz6RFcXqe6otUGK5Rr8saK"),
            ("COMP-FRZ", "freTRAXwCVELv5k7V6UobnCiG1hmhnj79AezxRwAR3h"),
            ("COMP-PAUS", "pauySfjziLCpPMoaeFsWgvBCe7ygHKr6wXCyvTNZyGv"),
        ] {
            fix(n, Pubkey::from_str(k).unwrap());
        }
        fix("WSOL22", Pubkey::from_str("9pan9bMn5HatX4EJdBwg9VgCa7Uz5HL8N1m5D3NdXejP").unwrap());
        fix("WSOL", Pubkey::from_str("So11111111111111111111111111111111111111112").unwrap());
        l
    }
    pub fn key(&self, label: &str) -> Pubkey {
        if let Some(k) = self.fwd.borrow().get(label) {
            return *k;
        }
        let k = if let Some(b) = label.strip_prefix('?') {
            Pubkey::from_str(b).expect("pubkey label")
        } else if let Some(open) = label.find('(').filter(|i| !label[..*i].contains(':')) {
            let f = &label[..open];
            let args = split_args(&label[open + 1..label.len() - 1]);
            if f == "pda" {
                // pda(PROGRAM,SEED,...): "#x" is the text x, anything else a key
                let seeds: Vec<Vec<u8>> = args[1..].iter().map(|a| match a.strip_prefix('#') {
                    Some(t) => t.as_bytes().to_vec(),
                    None => self.key(a).to_bytes().to_vec(),
                }).collect();
                let s: Vec<&[u8]> = seeds.iter().map(|x| x.as_slice()).collect();
                let k = Pubkey::find_program_address(&s, &self.key(&args[0])).0;
                self.fwd.borrow_mut().insert(label.into(), k);
                self.rev.borrow_mut().entry(k).or_insert(label.into());
                return k;
            }
            let ks: Vec<Pubkey> = args.iter().map(|a| self.key(a)).collect();
            derive(f, &ks)
        } else {
            let mut h = Sha256::new();
            h.update(b"label:");
            h.update(label.as_bytes());
            Pubkey::new_from_array(h.finalize().into())
        };
        self.fwd.borrow_mut().insert(label.into(), k);
        self.rev.borrow_mut().entry(k).or_insert(label.into());
        if label.starts_with("wm(") {
            // what belongs to a wrapped mint has a name in the results, asked for or not
            for f in ["au", "bp", "mpl"] {
                self.key(&format!("{f}({label})"));
            }
        }
        k
    }
    pub fn name(&self, k: &Pubkey) -> String {
        self.rev
            .borrow()
            .get(k)
            .cloned()
            .unwrap_or_else(|| format!("?{k}"))
    }
    fn opt(&self, label: &str) -> Option<Pubkey> {
        if label.is_empty() {
            None
        } else {
            Some(self.key(label))
        }
    }
    fn name_opt(&self, k: Option<Pubkey>) -> String {
        k.map(|k| self.name(&k)).unwrap_or_default()
    }
}

pub fn ata_program() -> Pubkey {
    Pubkey::from_str("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").unwrap()
}

pub fn derive(f: &str, k: &[Pubkey]) -> Pubkey {
    let tw = spl_token_wrap::id();
    let (seeds, prog): (Vec<Vec<u8>>, Pubkey) = match f {
        "wm" => (vec![b"mint".to_vec(), k[0].as_ref().into(), k[1].as_ref().into()], tw),
        "au" => (vec![b"authority".to_vec(), k[0].as_ref().into()], tw),
        "bp" => (vec![b"backpointer".to_vec(), k[0].as_ref().into()], tw),
        "cp" => (vec![b"canonical_pointer".to_vec(), k[0].as_ref().into()], tw),
        "ata" => (
            vec![k[0].as_ref().into(), k[2].as_ref().into(), k[1].as_ref().into()],
            ata_program(),
        ),
        "mpl" => (
            vec![
                b"metadata".to_vec(),
                mpl_token_metadata::ID.as_ref().into(),
                k[0].as_ref().into(),
            ],
            mpl_token_metadata::ID,
        ),
        "hv" => (
            vec![b"extra-account-metas".to_vec(), k[0].as_ref().into()],
            HOOK_ID,
        ),
        _ => panic!("derivation {f}"),
    };
    let s: Vec<&[u8]> = seeds.iter().map(|x| x.as_slice()).collect();
    Pubkey::find_program_address(&s, &prog).0
}

fn split_args(s: &str) -> Vec<String> {
    let (mut out, mut depth, mut cur) = (vec![], 0, String::new());
    for c in s.chars() {
        match c {
            '(' => depth += 1,
            ')' => depth -= 1,
            ',' if depth == 0 => {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    out.push(cur);
    out
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
fn n(v: &Value, k: &str) -> u64 {
    v.get(k).map(unlimbs).unwrap_or(0)
}
fn nullable(k: Option<Pubkey>) -> MaybeNull<Pubkey> {
    MaybeNull::try_from(k).unwrap_or_default()
}

fn copt(k: Option<Pubkey>) -> PodCOption<Pubkey> {
    k.map(PodCOption::some).unwrap_or(PodCOption::none())
}

fn metadata_of(l: &Labels, v: &Value) -> TokenMetadata {
    TokenMetadata {
        update_authority: nullable(l.opt(s(v, "ua"))),
        mint: l.key(s(v, "mint")),
        name: s(v, "name").into(),
        symbol: s(v, "sym").into(),
        uri: s(v, "uri").into(),
        additional_metadata: v
            .get("kv")
            .and_then(|x| x.as_array())
            .map(|a| {
                a.iter()
                    .map(|e| (s(e, "k").to_string(), subst(l, s(e, "v"))))
                    .collect()
            })
            .unwrap_or_default(),
    }
}

/// `<label>` inside a metadata string stands for the base58 address
fn subst(l: &Labels, t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("<@") {
        out.push_str(&rest[..i]);
        let j = rest[i..].find('>').expect("unterminated <@label>") + i;
        out.push_str(&l.key(&rest[i + 2..j]).to_string());
        rest = &rest[j + 1..];
    }
    out.push_str(rest);
    out
}

/// Concrete account for an abstract one.
pub fn materialize(l: &Labels, v: &Value) -> Account {
    let mut owner = l.key(if s(v, "p").is_empty() { "SYS" } else { s(v, "p") });
    let x = v.get("x").filter(|x| x.is_object()).cloned().unwrap_or(json!({}));
    let mut executable = false;
    let data: Vec<u8> = match s(v, "k") {
        "sys" => {
            owner = Pubkey::default();
            vec![]
        }
        "prog" => {
            owner = solana_sdk_ids::bpf_loader_upgradeable::id();
            executable = true;
            vec![0; 36]
        }
        "mint" => {
            let t22 = s(v, "p") == "T22";
            let md = x.get("md").map(|m| metadata_of(l, m));
            let xs: Vec<String> = x.as_object().unwrap().keys().cloned().collect();
            let mut types: Vec<ExtensionType> = vec![];
            for k in &xs {
                match k.as_str() {
                    "fee" => types.push(ExtensionType::TransferFeeConfig),
                    "clo" => types.push(ExtensionType::MintCloseAuthority),
                    "ct" => types.push(ExtensionType::ConfidentialTransferMint),
                    "das" => types.push(ExtensionType::DefaultAccountState),
                    "nt" => types.push(ExtensionType::NonTransferable),
                    "ib" => types.push(ExtensionType::InterestBearingConfig),
                    "sui" => types.push(ExtensionType::ScaledUiAmount),
                    "gp" => types.push(ExtensionType::GroupPointer),
                    "gmp" => types.push(ExtensionType::GroupMemberPointer),
                    "ctf" => types.push(ExtensionType::ConfidentialTransferFeeConfig),
                    "pd" => types.push(ExtensionType::PermanentDelegate),
                    "hook" => types.push(ExtensionType::TransferHook),
                    "mp" => types.push(ExtensionType::MetadataPointer),
                    "paus" => types.push(ExtensionType::Pausable),
                    "md" | "_" => {}
                    o => panic!("mint extension {o}"),
                }
            }
            assert!(t22 || (types.is_empty() && md.is_none()));
            let mut len = if types.is_empty() && md.is_none() {
                82
            } else {
                ExtensionType::try_calculate_account_len::<spl_token_2022_interface::state::Mint>(
                    &types,
                )
                .unwrap()
                .max(166)
            };
            if let Some(m) = &md {
                len += 4 + m.get_packed_len().unwrap();
                if len == Multisig::LEN {
                    // as the token program does
                    len += 2;
                }
            }
            let mut data = vec![0; len];
            let mut st = PodStateWithExtensionsMut::<PodMint>::unpack_uninitialized(&mut data)
                .unwrap();
            st.base.mint_authority = copt(l.opt(s(v, "auth")));
            st.base.freeze_authority = copt(l.opt(s(v, "frz")));
            st.base.decimals = n(v, "dec") as u8;
            st.base.supply = n(v, "sup").into();
            st.base.is_initialized = true.into();
            if t22 {
                st.init_account_type().unwrap();
            }
            for k in &xs {
                let e = &x[k.as_str()];
                match k.as_str() {
                    "fee" => {
                        let c = st.init_extension::<TransferFeeConfig>(false).unwrap();
                        c.transfer_fee_config_authority = nullable(l.opt(s(e, "auth")));
                        c.withdraw_withheld_authority = nullable(l.opt(s(e, "wauth")));
                        c.withheld_amount = n(e, "wh").into();
                        c.older_transfer_fee = TransferFee {
                            epoch: n(e, "oe").into(),
                            maximum_fee: n(e, "om").into(),
                            transfer_fee_basis_points: (n(e, "ob") as u16).into(),
                        };
                        c.newer_transfer_fee = TransferFee {
                            epoch: n(e, "ne").into(),
                            maximum_fee: n(e, "nm").into(),
                            transfer_fee_basis_points: (n(e, "nb") as u16).into(),
                        };
                    }
                    "clo" => {
                        st.init_extension::<MintCloseAuthority>(false).unwrap().close_authority =
                            nullable(l.opt(e.as_str().unwrap()))
                    }
                    "ct" => {
                        let c = st.init_extension::<ConfidentialTransferMint>(false).unwrap();
                        c.authority = nullable(l.opt(s(e, "auth")));
                        c.auto_approve_new_accounts = b(e, "auto").into();
                        if !s(e, "aud").is_empty() {
                            let k: [u8; 32] = if s(e, "aud") == "COMP-AUD" { comp_auditor() } else { [7u8; 32] };
                            c.auditor_elgamal_pubkey = MaybeNull::try_from(Some(bytemuck::cast(k))).unwrap();
                        }
                    }
                    "das" => {
                        st.init_extension::<DefaultAccountState>(false).unwrap().state =
                            if e.as_str() == Some("frozen") { 2 } else { 1 }
                    }
                    "nt" => {
                        st.init_extension::<NonTransferable>(false).unwrap();
                    }
                    "ib" => {
                        let c = st.init_extension::<InterestBearingConfig>(false).unwrap();
                        c.initialization_timestamp = 1_000.into();
                        c.last_update_timestamp = 2_000.into();
                        c.pre_update_average_rate = 500.into();
                        c.current_rate = 1_000.into();
                    }
                    "sui" => {
                        let c = st.init_extension::<ScaledUiAmountConfig>(false).unwrap();
                        c.multiplier = 1.5.into();
                        c.new_multiplier = 3.0.into();
                    }
                    "gp" => {
                        st.init_extension::<GroupPointer>(false).unwrap();
                    }
                    "gmp" => {
                        st.init_extension::<GroupMemberPointer>(false).unwrap();
                    }
                    "ctf" => {
                        st.init_extension::<ConfidentialTransferFeeConfig>(false).unwrap();
                    }
                    "pd" => {
                        st.init_extension::<PermanentDelegate>(false).unwrap().delegate =
                            nullable(l.opt(e.as_str().unwrap()))
                    }
                    "hook" => {
                        st.init_extension::<TransferHook>(false).unwrap().program_id =
                            nullable(l.opt(e.as_str().unwrap()))
                    }
                    "mp" => {
                        let c = st.init_extension::<MetadataPointer>(false).unwrap();
                        c.authority = nullable(l.opt(s(e, "auth")));
                        c.metadata_address = nullable(l.opt(s(e, "addr")));
                    }
                    "paus" => {
                        let c = st.init_extension::<PausableConfig>(false).unwrap();
                        c.authority = nullable(l.opt(s(e, "auth")));
                        c.paused = b(e, "on").into();
                    }
                    "md" => {
                        st.init_variable_len_extension::<TokenMetadata>(
                            md.as_ref().unwrap(),
                            false,
                        )
                        .unwrap();
                    }
                    _ => {}
                }
            }
            data
        }
        "tok" => {
            let t22 = s(v, "p") == "T22";
            let xs: Vec<String> = x.as_object().unwrap().keys().cloned().collect();
            let types: Vec<ExtensionType> = xs
                .iter()
                .filter(|k| *k != "_")
                .map(|k| match k.as_str() {
                    "io" => ExtensionType::ImmutableOwner,
                    "fa" => ExtensionType::TransferFeeAmount,
                    "hk" => ExtensionType::TransferHookAccount,
                    "cg" => ExtensionType::CpiGuard,
                    "mt" => ExtensionType::MemoTransfer,
                    "nta" => ExtensionType::NonTransferableAccount,
                    "pa" => ExtensionType::PausableAccount,
                    o => panic!("account extension {o}"),
                })
                .collect();
            assert!(t22 || types.is_empty());
            let len = ExtensionType::try_calculate_account_len::<
                spl_token_2022_interface::state::Account,
            >(&types)
            .unwrap();
            let mut data = vec![0; len];
            let mut st = PodStateWithExtensionsMut::<PodAccount>::unpack_uninitialized(&mut data)
                .unwrap();
            st.base.mint = l.key(s(v, "mint"));
            st.base.owner = l.key(s(v, "own"));
            st.base.amount = n(v, "amt").into();
            st.base.delegate = copt(l.opt(s(v, "del")));
            st.base.delegated_amount = n(v, "damt").into();
            st.base.state = match s(v, "st") {
                "frozen" => 2,
                "uninit" => 0,
                _ => 1,
            };
            st.base.close_authority = copt(l.opt(s(v, "clo")));
            if b(v, "nat") {
                st.base.is_native = PodCOption::some(Rent::default().minimum_balance(len).into());
            }
            if t22 {
                st.init_account_type().unwrap();
            }
            for k in &xs {
                let e = &x[k.as_str()];
                match k.as_str() {
                    "io" => {
                        st.init_extension::<ImmutableOwner>(false).unwrap();
                    }
                    "fa" => {
                        st.init_extension::<TransferFeeAmount>(false).unwrap().withheld_amount =
                            unlimbs(e).into()
                    }
                    "hk" => {
                        st.init_extension::<TransferHookAccount>(false).unwrap().transferring =
                            e.as_bool().unwrap().into()
                    }
                    "cg" => {
                        st.init_extension::<CpiGuard>(false).unwrap().lock_cpi =
                            e.as_bool().unwrap().into()
                    }
                    "mt" => {
                        st.init_extension::<MemoTransfer>(false)
                            .unwrap()
                            .require_incoming_transfer_memos = e.as_bool().unwrap().into()
                    }
                    "nta" => {
                        st.init_extension::<NonTransferableAccount>(false).unwrap();
                    }
                    "pa" => {
                        st.init_extension::<PausableAccount>(false).unwrap();
                    }
                    _ => {}
                }
            }
            data
        }
        "msig" => {
            let sg = v["sg"].as_array().unwrap();
            let mut m = Multisig {
                m: n(v, "m") as u8,
                n: sg.len() as u8,
                is_initialized: true,
                signers: [Pubkey::default(); 11],
            };
            for (i, x) in sg.iter().enumerate() {
                m.signers[i] = l.key(x.as_str().unwrap());
            }
            let mut data = vec![0; Multisig::LEN];
            Multisig::pack(m, &mut data).unwrap();
            data
        }
        // backpointer, canonical pointer: 32 bytes that are an address
        "ptr" => {
            let mut d = l.key(s(v, "to")).to_bytes().to_vec();
            let len = n(v, "len") as usize;
            if len > 0 {
                d.resize(len, 0);
            }
            d
        }
        "mpl" => {
            let m = Metadata {
                key: mt::Key::MetadataV1,
                update_authority: l.key(s(v, "ua")),
                mint: l.key(s(v, "mint")),
                name: s(v, "name").into(),
                symbol: s(v, "sym").into(),
                uri: s(v, "uri").into(),
                seller_fee_basis_points: n(v, "sf") as u16,
                creators: v.get("cr").and_then(|c| {
                    b(c, "some").then(|| {
                        c["l"]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|e| mt::Creator {
                                address: l.key(s(e, "a")),
                                verified: b(e, "v"),
                                share: n(e, "s") as u8,
                            })
                            .collect()
                    })
                }),
                primary_sale_happened: b(v, "prim"),
                is_mutable: b(v, "mut"),
                edition_nonce: v
                    .get("nonce")
                    .and_then(|x| x.as_i64())
                    .and_then(|x| (x >= 0).then_some(x as u8)),
                token_standard: match s(v, "std") {
                    "" => None,
                    t => Some(serde_json::from_value(json!(t)).unwrap()),
                },
                collection: v.get("coll").and_then(|c| {
                    b(c, "some").then(|| mt::Collection {
                        verified: b(c, "v"),
                        key: l.key(s(c, "key")),
                    })
                }),
                uses: v.get("uses").and_then(|c| {
                    b(c, "some").then(|| mt::Uses {
                        use_method: serde_json::from_value(json!(s(c, "m"))).unwrap(),
                        remaining: n(c, "r"),
                        total: n(c, "t"),
                    })
                }),
                collection_details: v.get("cd").and_then(|c| {
                    b(c, "some").then(|| mt::CollectionDetails::V1 { size: n(c, "size") })
                }),
                programmable_config: v.get("pc").and_then(|c| {
                    b(c, "some").then(|| mt::ProgrammableConfig::V1 {
                        rule_set: l.opt(s(c, "rs")),
                    })
                }),
            };
            let mut d = borsh::to_vec(&m).unwrap();
            let pad = n(v, "pad") as usize;
            if d.len() < pad {
                d.resize(pad, 0);
            }
            d
        }
        // account of the external metadata programs: mode byte, then TokenMetadata
        "ext" => {
            let mut d = vec![n(v, "mode") as u8];
            if let Some(m) = v.get("md") {
                let m = metadata_of(l, m);
                let mut t = vec![0; m.get_packed_len().unwrap()];
                m.pack_into_slice(&mut t).unwrap();
                d.extend(t);
            }
            d
        }
        // counter of the hook program: count, last amount
        "ctr" => {
            let mut d = n(v, "cnt").to_le_bytes().to_vec();
            d.extend(n(v, "last").to_le_bytes());
            d
        }
        // validation account of the hook program for a mint: extra = counter
        "hval" => {
            let xs: Vec<Pubkey> = v.get("xs").and_then(|x| x.as_array()).map(|a| a.iter().map(|x| l.key(x.as_str().unwrap())).collect()).unwrap_or_default();
            crate::envprogs::validation_data(l.key(s(v, "ctr")), &xs)
        }
        "raw" => {
            let len = n(v, "len") as usize;
            vec![n(v, "fill") as u8; len]
        }
        o => panic!("account kind {o}"),
    };
    let lamports = match v.get("lam") {
        None => {
            if s(v, "k") == "sys" {
                0
            } else {
                Rent::default().minimum_balance(data.len())
            }
        }
        Some(x) => unlimbs(x),
    } + v.get("xlam").map_or(0, |x| unlimbs(x));
    Account {
        lamports,
        data,
        owner,
        executable,
        rent_epoch: u64::MAX,
    }
}

/// the compliance auditor's ElGamal key as documented
fn comp_auditor() -> [u8; 32] {
    use base64::Engine;
    base64::engine::general_purpose::STANDARD
        .decode("yonKhqkoXNvMbN/tU6fjHFhfZuNPpvMj8L55aP2bBG4=")
        .unwrap()
        .try_into()
        .unwrap()
}
fn auditor(k: &[u8]) -> String {
    if k == comp_auditor() {
        "COMP-AUD".into()
    } else {
        digest(k)
    }
}

fn digest(d: &[u8]) -> String {
    let h = Sha256::digest(d);
    h[..6].iter().map(|x| format!("{x:02x}")).collect()
}

pub fn creators_json(l: &Labels, c: &Option<Vec<mt::Creator>>) -> Value {
    json!({
        "some": c.is_some(),
        "l": c.iter().flatten().map(|e| json!({
            "a": l.name(&e.address), "v": e.verified, "s": e.share
        })).collect::<Vec<_>>()
    })
}
fn coll_json(l: &Labels, c: &Option<mt::Collection>) -> Value {
    match c {
        None => json!({"some": false, "v": false, "key": ""}),
        Some(c) => json!({"some": true, "v": c.verified, "key": l.name(&c.key)}),
    }
}
fn uses_json(c: &Option<mt::Uses>) -> Value {
    match c {
        None => json!({"some": false, "m": "", "r": [], "t": []}),
        Some(c) => json!({"some": true, "m": format!("{:?}", c.use_method),
                          "r": limbs(c.remaining as u128), "t": limbs(c.total as u128)}),
    }
}
fn cd_json(c: &Option<mt::CollectionDetails>) -> Value {
    match c {
        None => json!({"some": false, "size": []}),
        Some(mt::CollectionDetails::V1 { size }) => {
            json!({"some": true, "size": limbs(*size as u128)})
        }
        Some(mt::CollectionDetails::V2 { .. }) => json!({"some": true, "size": [-1]}),
    }
}
fn pc_json(l: &Labels, c: &Option<mt::ProgrammableConfig>) -> Value {
    match c {
        None => json!({"some": false, "rs": ""}),
        Some(mt::ProgrammableConfig::V1 { rule_set }) => {
            json!({"some": true, "rs": l.name_opt(*rule_set)})
        }
    }
}

/// What a value under a well-known key means, read with Metaplex' own JSON representation.
fn meaning(l: &Labels, k: &str, v: &str) -> Value {
    let bad = json!({"t": "bad"});
    match k {
        "creators" => match serde_json::from_str::<Vec<mt::Creator>>(v) {
            Ok(c) => json!({"t": "cr", "c": creators_json(l, &Some(c))}),
            Err(_) => bad,
        },
        "collection" => match serde_json::from_str::<mt::Collection>(v) {
            Ok(c) => json!({"t": "coll", "c": coll_json(l, &Some(c))}),
            Err(_) => bad,
        },
        "uses" => match serde_json::from_str::<mt::Uses>(v) {
            Ok(c) => json!({"t": "uses", "c": uses_json(&Some(c))}),
            Err(_) => bad,
        },
        "seller_fee_basis_points" => match v.parse::<u16>() {
            Ok(n) => json!({"t": "num", "c": n}),
            Err(_) => bad,
        },
        "collection_details" => match serde_json::from_str::<mt::CollectionDetails>(v) {
            Ok(c) => json!({"t": "cd", "c": cd_json(&Some(c))}),
            Err(_) => bad,
        },
        "programmable_config" => match serde_json::from_str::<mt::ProgrammableConfig>(v) {
            Ok(c) => json!({"t": "pc", "c": pc_json(l, &Some(c))}),
            Err(_) => bad,
        },
        _ => json!({"t": "str"}),
    }
}

pub fn md_json(l: &Labels, m: &TokenMetadata) -> Value {
    json!({
        "ua": l.name_opt(Option::<Pubkey>::from(m.update_authority)),
        "mint": l.name(&m.mint),
        "name": m.name.trim_end_matches('\0'), "sym": m.symbol.trim_end_matches('\0'),
        "uri": m.uri.trim_end_matches('\0'),
        "nl": m.name.len(), "sl": m.symbol.len(), "ul": m.uri.len(),
        "kv": m.additional_metadata.iter().map(|(k, v)| json!({
            "k": k, "v": v, "j": meaning(l, k, v)
        })).collect::<Vec<_>>(),
    })
}

fn ext_key(t: ExtensionType) -> Option<&'static str> {
    Some(match t {
        ExtensionType::TransferFeeConfig => "fee",
        ExtensionType::MintCloseAuthority => "clo",
        ExtensionType::ConfidentialTransferMint => "ct",
        ExtensionType::DefaultAccountState => "das",
        ExtensionType::NonTransferable => "nt",
        ExtensionType::InterestBearingConfig => "ib",
        ExtensionType::ScaledUiAmount => "sui",
        ExtensionType::GroupPointer => "gp",
        ExtensionType::GroupMemberPointer => "gmp",
        ExtensionType::ConfidentialTransferFeeConfig => "ctf",
        ExtensionType::PermanentDelegate => "pd",
        ExtensionType::TransferHook => "hook",
        ExtensionType::MetadataPointer => "mp",
        ExtensionType::TokenMetadata => "md",
        ExtensionType::Pausable => "paus",
        ExtensionType::ImmutableOwner => "io",
        ExtensionType::TransferFeeAmount => "fa",
        ExtensionType::TransferHookAccount => "hk",
        ExtensionType::CpiGuard => "cg",
        ExtensionType::MemoTransfer => "mt",
        ExtensionType::NonTransferableAccount => "nta",
        ExtensionType::PausableAccount => "pa",
        _ => return None,
    })
}

fn project_mint(l: &Labels, a: &Account) -> Option<Value> {
    let st = PodStateWithExtensions::<PodMint>::unpack(&a.data).ok()?;
    let mut x = Map::new();
    for t in st.get_extension_types().ok()? {
        let Some(k) = ext_key(t) else {
            x.insert(format!("{t:?}"), json!(true));
            continue;
        };
        let e = match k {
            "fee" => {
                let c = st.get_extension::<TransferFeeConfig>().ok()?;
                let f = |t: &TransferFee| {
                    (
                        u64::from(t.epoch).min(2_000_000_000),
                        limbs(u64::from(t.maximum_fee) as u128),
                        u16::from(t.transfer_fee_basis_points),
                    )
                };
                let (oe, om, ob) = f(&c.older_transfer_fee);
                let (ne, nm, nb) = f(&c.newer_transfer_fee);
                json!({"auth": l.name_opt(Option::from(c.transfer_fee_config_authority)),
                    "wauth": l.name_opt(Option::from(c.withdraw_withheld_authority)),
                    "wh": limbs(u64::from(c.withheld_amount) as u128),
                    "oe": oe, "om": om, "ob": ob, "ne": ne, "nm": nm, "nb": nb})
            }
            "clo" => json!(l.name_opt(Option::from(
                st.get_extension::<MintCloseAuthority>().ok()?.close_authority
            ))),
            "ct" => {
                let c = st.get_extension::<ConfidentialTransferMint>().ok()?;
                json!({"auth": l.name_opt(Option::from(c.authority)),
                    "auto": bool::from(c.auto_approve_new_accounts),
                    "aud": Option::<solana_zk_sdk_pod::encryption::elgamal::PodElGamalPubkey>::from(c.auditor_elgamal_pubkey).map(|k| auditor(bytemuck::bytes_of(&k))).unwrap_or_default()})
            }
            "das" => json!(
                match st.get_extension::<DefaultAccountState>().ok()?.state {
                    2 => "frozen",
                    1 => "init",
                    _ => "uninit",
                }
            ),
            "pd" => json!(l.name_opt(Option::from(
                st.get_extension::<PermanentDelegate>().ok()?.delegate
            ))),
            "hook" => json!(l.name_opt(Option::from(
                st.get_extension::<TransferHook>().ok()?.program_id
            ))),
            "mp" => {
                let c = st.get_extension::<MetadataPointer>().ok()?;
                json!({"auth": l.name_opt(Option::from(c.authority)),
                    "addr": l.name_opt(Option::from(c.metadata_address))})
            }
            "paus" => {
                let c = st.get_extension::<PausableConfig>().ok()?;
                json!({"auth": l.name_opt(Option::from(c.authority)), "on": bool::from(c.paused)})
            }
            "md" => match st.get_variable_len_extension::<TokenMetadata>() {
                Ok(m) => md_json(l, &m),
                Err(_) => json!({"bad": true}),
            },
            _ => json!(true),
        };
        x.insert(k.into(), e);
    }
    Some(json!({
        "k": "mint", "p": l.name(&a.owner), "lam": limbs(a.lamports as u128),
        "auth": l.name_opt(st.base.mint_authority.ok_or(()).ok()),
        "frz": l.name_opt(st.base.freeze_authority.ok_or(()).ok()),
        "dec": st.base.decimals,
        "sup": limbs(u64::from(st.base.supply) as u128),
        "len": a.data.len(),
        "x": x,
    }))
}

fn project_tok(l: &Labels, a: &Account) -> Option<Value> {
    let st = PodStateWithExtensions::<PodAccount>::unpack(&a.data).ok()?;
    let mut x = Map::new();
    for t in st.get_extension_types().ok()? {
        let Some(k) = ext_key(t) else {
            x.insert(format!("{t:?}"), json!(true));
            continue;
        };
        let e = match k {
            "fa" => limbs(
                u64::from(st.get_extension::<TransferFeeAmount>().ok()?.withheld_amount) as u128,
            ),
            "hk" => json!(bool::from(
                st.get_extension::<TransferHookAccount>().ok()?.transferring
            )),
            "cg" => json!(bool::from(st.get_extension::<CpiGuard>().ok()?.lock_cpi)),
            "mt" => json!(bool::from(
                st.get_extension::<MemoTransfer>()
                    .ok()?
                    .require_incoming_transfer_memos
            )),
            _ => json!(true),
        };
        x.insert(k.into(), e);
    }
    Some(json!({
        "k": "tok", "p": l.name(&a.owner), "lam": limbs(a.lamports as u128),
        "mint": l.name(&st.base.mint), "own": l.name(&st.base.owner),
        "amt": limbs(u64::from(st.base.amount) as u128),
        "del": l.name_opt(st.base.delegate.ok_or(()).ok()),
        "damt": limbs(u64::from(st.base.delegated_amount) as u128),
        "st": match st.base.state { 2 => "frozen", 1 => "init", _ => "uninit" },
        "clo": l.name_opt(st.base.close_authority.ok_or(()).ok()),
        "nat": st.base.is_native.is_some(),
        "len": a.data.len(),
        "x": x,
    }))
}

/// Abstract account for a concrete one.
pub fn project(l: &Labels, a: &Account) -> Value {
    let lam = limbs(a.lamports as u128);
    if a.owner == Pubkey::default() && a.data.is_empty() && !a.executable {
        return json!({"k": "sys", "p": "SYS", "lam": lam});
    }
    if a.executable {
        return json!({"k": "prog", "p": l.name(&a.owner), "lam": lam});
    }
    if a.owner == spl_token::id() || a.owner == spl_token_2022_interface::id() {
        if a.data.len() == Multisig::LEN {
            if let Ok(m) = Multisig::unpack(&a.data) {
                return json!({"k": "msig", "p": l.name(&a.owner), "lam": lam, "m": m.m,
                    "sg": m.signers[..m.n as usize].iter().map(|x| l.name(x)).collect::<Vec<_>>()});
            }
        }
        if let Some(v) = project_tok(l, a).or_else(|| project_mint(l, a)) {
            return v;
        }
    }
    if a.owner == spl_token_wrap::id() && a.data.len() >= 32 {
        let k = Pubkey::new_from_array(a.data[..32].try_into().unwrap());
        return json!({"k": "ptr", "p": "TW", "lam": lam, "to": l.name(&k), "len": a.data.len()});
    }
    if a.owner == mpl_token_metadata::ID {
        if let Ok(m) = Metadata::safe_deserialize(&a.data) {
            return json!({
                "k": "mpl", "p": "MPL", "lam": lam,
                "ua": l.name(&m.update_authority), "mint": l.name(&m.mint),
                "name": m.name.trim_end_matches('\0'), "sym": m.symbol.trim_end_matches('\0'),
                "uri": m.uri.trim_end_matches('\0'),
                "nl": m.name.len(), "sl": m.symbol.len(), "ul": m.uri.len(),
                "tl": {"n": m.name.trim_end_matches('\0').len(), "s": m.symbol.trim_end_matches('\0').len(),
                       "u": m.uri.trim_end_matches('\0').len()},
                "sf": m.seller_fee_basis_points,
                "cr": creators_json(l, &m.creators),
                "prim": m.primary_sale_happened, "mut": m.is_mutable,
                "nonce": m.edition_nonce.map(|x| x as i32).unwrap_or(-1),
                "std": m.token_standard.map(|t| format!("{t:?}")).unwrap_or_default(),
                "coll": coll_json(l, &m.collection), "uses": uses_json(&m.uses),
                "cd": cd_json(&m.collection_details), "pc": pc_json(l, &m.programmable_config),
                "len": a.data.len(),
            });
        }
    }
    if (a.owner == EXT_ID || a.owner == EXT2_ID) && !a.data.is_empty() {
        let md = TokenMetadata::unpack_from_slice(&a.data[1..]).ok();
        let mut v = json!({"k": "ext", "p": l.name(&a.owner), "lam": lam, "mode": a.data[0]});
        if let Some(m) = md {
            v["md"] = md_json(l, &m);
        }
        return v;
    }
    if a.owner == HOOK_ID && a.data.len() == 16 {
        return json!({"k": "ctr", "p": "HOOK", "lam": lam,
            "cnt": u64::from_le_bytes(a.data[..8].try_into().unwrap()),
            "last": limbs(u64::from_le_bytes(a.data[8..].try_into().unwrap()) as u128)});
    }
    if a.owner == HOOK_ID {
        if let Some(k) = crate::envprogs::validation_keys(&a.data) {
            let xs: Vec<String> = k.iter().map(|x| l.name(x)).collect();
            return json!({"k": "hval", "p": "HOOK", "lam": lam, "xs": xs, "h": digest(&a.data)});
        }
    }
    json!({"k": "raw", "p": l.name(&a.owner), "lam": lam, "len": a.data.len(), "h": digest(&a.data)})
}
