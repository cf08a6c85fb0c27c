//! Executes scripts: one JSON line per world or step in, one JSON line per event out.
use {
    crate::{
        native,
        world::{limbs, materialize, project, unlimbs, Labels, EXT2_ID, EXT_ID, HOOK_ID},
    },
    mollusk_svm::{
        program::{
            create_keyed_account_for_builtin_program, create_program_account_loader_v3, keyed_account_for_system_program, loader_keys,
            Builtin,
        },
        Mollusk,
    },
    serde_json::{json, Map, Value},
    solana_account::Account,
    solana_instruction::{error::InstructionError, AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    std::{
        collections::{BTreeMap, HashSet},
        io::{BufRead, Write},
    },
};

pub const EVIL_ID: Pubkey = Pubkey::new_from_array([0xA4; 32]);

fn fixture(name: &str) -> Vec<u8> {
    let repo = std::env::var("TW_REPO").unwrap_or_else(|_| "/repo".into());
    std::fs::read(format!("{repo}/program/tests/fixtures/{name}.so")).expect("fixture")
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cust {
    Std,
    Comp,
    NoExt,
}

pub fn vm(cust: Cust) -> Mollusk {
    let mut m = Mollusk::default();
    m.compute_budget.compute_unit_limit = std::env::var("TW_CU").ok().and_then(|x| x.parse().ok()).unwrap_or(100_000_000);
    let tw = spl_token_wrap::id();
    if let (Cust::Std, Ok(so)) = (cust, std::env::var("TW_SBF")) {
        // differential mode: the program as compiled for the chain
        m.add_program_with_loader_and_elf(&tw, &loader_keys::LOADER_V3, &std::fs::read(so).unwrap());
    } else {
        m.program_cache.add_builtin(Builtin {
            program_id: tw,
            name: "token_wrap",
            entrypoint: match cust {
                Cust::Std => native::token_wrap::Entrypoint::vm as _,
                Cust::Comp => native::compliance::Entrypoint::vm as _,
                Cust::NoExt => native::no_ext::Entrypoint::vm as _,
            },
        });
    }
    for (id, name, e) in [
        (HOOK_ID, "hook", native::hook::Entrypoint::vm as _),
        (EXT_ID, "ext", native::ext_meta::Entrypoint::vm as _),
        (EXT2_ID, "ext2", native::liar_meta::Entrypoint::vm as _),
        (EVIL_ID, "evil", native::evil::Entrypoint::vm as _),
    ] {
        m.program_cache.add_builtin(Builtin { program_id: id, name, entrypoint: e });
    }
    mollusk_svm_programs_token::token::add_program(&mut m);
    mollusk_svm_programs_token::associated_token::add_program(&mut m);
    m.add_program_with_loader_and_elf(
        &spl_token_2022_interface::id(),
        &loader_keys::LOADER_V3,
        &fixture("spl_token_2022"),
    );
    m.add_program_with_loader_and_elf(
        &mpl_token_metadata::ID,
        &loader_keys::LOADER_V3,
        &fixture("mpl_token_metadata"),
    );
    m
}

const PROGS: [&str; 11] = [
    "SYS", "SPL", "T22", "TW", "ATAP", "MPL", "HOOK", "EXT", "EXT2", "EVIL", "RENT",
];

fn fixed_account(m: &Mollusk, label: &str, k: &Pubkey) -> Option<Account> {
    Some(match label {
        "SYS" => keyed_account_for_system_program().1,
        "RENT" => m.sysvars.keyed_account_for_rent_sysvar().1,
        "TW" if std::env::var("TW_SBF").is_ok() => create_program_account_loader_v3(k),
        "TW" | "HOOK" | "EXT" | "EXT2" | "EVIL" => {
            create_keyed_account_for_builtin_program(k, label).1
        }
        l if PROGS.contains(&l) => create_program_account_loader_v3(k),
        _ => return None,
    })
}

pub struct World {
    pub cust: Cust,
    pub epoch: u64,
    pub accts: BTreeMap<String, Account>,
}

fn strs(v: &Value, k: &str) -> Vec<String> {
    v.get(k)
        .and_then(|x| x.as_array())
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

pub fn err_name(e: &InstructionError) -> Value {
    match e {
        InstructionError::Custom(n) => json!(format!("C{n}")),
        o => json!(format!("{o:?}").split('(').next().unwrap()),
    }
}

fn amount(v: &Value) -> u64 {
    v.get("n").map(unlimbs).unwrap_or(0)
}

/// default writability per position; the rest (signers, hook accounts) is read-only, except
/// what `wr` names
fn roles(op: &str) -> (&'static [u8], Vec<usize>) {
    match op {
        "create" => (&[0], vec![0, 1]),
        "wrap" => (&[1], vec![0, 1, 5, 7]),
        "unwrap" => (&[2], vec![0, 1, 6, 7]),
        "close" => (&[3], vec![0, 1]),
        "sync22" => (&[4], vec![0]),
        "syncspl" => (&[5], vec![0, 1]),
        "canon" => (&[6], vec![1]),
        _ => (&[], vec![]),
    }
}

pub fn is_program_op(op: &str) -> bool {
    !roles(op).0.is_empty() || op == "raw"
}

fn names_all(l: &Labels, ix: &Instruction) -> Vec<String> {
    ix.accounts.iter().map(|m| l.name(&m.pubkey)).collect()
}

fn build(l: &Labels, st: &Value, op: &str) -> Instruction {
    let (tag, wr) = roles(op);
    let a = strs(st, "a");
    let s: HashSet<String> = strs(st, "s").into_iter().collect();
    let extra_w: HashSet<String> = strs(st, "wr").into_iter().collect();
    let ro: HashSet<String> = strs(st, "ro").into_iter().collect();
    let mut data = tag.to_vec();
    match op {
        "create" => data.push(st["idem"].as_bool().unwrap() as u8),
        "wrap" | "unwrap" => data.extend(amount(st).to_le_bytes()),
        "canon" => data.extend(l.key(st["to"].as_str().unwrap()).to_bytes()),
        "raw" => data = st["data"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => {}
    }
    // a transaction has one writable flag per account, however often it is passed
    let by_role: HashSet<&String> = wr.iter().filter_map(|i| a.get(*i)).collect();
    let metas = a
        .iter()
        .map(|x| AccountMeta {
            pubkey: l.key(x),
            is_signer: s.contains(x),
            is_writable: (op == "raw" || by_role.contains(x) || extra_w.contains(x))
                && !ro.contains(x)
                && !PROGS.contains(&x.as_str()),
        })
        .collect();
    Instruction { program_id: spl_token_wrap::id(), accounts: metas, data }
}

/// The same request made with the crate's own builder, if it can express it.
fn build_with_crate(l: &Labels, st: &Value, op: &str) -> Option<(Instruction, Value)> {
    let a = strs(st, "a");
    let s: HashSet<String> = strs(st, "s").into_iter().collect();
    let wr: HashSet<String> = strs(st, "wr").into_iter().collect();
    let key = |x: &String| l.key(x);
    let (mut src, mut own) = (None, None);
    let (mut ms, mut rest): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let args: Vec<String> = match op {
        "create" if a.len() == 5 && a[3] == "SYS" => vec![a[0].clone(), a[1].clone(), a[2].clone(), a[4].clone()],
        "wrap" | "unwrap" if a.len() >= 9 => {
            (ms, rest) = a[9..].iter().cloned().partition(|x| s.contains(x));
            if ms.is_empty() && !s.contains(&a[8]) {
                return None;
            }
            a[..9].to_vec()
        }
        "close" if a.len() == 6 && a[5] == "T22" => a[..5].to_vec(),
        "sync22" if (4..=6).contains(&a.len()) && a[3] == "T22" => {
            src = a.get(4).cloned();
            own = a.get(5).cloned();
            a[..3].to_vec()
        }
        "syncspl" if (7..=9).contains(&a.len()) && a[4] == "MPL" && a[5] == "SYS" && a[6] == "RENT" => {
            src = a.get(7).cloned();
            own = a.get(8).cloned();
            a[..4].to_vec()
        }
        "canon" if a.len() == 4 && a[3] == "SYS" => a[..3].to_vec(),
        _ => return None,
    };
    let ks: Vec<Pubkey> = args.iter().map(key).collect();
    let mk: Vec<Pubkey> = ms.iter().map(key).collect();
    let to = st.get("to").and_then(|x| x.as_str()).map(|x| l.key(x)).unwrap_or_default();
    let mut ix = crate::api::builder(op, &spl_token_wrap::id(), &ks, &mk, amount(st), st["idem"].as_bool().unwrap_or(false),
        src.as_ref().map(key), own.as_ref().map(key), to);
    let e = |x: &Option<String>| x.clone().unwrap_or_default();
    let req = json!({"f": op, "a": args, "ms": ms, "src": e(&src), "own": e(&own), "metas": crate::api::metas_json(l, &ix)});
    for x in rest {
        let k = key(&x);
        ix.accounts.push(if wr.contains(&x) { AccountMeta::new(k, false) } else { AccountMeta::new_readonly(k, false) });
    }
    Some((ix, req))
}

/// Instructions of the environment: ordinary use of the token programs.
fn build_env(l: &Labels, st: &Value, op: &str) -> Option<Instruction> {
    use spl_token_2022_interface::instruction as ti;
    let a: Vec<Pubkey> = strs(st, "a").iter().map(|x| l.key(x)).collect();
    let sg: Vec<Pubkey> = strs(st, "sg").iter().map(|x| l.key(x)).collect();
    let sgr: Vec<&Pubkey> = sg.iter().collect();
    let p = st.get("p").and_then(|x| x.as_str()).map(|x| l.key(x)).unwrap_or_default();
    let n = amount(st);
    let dec = st.get("dec").and_then(|x| x.as_u64()).unwrap_or(0) as u8;
    Some(match op {
        "t.transfer" => {
            let mut ix = ti::transfer_checked(&p, &a[0], &a[1], &a[2], &a[3], &sgr, n, dec).ok()?;
            // hook accounts
            for x in strs(st, "x") {
                let w = x.starts_with("ctr");
                let k = l.key(&x);
                ix.accounts.push(if w { AccountMeta::new(k, false) } else { AccountMeta::new_readonly(k, false) });
            }
            ix
        }
        "t.mint" => ti::mint_to(&p, &a[0], &a[1], &a[2], &sgr, n).ok()?,
        "t.burn" => ti::burn(&p, &a[0], &a[1], &a[2], &sgr, n).ok()?,
        "t.approve" => ti::approve(&p, &a[0], &a[1], &a[2], &sgr, n).ok()?,
        "t.revoke" => ti::revoke(&p, &a[0], &a[1], &sgr).ok()?,
        "t.close" => ti::close_account(&p, &a[0], &a[1], &a[2], &sgr).ok()?,
        "t.freeze" => ti::freeze_account(&p, &a[0], &a[1], &a[2], &sgr).ok()?,
        "t.thaw" => ti::thaw_account(&p, &a[0], &a[1], &a[2], &sgr).ok()?,
        "t.setauth" => {
            let ty = match st["ty"].as_str().unwrap() {
                "mint" => ti::AuthorityType::MintTokens,
                "freeze" => ti::AuthorityType::FreezeAccount,
                "owner" => ti::AuthorityType::AccountOwner,
                "close" => ti::AuthorityType::CloseAccount,
                "mintclose" => ti::AuthorityType::CloseMint,
                "pd" => ti::AuthorityType::PermanentDelegate,
                o => panic!("authority {o}"),
            };
            let to = st["to"].as_str().filter(|x| !x.is_empty()).map(|x| l.key(x));
            ti::set_authority(&p, &a[0], to.as_ref(), ty, &a[1], &sgr, ).ok()?
        }
        "t.ata" => spl_associated_token_account_interface::instruction::create_associated_token_account(
            &a[0], &a[1], &a[2], &p,
        ),
        "t.setfee" => spl_token_2022_interface::extension::transfer_fee::instruction::set_transfer_fee(
            &p, &a[0], &a[1], &sgr, st["bps"].as_u64().unwrap() as u16, n,
        ).ok()?,
        "t.harvest" => spl_token_2022_interface::extension::transfer_fee::instruction::harvest_withheld_tokens_to_mint(
            &p, &a[0], &[&a[1]],
        ).ok()?,
        "t.pause" => spl_token_2022_interface::extension::pausable::instruction::pause(&p, &a[0], &a[1], &sgr).ok()?,
        "t.resume" => spl_token_2022_interface::extension::pausable::instruction::resume(&p, &a[0], &a[1], &sgr).ok()?,
        "s.transfer" => solana_system_interface::instruction::transfer(&a[0], &a[1], n),
        _ => return None,
    })
}

pub struct Exec {
    pub l: Labels,
    vms: Vec<(Cust, Mollusk)>,
}

impl Exec {
    pub fn new() -> Self {
        Exec { l: Labels::new(), vms: vec![] }
    }
    fn vm(&mut self, c: Cust) -> usize {
        if let Some(i) = self.vms.iter().position(|(x, _)| *x == c) {
            return i;
        }
        self.vms.push((c, vm(c)));
        self.vms.len() - 1
    }
    pub fn world(&mut self, v: &Value) -> World {
        let cust = match v.get("cust").and_then(|x| x.as_str()) {
            Some("comp") => Cust::Comp,
            Some("noext") => Cust::NoExt,
            _ => Cust::Std,
        };
        let mut accts = BTreeMap::new();
        if let Some(o) = v["a"].as_object() {
            // every label gets its name before anything is projected
            for k in o.keys() {
                self.l.key(k);
            }
            for (k, a) in o {
                if !PROGS.contains(&k.as_str()) {
                    accts.insert(k.clone(), materialize(&self.l, a));
                }
            }
        }
        World { cust, epoch: v.get("epoch").and_then(|x| x.as_u64()).unwrap_or(0), accts }
    }
    pub fn shown(&self, w: &World) -> Value {
        let mut m = Map::new();
        for (k, a) in &w.accts {
            let v = project(&self.l, a);
            if v["k"] == "sys" && a.lamports == 0 {
                continue;
            }
            m.insert(k.clone(), v);
        }
        Value::Object(m)
    }
    pub fn run_ix(&mut self, w: &mut World, ix: &Instruction) -> (Result<(), InstructionError>, Value, Vec<String>) {
        let vi = self.vm(w.cust);
        let m = &mut self.vms[vi].1;
        m.sysvars.clock.epoch = w.epoch;
        let mut keys: Vec<Pubkey> = vec![];
        for k in ix.accounts.iter().map(|a| a.pubkey).chain([ix.program_id]) {
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        let accts: Vec<(Pubkey, Account)> = keys
            .iter()
            .map(|k| {
                let name = self.l.name(k);
                let a = fixed_account(m, &name, k)
                    .or_else(|| w.accts.get(&name).cloned())
                    .unwrap_or(Account { rent_epoch: u64::MAX, ..Account::default() });
                (*k, a)
            })
            .collect();
        let r = m.process_instruction(ix, &accts);
        let mut d = Map::new();
        let mut hid = vec![];
        if r.raw_result.is_ok() {
            for (k, new) in &r.resulting_accounts {
                let old = &accts.iter().find(|(x, _)| x == k).unwrap().1;
                if old.lamports == new.lamports && old.data == new.data && old.owner == new.owner {
                    continue;
                }
                let name = self.l.name(k);
                let (po, pn) = (project(&self.l, old), project(&self.l, new));
                if po == pn {
                    hid.push(name.clone());
                } else {
                    d.insert(name.clone(), pn);
                }
                w.accts.insert(name, new.clone());
            }
        }
        (r.raw_result, Value::Object(d), hid)
    }
    /// one step; the event to report. A step marked "fork" leaves the world as it was.
    pub fn step(&mut self, w: &mut World, st: &Value) -> Value {
        if st.get("fork").and_then(|x| x.as_bool()) == Some(true) {
            let (a, e) = (w.accts.clone(), w.epoch);
            let r = self.step1(w, st);
            w.accts = a;
            w.epoch = e;
            return r;
        }
        self.step1(w, st)
    }
    fn step1(&mut self, w: &mut World, st: &Value) -> Value {
        let op = st["op"].as_str().unwrap().to_string();
        let mut ev = st.as_object().unwrap().clone();
        ev.insert("t".into(), json!("ev"));
        for k in ["a", "s", "x", "sg", "wr", "ro"] {
            for x in strs(st, k) {
                self.l.key(&x);
            }
        }
        if op == "t.ata" {
            let a = strs(st, "a");
            self.l.key(&format!("ata({},{},{})", a[1], a[2], st["p"].as_str().unwrap()));
        }
        if let Some(n) = ev.get("n") {
            let n = limbs(unlimbs(n) as u128);
            ev.insert("n".into(), n);
        }
        match op.as_str() {
            "set" => {
                let mut d = Map::new();
                for (k, a) in st["d"].as_object().unwrap() {
                    self.l.key(k);
                    let a = materialize(&self.l, a);
                    d.insert(k.clone(), project(&self.l, &a));
                    w.accts.insert(k.clone(), a);
                }
                ev.insert("ok".into(), json!(true));
                ev.insert("d".into(), Value::Object(d));
            }
            "epoch" => {
                w.epoch = st["e"].as_u64().unwrap();
                ev.insert("ok".into(), json!(true));
                ev.insert("d".into(), json!({}));
            }
            _ => {
                let made = if st["b"] == json!(true) { build_with_crate(&self.l, st, &op) } else { None };
                let ix = if let Some((ix, req)) = made {
                    // what the transaction really says about its accounts
                    let names = |f: &dyn Fn(&AccountMeta) -> bool| -> Vec<String> {
                        let mut v: Vec<String> = ix.accounts.iter().filter(|m| f(m)).map(|m| self.l.name(&m.pubkey)).collect();
                        v.dedup();
                        v
                    };
                    let (sg, wr) = (names(&|m| m.is_signer), names(&|m| m.is_writable));
                    ev.insert("a".into(), json!(names_all(&self.l, &ix)));
                    let ro: Vec<String> = roles(&op).1.iter().filter_map(|i| ix.accounts.get(*i)).map(|m| self.l.name(&m.pubkey))
                        .filter(|x| !wr.contains(x)).collect();
                    ev.insert("s".into(), json!(sg));
                    ev.insert("wr".into(), json!(wr));
                    ev.insert("ro".into(), json!(ro));
                    ev.insert("req".into(), req);
                    Some(ix)
                } else if is_program_op(&op) {
                    if op == "raw" {
                        ev.insert("wr".into(), st["a"].clone());
                    }
                    Some(build(&self.l, st, &op))
                } else {
                    build_env(&self.l, st, &op)
                };
                match ix {
                    None => {
                        ev.insert("ok".into(), json!(false));
                        ev.insert("err".into(), json!("Unbuildable"));
                        ev.insert("d".into(), json!({}));
                    }
                    Some(ix) => {
                        let (r, d, hid) = self.run_ix(w, &ix);
                        ev.insert("ok".into(), json!(r.is_ok()));
                        ev.insert("err".into(), r.as_ref().err().map(err_name).unwrap_or(json!("")));
                        ev.insert("d".into(), d);
                        if !hid.is_empty() {
                            ev.insert("hid".into(), json!(hid));
                        }
                    }
                }
            }
        }
        Value::Object(ev)
    }
}

/// scripts from one file, events to another
pub fn main(input: &str, output: &str) {
    let mut ex = Exec::new();
    let mut w = World { cust: Cust::Std, epoch: 0, accts: BTreeMap::new() };
    let mut out = std::io::BufWriter::new(std::fs::File::create(output).expect("output"));
    let inp = std::io::BufReader::new(std::fs::File::open(input).expect("input"));
    for line in inp.lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("json");
        let o = if v["t"] == "world" {
            w = ex.world(&v);
            json!({"t": "reset", "id": v["id"], "tag": v.get("tag").cloned().unwrap_or(json!("")),
                "cust": v.get("cust").cloned().unwrap_or(json!("std")), "epoch": w.epoch, "a": ex.shown(&w)})
        } else {
            ex.step(&mut w, &v)
        };
        writeln!(out, "{o}").unwrap();
    }
    out.flush().unwrap();
}
