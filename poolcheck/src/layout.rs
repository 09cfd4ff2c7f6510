//! The byte form of pool records, requests and baskets (C40).
use crate::env::*;
use borsh::schema::{BorshSchema, BorshSchemaContainer, Definition, Fields};
use borsh::{BorshDeserialize, BorshSerialize};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serum_pool::schema::{
    Address, AssetInfo, Basket, InitializePoolRequest, ParamDesc, PoolAction, PoolRequest, PoolRequestInner, PoolState,
};
use solana_program::pubkey::Pubkey;
use svm::harness::{Report, Violation};
use svm::{ensure, key};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Val {
    Record { keys: Vec<u8>, assets: Vec<(u8, u8)>, nonce: u8, params: Vec<(u8, bool)>, name: String, fee: u32, admin: Option<u8>, custom: Vec<u8> },
    Init { nonce: u8, n: u8, name: String, fee: u32, custom: Vec<u8> },
    Act { exec: bool, a: Action },
    Basket(Vec<i64>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mut {
    Set { at: u16, to: u8 },
    Bit { at: u16, bit: u8 },
    Cut(u16),
    Grow(Vec<u8>),
    Drop { at: u16, n: u8 },
    /// 32-bit word: lengths and rates
    Word { at: u16, to: u32 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub v: Val,
    pub muts: Vec<Vec<Mut>>,
}

fn text() -> impl Strategy<Value = String> {
    prop_oneof![3 => "[a-z ]{0,12}".boxed(), 2 => prop::collection::vec(any::<char>(), 0..8).prop_map(|v| v.into_iter().collect::<String>()).boxed(), 1 => Just(String::new()).boxed()]
}
fn word() -> impl Strategy<Value = u64> {
    prop_oneof![2 => 0u64..5, 2 => any::<u64>(), 2 => (0u32..64).prop_map(|b| 1u64 << b), 1 => Just(u64::MAX)]
}
fn bytes(n: usize) -> impl Strategy<Value = Vec<u8>> {
    prop::collection::vec(any::<u8>(), 0..n)
}
pub fn case() -> impl Strategy<Value = Case> {
    let rec = (prop::collection::vec(any::<u8>(), 4), prop::collection::vec(any::<(u8, u8)>(), 0..6), any::<u8>(), prop::collection::vec(any::<(u8, bool)>(), 0..4), text(), any::<u32>(), any::<Option<u8>>(), bytes(24))
        .prop_map(|(keys, assets, nonce, params, name, fee, admin, custom)| Val::Record { keys, assets, nonce, params, name, fee, admin, custom });
    let act = prop_oneof![word().prop_map(Action::Create), word().prop_map(Action::Redeem), prop::collection::vec(word(), 0..6).prop_map(Action::Swap)];
    let v = prop_oneof![
        3 => rec,
        2 => (any::<u8>(), any::<u8>(), text(), any::<u32>(), bytes(24)).prop_map(|(nonce, n, name, fee, custom)| Val::Init { nonce, n, name, fee, custom }),
        3 => (any::<bool>(), act).prop_map(|(exec, a)| Val::Act { exec, a }),
        1 => prop::collection::vec(any::<i64>(), 0..6).prop_map(Val::Basket),
    ];
    let at = || prop_oneof![3 => any::<u16>(), 2 => 0u16..24];
    let m = prop_oneof![
        3 => (at(), prop_oneof![Just(0u8), Just(1), Just(2), Just(3), any::<u8>()]).prop_map(|(at, to)| Mut::Set { at, to }),
        3 => (at(), 0u8..8).prop_map(|(at, bit)| Mut::Bit { at, bit }),
        3 => any::<u16>().prop_map(Mut::Cut),
        2 => prop::collection::vec(any::<u8>(), 1..9).prop_map(Mut::Grow),
        1 => (at(), 1u8..9).prop_map(|(at, n)| Mut::Drop { at, n }),
        1 => (at(), prop_oneof![0u32..8, any::<u32>()]).prop_map(|(at, to)| Mut::Word { at, to }),
    ];
    (v, prop::collection::vec(prop::collection::vec(m, 1..3), 0..8)).prop_map(|(v, muts)| Case { v, muts })
}

fn k(n: u8) -> Pubkey {
    match n {
        0 => Pubkey::default(),
        1 => spl_token::ID,
        2 => Pubkey::new(&[255; 32]),
        _ => key("wire", n as u64),
    }
}
fn st(v: &Val) -> Option<St> {
    match v {
        Val::Record { keys, assets, nonce, params, name, fee, admin, custom } => Some(St {
            mint: k(keys[0]),
            assets: assets.iter().map(|(a, b)| (k(*a), k(*b))).collect(),
            signer: k(keys[1]),
            nonce: *nonce,
            params: params.iter().map(|(a, b)| (k(*a), *b as u8)).collect(),
            name: name.clone(),
            lqd: k(keys[2]),
            ini: k(keys[3]),
            fee_rate: *fee,
            admin: admin.map(k),
            custom: custom.clone(),
        }),
        _ => None,
    }
}
fn lib_state(s: &St) -> PoolState {
    PoolState {
        tag: Default::default(),
        pool_token_mint: s.mint.into(),
        assets: s.assets.iter().map(|(m, v)| AssetInfo { mint: m.into(), vault_address: v.into() }).collect(),
        vault_signer: s.signer.into(),
        vault_signer_nonce: s.nonce,
        account_params: s.params.iter().map(|(a, w)| ParamDesc { address: a.into(), writable: *w != 0 }).collect(),
        name: s.name.clone(),
        lqd_fee_vault: s.lqd.into(),
        initializer_fee_vault: s.ini.into(),
        fee_rate: s.fee_rate,
        admin_key: s.admin.map(Address::from),
        custom_state: s.custom.clone(),
    }
}
pub fn from_lib(s: &PoolState) -> St {
    let p = |a: &Address| -> Pubkey { a.clone().into() };
    St {
        mint: p(&s.pool_token_mint),
        assets: s.assets.iter().map(|a| (p(&a.mint), p(&a.vault_address))).collect(),
        signer: p(&s.vault_signer),
        nonce: s.vault_signer_nonce,
        params: s.account_params.iter().map(|a| (p(&a.address), a.writable as u8)).collect(),
        name: s.name.clone(),
        lqd: p(&s.lqd_fee_vault),
        ini: p(&s.initializer_fee_vault),
        fee_rate: s.fee_rate,
        admin: s.admin_key.as_ref().map(p),
        custom: s.custom_state.clone(),
    }
}
fn lib_request(v: &Val) -> Option<PoolRequest> {
    let inner = match v {
        Val::Init { nonce, n, name, fee, custom } => PoolRequestInner::Initialize(InitializePoolRequest { vault_signer_nonce: *nonce, assets_length: *n, pool_name: name.clone(), fee_rate: *fee, custom_data: custom.clone() }),
        Val::Act { exec, a } => {
            let a = match a {
                Action::Create(n) => PoolAction::Create(*n),
                Action::Redeem(n) => PoolAction::Redeem(*n),
                Action::Swap(v) => PoolAction::Swap(v.clone()),
            };
            if *exec {
                PoolRequestInner::Execute(a)
            } else {
                PoolRequestInner::GetBasket(a)
            }
        }
        _ => return None,
    };
    Some(PoolRequest { tag: Default::default(), inner })
}
fn request_val(r: &PoolRequest) -> Val {
    let a = |exec, a: &PoolAction| Val::Act {
        exec,
        a: match a {
            PoolAction::Create(n) => Action::Create(*n),
            PoolAction::Redeem(n) => Action::Redeem(*n),
            PoolAction::Swap(v) => Action::Swap(v.clone()),
        },
    };
    match &r.inner {
        PoolRequestInner::Initialize(i) => Val::Init { nonce: i.vault_signer_nonce, n: i.assets_length, name: i.pool_name.clone(), fee: i.fee_rate, custom: i.custom_data.clone() },
        PoolRequestInner::GetBasket(x) => a(false, x),
        PoolRequestInner::Execute(x) => a(true, x),
    }
}
pub fn encode_basket(v: &[i64]) -> Vec<u8> {
    let mut b = (v.len() as u32).to_le_bytes().to_vec();
    for x in v {
        b.extend_from_slice(&x.to_le_bytes());
    }
    b
}

/// Independent reader of requests; the whole of `d` must be used.
pub fn read_request(d: &[u8]) -> Result<Val, String> {
    let mut r = Rd(d);
    if r.u64()? != REQ_TAG {
        return Err("tag".into());
    }
    let v = match r.u8()? {
        0 => {
            let (nonce, n) = (r.u8()?, r.u8()?);
            let l = r.u32()? as usize;
            let name = String::from_utf8(r.take(l)?.to_vec()).map_err(|e| e.to_string())?;
            let fee = r.u32()?;
            let l = r.u32()? as usize;
            Val::Init { nonce, n, name, fee, custom: r.take(l)?.to_vec() }
        }
        t @ (1 | 2) => Val::Act {
            exec: t == 2,
            a: match r.u8()? {
                0 => Action::Create(r.u64()?),
                1 => Action::Redeem(r.u64()?),
                2 => {
                    let n = r.u32()?;
                    Action::Swap((0..n).map(|_| r.u64()).collect::<Result<_, _>>()?)
                }
                x => return Err(format!("action {}", x)),
            },
        },
        x => return Err(format!("request {}", x)),
    };
    if r.0.is_empty() {
        Ok(v)
    } else {
        Err("left over".into())
    }
}
/// Independent reader of records: strict about flags; tells what is left over.
fn read_record(d: &[u8]) -> Result<(St, usize), String> {
    let s = read_state(d)?;
    if s.params.iter().any(|p| p.1 > 1) {
        return Err("flag".into());
    }
    let used = write_state(&s).len();
    Ok((s, d.len() - used))
}
fn read_basket(d: &[u8]) -> Result<Vec<i64>, String> {
    let mut r = Rd(d);
    let n = r.u32()?;
    let v = (0..n).map(|_| Ok(r.u64()? as i64)).collect::<Result<Vec<_>, String>>()?;
    if r.0.is_empty() {
        Ok(v)
    } else {
        Err("left over".into())
    }
}

/// Reads bytes with nothing but the published schema: returns the leaves.
fn walk(c: &BorshSchemaContainer, decl: &str, r: &mut Rd, out: &mut Vec<Vec<u8>>) -> Result<(), String> {
    let w = match decl {
        "nil" => return Ok(()),
        "bool" | "u8" | "i8" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" => 4,
        "u64" | "i64" => 8,
        "u128" | "i128" => 16,
        "string" => {
            let n = r.u32()? as usize;
            out.push(r.take(n)?.to_vec());
            return Ok(());
        }
        _ => 0,
    };
    if w > 0 {
        out.push(r.take(w)?.to_vec());
        return Ok(());
    }
    match c.definitions.get(decl).ok_or_else(|| format!("the schema does not define {}", decl))? {
        Definition::Array { length, elements } => {
            for _ in 0..*length {
                walk(c, elements, r, out)?;
            }
        }
        Definition::Sequence { elements } => {
            let n = r.u32()?;
            out.push(n.to_le_bytes().to_vec());
            for _ in 0..n {
                walk(c, elements, r, out)?;
            }
        }
        Definition::Tuple { elements } => {
            for e in elements {
                walk(c, e, r, out)?;
            }
        }
        Definition::Enum { variants } => {
            let t = r.u8()?;
            out.push(vec![t]);
            let v = variants.get(t as usize).ok_or_else(|| format!("the schema has no variant {} of {}", t, decl))?;
            walk(c, &v.1, r, out)?;
        }
        Definition::Struct { fields } => match fields {
            Fields::NamedFields(f) => {
                for (_, d) in f {
                    walk(c, d, r, out)?;
                }
            }
            Fields::UnnamedFields(f) => {
                for d in f {
                    walk(c, d, r, out)?;
                }
            }
            Fields::Empty => {}
        },
    }
    Ok(())
}
fn schema<T: BorshSchema>(what: &str, b: &[u8]) -> Result<(), Violation> {
    let c = T::schema_container();
    let mut r = Rd(b);
    let mut out = vec![];
    if let Err(e) = walk(&c, &T::declaration(), &mut r, &mut out) {
        svm::bad!(format!("{}:schema", what), "the published schema cannot read {:?}: {}", b, e);
    }
    ensure!(r.0.is_empty(), format!("{}:schema", what), "the published schema reads only {} of {} bytes of {:?}", b.len() - r.0.len(), b.len(), b);
    Ok(())
}
/// What the schema says each leaf is, for a record: sizes in order.
fn schema_record(s: &St, b: &[u8]) -> Result<(), Violation> {
    let c = PoolState::schema_container();
    let mut out = vec![];
    let _ = walk(&c, &PoolState::declaration(), &mut Rd(b), &mut out);
    let mut want: Vec<Vec<u8>> = vec![STATE_TAG.to_le_bytes().to_vec()];
    let addr = |w: &mut Vec<Vec<u8>>, k: &Pubkey| w.extend(k.to_bytes().iter().map(|x| vec![*x]));
    addr(&mut want, &s.mint);
    want.push((s.assets.len() as u32).to_le_bytes().to_vec());
    for (m, v) in &s.assets {
        addr(&mut want, m);
        addr(&mut want, v);
    }
    addr(&mut want, &s.signer);
    want.push(vec![s.nonce]);
    want.push((s.params.len() as u32).to_le_bytes().to_vec());
    for (a, w) in &s.params {
        addr(&mut want, a);
        want.push(vec![*w]);
    }
    want.push(s.name.as_bytes().to_vec());
    addr(&mut want, &s.lqd);
    addr(&mut want, &s.ini);
    want.push(s.fee_rate.to_le_bytes().to_vec());
    want.push(vec![s.admin.is_some() as u8]);
    if let Some(a) = &s.admin {
        addr(&mut want, a);
    }
    want.push((s.custom.len() as u32).to_le_bytes().to_vec());
    want.extend(s.custom.iter().map(|x| vec![*x]));
    ensure!(out == want, "record:schema", "read with the published schema, {:?} gives {:?}", s, out);
    Ok(())
}

fn mutate(b: &[u8], ms: &[Mut]) -> Vec<u8> {
    let mut d = b.to_vec();
    for m in ms {
        let n = d.len();
        match m {
            Mut::Set { at, to } if n > 0 => d[*at as usize % n] = *to,
            Mut::Bit { at, bit } if n > 0 => d[*at as usize % n] ^= 1 << bit,
            Mut::Cut(at) if n > 0 => d.truncate(*at as usize % n),
            Mut::Grow(x) => d.extend_from_slice(x),
            Mut::Drop { at, n: k } if n > 0 => {
                let a = *at as usize % n;
                d.drain(a..(a + *k as usize).min(n));
            }
            Mut::Word { at, to } if n >= 4 => {
                let a = *at as usize % (n - 3);
                d[a..a + 4].copy_from_slice(&to.to_le_bytes());
            }
            _ => {}
        }
    }
    d
}

fn parse_agree(b: &[u8], rep: &mut Report) -> Result<(), Violation> {
    rep.evals += 1;
    // as a record
    let mut rest = b;
    let lib = PoolState::deserialize(&mut rest).ok().map(|s| (from_lib(&s), rest.len()));
    let own = read_record(b).ok();
    ensure!(lib == own, "record:parse", "record bytes {:?} read as {:?} with left over, expected {:?}", b, lib, own);
    rep.label(if own.is_some() { "record read" } else { "record refused" });
    // as a request
    let lib = PoolRequest::try_from_slice(b).ok().map(|r| request_val(&r));
    let own = read_request(b).ok();
    ensure!(lib == own, "request:parse", "request bytes {:?} read as {:?}, expected {:?}", b, lib, own);
    rep.label(if own.is_some() { "request read" } else { "request refused" });
    let lib = Basket::try_from_slice(b).ok().map(|x| x.quantities);
    let own = read_basket(b).ok();
    ensure!(lib == own, "basket:parse", "basket bytes {:?} read as {:?}, expected {:?}", b, lib, own);
    Ok(())
}

pub fn check(c: &Case) -> Result<Report, Violation> {
    let mut rep = Report::default();
    let fail = |e: std::io::Error| Violation::new("encode", e.to_string());
    let bytes = match &c.v {
        Val::Record { .. } => {
            let s = st(&c.v).unwrap();
            let want = write_state(&s);
            let got = lib_state(&s).try_to_vec().map_err(fail)?;
            ensure!(got == want, "record:bytes", "{:?} is written as {:?}, expected {:?}", s, got, want);
            let mut fixed = vec![0xa5u8; want.len() + 7];
            lib_state(&s).serialize(&mut &mut fixed[..]).map_err(fail)?;
            ensure!(fixed[..want.len()] == want[..] && fixed[want.len()..].iter().all(|x| *x == 0xa5), "record:bytes", "{:?} written into a larger account: {:?}", s, fixed);
            let back = PoolState::try_from_slice(&want).map_err(|e| Violation::new("record:parse", e.to_string()))?;
            ensure!(from_lib(&back) == s && back == lib_state(&s), "record:parse", "{:?} reads back as {:?}", s, from_lib(&back));
            schema::<PoolState>("record", &want)?;
            schema_record(&s, &want)?;
            rep.label("record");
            want
        }
        Val::Basket(q) => {
            let want = encode_basket(q);
            let got = Basket { quantities: q.clone() }.try_to_vec().map_err(fail)?;
            ensure!(got == want, "basket:bytes", "{:?} is written as {:?}", q, got);
            schema::<Basket>("basket", &want)?;
            rep.label("basket");
            want
        }
        v => {
            let want = match v {
                Val::Init { nonce, n, name, fee, custom } => init_data(*nonce, *n, name, *fee, custom),
                Val::Act { exec, a } => action_data(*exec, a),
                _ => unreachable!(),
            };
            let lib = lib_request(v).unwrap();
            let got = lib.try_to_vec().map_err(fail)?;
            ensure!(got == want, "request:bytes", "{:?} is written as {:?}, expected {:?}", v, got, want);
            let back = PoolRequest::try_from_slice(&want).map_err(|e| Violation::new("request:parse", e.to_string()))?;
            ensure!(request_val(&back) == *v && back == lib, "request:parse", "{:?} reads back as {:?}", v, request_val(&back));
            schema::<PoolRequest>("request", &want)?;
            rep.label("request");
            want
        }
    };
    rep.hit(&format!("{:?}", c.v));
    parse_agree(&bytes, &mut rep)?;
    for m in &c.muts {
        let b = mutate(&bytes, m);
        parse_agree(&b, &mut rep)?;
        if b != bytes {
            rep.hit(&b);
        }
    }
    Ok(rep)
}
