#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, meta.json and the demo crate)
from the definitions in tools/seeds/*.py.  Author's tool; no check uses it."""
import json, os, pathlib, shutil, subprocess, sys, tempfile, glob, importlib.util
V = pathlib.Path(os.environ.get('VERIF_ROOT', '/verif')); T = V/'tools'
SEEDS = {}
def load():
    for f in sorted(glob.glob(str(T/'seeds/*.py'))):
        s = importlib.util.spec_from_file_location('s', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for k, v in m.SEEDS.items():
            assert k not in SEEDS, k
            SEEDS[k] = v
HEAD = '#![allow(dead_code, unused_imports, unused_variables, unused_mut)]\n'
MODS = {'dex': ['abi', 'model', 'svm', 'world', 'h'], 'unit': [], 'pool': ['svm', 'env'], 'proxy': ['abi', 'model', 'svm', 'world', 'h', 'chain', 'px'], 'owner': [], 'common': ['svm']}
SPL = 'spl-token = { version = "%s", features = ["no-entrypoint"] }\nserde = { version = "1", features = ["derive"] }\n'
DEX = 'serum_dex = { path = "/repo/dex", default-features = false, features = ["program", "no-entrypoint"] }\n'
DEPS = {
 'dex': DEX + 'solana-program = "1.10.3"\nbytemuck = "1.4.0"\n' + SPL % '3.2.0',
 'unit': DEX + 'solana-program = "1.10.3"\nbytemuck = "1.4.0"\n' + SPL % '3.2.0',
 'pool': 'serum-pool = { path = "/repo/pool" }\nsolana-program = "1.10.3"\nbincode = "1.3"\n' + SPL % '3.2.0',
 'proxy': DEX + 'serum-dex-permissioned = { path = "/repo/dex/permissioned" }\nsolana-program = "1.8.0"\nbytemuck = "1.4.0"\n' + SPL % '3.1.1',
 'common': 'serum-common = { path = "/repo/common", features = ["program"] }\nspl-token-2 = { package = "spl-token", version = "=2.0.8", default-features = false, features = ["no-entrypoint"] }\nsolana-program = "1.10.3"\n' + SPL % '3.2.0',
 'owner': 'serum_assert_owner = { path = "/repo/assert-owner" }\nsolana-program = "1.10.3"\n',
}
def cut(t, a, b):
    i = t.index(a); return t[i:t.index(b, i)]
def px():
    t = (V/'proxycheck/src/hist.rs').read_text()
    return fix("""use crate::chain::{self, *};
use crate::abi::{self, Sd};
use crate::model::{Order, Ot, St};
use crate::world::{disc, enc_order, ro, si, wr, Act as DexAct, Cfg, Env, Mk};
use serde::{Deserialize, Serialize};
use solana_program::{instruction::AccountMeta, pubkey::Pubkey, system_program, sysvar};
use std::collections::BTreeMap;
use crate::svm::{self, key, Acct, Outcome, World};
""" + cut(t, 'const NU', 'fn ord()') + cut(t, 'pub struct X', '    fn cand') + '}\n' + cut(t, 'fn m_lot', 'fn norm')
).replace('    fn new(', '    pub fn new(').replace('    fn oo(', '    pub fn oo(').replace('    fn honest(', '    pub fn honest(').replace('    bid: bool', '    pub bid: bool') + """
pub fn start(ready: u8) -> X {
    crate::world::PID.set(dex_id()).unwrap();
    svm::register_program(dex_id(), crate::world::dex);
    let c = Case { coin_lot: 10, pc_lot: 100, perm: 1, chain: vec![Mw::Pda], ready, steps: vec![] };
    let mut x = X::new(&c);
    CHAIN.with(|h| *h.borrow_mut() = vec![Mw::Pda]);
    for i in 0..6u8 {
        if ready >> i & 1 == 1 {
            if !ask(&mut x, i / 3, i % 3, Rq::Init { bump: 0 }).ok() { println!("no account"); std::process::exit(3) }
        }
    }
    x
}
pub fn chain_of(c: &[Mw]) { CHAIN.with(|h| *h.borrow_mut() = c.to_vec()) }
pub fn the_chain() -> Vec<Mw> { CHAIN.with(|h| h.borrow().clone()) }
pub fn raw(x: &X, m: u8, u: u8, rq: Rq) -> (Vec<AccountMeta>, Vec<u8>) {
    x.honest(&Step { m, u, rq, twist: vec![], side: 0 }, &the_chain())
}
pub fn send(x: &mut X, ms: &[AccountMeta], d: &[u8]) -> Outcome { x.w.exec_raw(&proxy_id(), ms, d, proxy) }
pub fn ask(x: &mut X, m: u8, u: u8, rq: Rq) -> Outcome {
    let (ms, d) = raw(x, m, u, rq);
    send(x, &ms, &d)
}
pub fn order(bid: bool, price: u64, qty: u64, ot: u8) -> Rq {
    Rq::New(Ord_ { bid, price, qty, budget: 1, ot, st: 0, limit: 100, cid: 0, legacy: false }, 9)
}
"""
def strip_admin(t):
    a = cut(t, '/// The admin-controlled example', '/// Writes data[8..]')
    t = t.replace(a, '')
    return t.replace('            admin\n', '            plain\n')
def fix(src):
    return src.replace('use svm::', 'use crate::svm::').replace('svm::bad!', 'bad!').replace('dexcheck::', 'crate::')
def kit(kind, d):
    src = d/'src'; src.mkdir(parents=True)
    for m in MODS[kind]:
        if m == 'svm':
            t = (V/'svm/src/lib.rs').read_text().replace('pub mod harness;\n', '')
        elif m == 'h':
            t = (T/'kit/h.rs').read_text()
        elif m in ('abi', 'model', 'world'):
            t = fix((V/f'dexcheck/src/{m}.rs').read_text())
        elif m == 'env':
            t = fix(strip_admin((V/'poolcheck/src/env.rs').read_text())).replace('\nuse serde', '\nuse crate::svm;\nuse serde', 1)
        elif m == 'chain':
            t = fix((V/'proxycheck/src/chain.rs').read_text()).replace('\nuse ', '\nuse crate::svm;\nuse ', 1)
        elif m == 'px':
            t = px()
        (src/f'{m}.rs').write_text(t)
    (d/'Cargo.toml').write_text('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + DEPS[kind] +
      '\n[profile.dev]\ndebug = 0\noverflow-checks = false\nincremental = false\n')
    if (T/f'kit/{kind}.lock').exists(): shutil.copy(T/f'kit/{kind}.lock', d/'Cargo.lock')
DEMO = '''#!/bin/bash
# Exit 0 while the property holds on this scenario, non-zero when it is broken.
. /opt/vp/env.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
here="$(cd "$(dirname "$0")" && pwd)"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$work/"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" CARGO_INCREMENTAL=0
cargo run -q --offline --locked --manifest-path "$work/Cargo.toml"
'''
USE = {'dex': 'use abi::*; use h::*; use model::*; use world::*; use solana_program::pubkey::Pubkey;\n',
       'proxy': 'use abi::*; use h::{must, need}; use chain::*; use px::*; use svm::key; use solana_program::pubkey::Pubkey;\n',
       'pool': 'use env::*; use svm::key; use solana_program::pubkey::Pubkey;\nfn must(c: bool, what: &str) { if !c { println!("BROKEN: {}", what); std::process::exit(1); } }\nfn need(c: bool, what: &str) { if !c { println!("step failed: {}", what); std::process::exit(3); } }\n',
       'unit': 'fn must(c: bool, what: &str) { if !c { println!("BROKEN: {}", what); std::process::exit(1); } }\nfn need(c: bool, what: &str) { if !c { println!("step failed: {}", what); std::process::exit(3); } }\n',
       'common': 'use svm::*; use solana_program::pubkey::Pubkey;\nfn must(c: bool, what: &str) { if !c { println!("BROKEN: {}", what); std::process::exit(1); } }\nfn need(c: bool, what: &str) { if !c { println!("step failed: {}", what); std::process::exit(3); } }\n',
       'owner': 'fn must(c: bool, what: &str) { if !c { println!("BROKEN: {}", what); std::process::exit(1); } }\nfn need(c: bool, what: &str) { if !c { println!("step failed: {}", what); std::process::exit(3); } }\n'}
DEMO_CRANK = '''#!/bin/bash
# Exit 0 while the property holds on this scenario, non-zero when it is broken.
. /opt/vp/env.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
here="$(cd "$(dirname "$0")" && pwd)"
(cd /repo && cargo build -q --offline --workspace --bin crank) 2>/dev/null || exit 4
exec timeout 120 python3 -B "$here/demo.py" "${CARGO_TARGET_DIR:-/repo/target}/debug/crank"
'''
def make(sid):
    s = SEEDS[sid]
    d = V/'seeded'/sid
    if d.exists(): shutil.rmtree(d)
    d.mkdir(parents=True)
    kind = s.get('kit', 'dex')
    if kind == 'crank':
        shutil.copy(T/'kit/crank/node.py', d/'node.py')
        (d/'demo.py').write_text('from node import *\n' + s['demo'].lstrip() + "shutil.rmtree(work, ignore_errors=True)\nos._exit(0)\n")
        (d/'demo.sh').write_text(DEMO_CRANK)
    else:
      kit(kind, d)
      main = HEAD + ''.join(f'mod {m};\n' for m in MODS[kind]) + USE[kind] + s['demo']
      (d/'src/main.rs').write_text(main)
      (d/'demo.sh').write_text(DEMO)
    os.chmod(d/'demo.sh', 0o755)
    (d/'meta.json').write_text(json.dumps({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1)+'\n')
    # patch
    wt = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', wt+'/r'])
        r = pathlib.Path(wt)/'r'
        for f, old, new in s['edits']:
            t = (r/f).read_text()
            n = 1
            if isinstance(old, tuple): old, n = old
            c = t.count(old)
            assert c == n, f'{sid}: {f}: {c} occurrences of {old!r}'
            (r/f).write_text(t.replace(old, new))
        p = subprocess.check_output(['git', '-C', str(r), 'diff', '--no-color'])
        (d/'patch.diff').write_bytes(p)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
    print('made', sid)
if __name__ == '__main__':
    load()
    for sid in (sys.argv[1:] or sorted(SEEDS)):
        make(sid)
