SEEDS = {}
CP='common/src/program.rs'; CC='common/src/client/mod.rs'
SEEDS['m01-burn-unsigned'] = dict(prop='C42', kit='common',
 needs='a burn whose authority is an address derived from seeds',
 breaks='the burn helper ignores the seeds, so a derived authority cannot burn',
 edits=[(CP, '''        token_instruction::mint_to(&spl_token::ID, mint.key, to.key, authority.key, &[], amount)?;
    solana_sdk''','''        token_instruction::mint_to(&spl_token::ID, mint.key, to.key, authority.key, &[], amount)?;
    solana_sdk'''),(CP, '''            token.clone(),
            mint.clone(),
            authority.clone(),
            tok_program.clone(),
        ],
        signer_seeds,
    )''','''            token.clone(),
            mint.clone(),
            authority.clone(),
            tok_program.clone(),
        ],
        if authority.is_signer { signer_seeds } else { &[] },
    )''')],
 demo='''use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::AccountMeta, system_program};
fn pid() -> Pubkey { key("prog", 1) }
fn run(p: &Pubkey, a: &[AccountInfo], _: &[u8]) -> ProgramResult {
    let (_, b) = Pubkey::find_program_address(&[b"till"], p);
    serum_common::program::invoke_burn_tokens(&a[0], &a[1], &a[2], &a[3], &[&[b"till", &[b]]], 7)
}
fn main() {
    let (till, _) = Pubkey::find_program_address(&[b"till"], &pid());
    let mut w = World::new();
    w.add(Acct { key: till, owner: system_program::ID, lamports: 1, data: vec![], executable: false });
    w.add_mint(key("mint", 0), 100, Some(till));
    w.add_token(key("wallet", 0), key("mint", 0), till, 100);
    let m = [AccountMeta::new(key("wallet", 0), false), AccountMeta::new(key("mint", 0), false), AccountMeta::new_readonly(till, false), AccountMeta::new_readonly(spl_token::ID, false)];
    must(w.exec_raw(&pid(), &m, &[], run).ok() && w.token_balance(&key("wallet", 0)) == 93, "the derived authority could not burn");
}''')
SEEDS['m02-url-lowercase'] = dict(prop='C43', kit='crank',
 needs='a cluster address with capital letters (an access token, say)',
 breaks='the address used is not the one given',
 edits=[(CC, '''            url if url.contains("http") => Ok(Cluster::Custom(s.to_owned())),''','''            url if url.contains("http") => Ok(Cluster::Custom(url.to_owned())),''')],
 demo='''
(pf, pk), (mf, mk) = keyfile('payer'), keyfile('minter')
n = Node({})
n.url += '/Token/AbC'
need(run(n, 'mint', '--payer', pf, '--signer', mf, '--mint-pubkey', b58(K['coin_mint']), '--quantity', 5) == 0, 'minted')
need(n.paths, 'the node was asked')
must(set(n.paths) == {'/Token/AbC'}, 'asked at %s' % n.paths[0])
''')
SEEDS['m03-mainnet-beta'] = dict(prop='C43', kit='crank',
 needs='a custom address that mentions http in its middle only, or a near-name',
 breaks='names that merely start like a cluster name select it',
 edits=[(CC, '''            "l" | "localnet" => Ok(Cluster::Localnet),''','''            "l" | "localnet" => Ok(Cluster::Localnet),
            name if name.trim() == "debug" => Ok(Cluster::Debug),''')],
 demo='''
(pf, pk), (mf, mk) = keyfile('payer'), keyfile('minter')
class N: url = ' debug'
import subprocess
r = subprocess.run([sys.argv[1], ' debug', 'mint', '--payer', pf, '--signer', mf, '--mint-pubkey', b58(K['coin_mint']), '--quantity', '5'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
must(r.returncode == 2 and b'Cluster must be' in r.stdout, 'an unknown name was taken for a cluster')
''')
SEEDS['m03-mainnet-beta']['needs']='a cluster name with blanks around it'
SEEDS['m03-mainnet-beta']['breaks']='a text that is no cluster name selects a cluster'
