CK, CR = 'dex/crank/src/lib.rs', 'common/src/client/rpc.rs'
SEEDS = {}
DRAIN = '''
    p = keeper(n, 2, 10, '--num-accounts', A)
    for i in range(12):
        time.sleep(1)
        if count(n) == 0: break
    need(p.poll() is None, 'the keeper runs'); p.kill()
    must(count(n) == 0, '%d events are still pending after 12 passes of the keeper' % count(n))
'''
SEEDS['k01-keeper-newest-first'] = dict(prop='C29', kit='crank',
 needs='pending events that wrap around the ring and involve more accounts than one transaction takes',
 breaks='the keeper never gets the oldest events processed: the queue is stuck',
 edits=[(CK, '''            let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);
            let mut used_accounts = BTreeSet::new();
            for account in accounts {
                used_accounts.insert(account);
                if used_accounts.len() >= num_accounts {
                    break;
                }
            }
            let orders''', '''            let accounts = seg1.iter().chain(seg0.iter()).map(|event| event.owner);
            let mut used_accounts = BTreeSet::new();
            for account in accounts {
                used_accounts.insert(account);
                if used_accounts.len() >= num_accounts {
                    break;
                }
            }
            let orders''')],
 demo='''
for head in (0, 120):
    n = Node(exchange(128, head, [(key('oo', i), i) for i in range(24)]))
''' + DRAIN.replace('A)', '8)'))
SEEDS['k02-keeper-byte-order'] = dict(prop='C29', kit='crank',
 needs='several accounts whose byte order differs from the order the exchange searches in',
 breaks='the exchange does not find some accounts the keeper passes, so their events are never processed',
 edits=[(CK, '''                account_metas.push(AccountMeta::new(pubkey, false));
            }
            for pubkey in [
                &market_keys.market,''', '''                account_metas.push(AccountMeta::new(pubkey, false));
            }
            account_metas.sort_by_key(|meta| meta.pubkey);
            for pubkey in [
                &market_keys.market,''')],
 demo='''
for k in range(2):
    n = Node(exchange(128, 60 * k, [(key('oo', k, i), i) for i in range(20)]))
''' + DRAIN.replace('A)', '20)'))
SEEDS['k03-monitor-one-piece'] = dict(prop='C29', kit='crank',
 needs='pending events that wrap around the end of the ring',
 breaks='the queue monitor reports fewer events than are pending',
 edits=[(CK, '''        let (_header, seg0, seg1) = parse_event_queue(&inner).unwrap();
        let len = seg0.len() + seg1.len();
        format!''', '''        let (_header, pending, _) = parse_event_queue(&inner).unwrap();
        let len = pending.len();
        format!''')],
 demo='''
import socket
for head in (5, 126):
    n = Node(exchange(128, head, [(key('oo', i), i) for i in range(7)]))
    s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
    p = spawn(n, 'monitor-queue', '--dex-program-id', b58(PID), '--market', b58(K['market']), '--port', port)
    v = None
    for i in range(50):
        time.sleep(0.2)
        try: v = json.loads(urllib.request.urlopen('http://127.0.0.1:%d/length' % port).read())['length']; break
        except OSError: pass
    p.kill()
    need(v is not None, 'the monitor answers')
    must(v == 7, 'the monitor reports %d of 7 pending events' % v)
''')
SEEDS['k04-mint-new-owner'] = dict(prop='C39', kit='crank',
 needs='minting to a new account with a mint authority other than the payer',
 breaks='the new token account belongs to the mint authority instead of the payer',
 edits=[(CR, '''        &recip_keypair.pubkey(),
        mint,
        &payer.pubkey(),
    )?;''', '''        &recip_keypair.pubkey(),
        mint,
        &minting_key.pubkey(),
    )?;''')],
 demo='''
(pf, pk), (mf, mk) = keyfile('payer'), keyfile('minter')
n = Node({})
need(run(n, 'mint', '--payer', pf, '--signer', mf, '--mint-pubkey', b58(K['coin_mint']), '--quantity', 5) == 0, 'minted')
init = [(a, d) for t in n.sent for p, a, d in t if p == TOKEN and d[0] in (1, 16, 18)]
need(len(init) == 1, 'one token account made')
a, d = init[0]
must((a[2] if d[0] == 1 else d[1:33]) == pk, 'the new token account is not the payer's')
'''.replace("payer's'", "payer\\'s'"))
SEEDS['k05-send-unconfirmed'] = dict(prop='C39', kit='crank',
 needs='a transaction that is refused when it is executed',
 breaks='client calls report success although nothing happened',
 edits=[(CR, '''    Ok(client.send_and_confirm_transaction_with_spinner_and_config(
        txn,
        CommitmentConfig::confirmed(),
        RpcSendTransactionConfig {
            skip_preflight: true,
            ..RpcSendTransactionConfig::default()
        },
    )?)''', '''    let signature = client.send_transaction_with_config(
        txn,
        RpcSendTransactionConfig {
            skip_preflight: true,
            ..RpcSendTransactionConfig::default()
        },
    )?;
    // wait until it is processed
    client.poll_for_signature_with_commitment(&signature, CommitmentConfig::confirmed())?;
    Ok(signature)''')],
 demo='''
(pf, pk), (mf, mk) = keyfile('payer'), keyfile('minter')
args = 'mint', '--payer', pf, '--signer', mf, '--mint-pubkey', b58(K['coin_mint']), '--quantity', 5
n = Node({})
need(run(n, *args) == 0, 'minted')
n = Node({})
n.fail = {'InstructionError': [2, {'Custom': 4}]}
must(run(n, *args) != 0, 'a refused transaction was reported as done')
''')
SEEDS['k06-list-default-lots'] = dict(prop='C39', kit='crank',
 needs='listing a market with a quote lot size stated and no base lot size, or the reverse',
 breaks='the listed market does not have the lot size requested',
 edits=[(CK, '''                coin_lot_size.unwrap_or(1_000_000),
                pc_lot_size.unwrap_or(10_000),''', '''                coin_lot_size.unwrap_or(1_000_000),
                coin_lot_size.and(pc_lot_size).unwrap_or(10_000),''')],
 demo='''
pf, pk = keyfile('payer')
for coin, pc in ((7, 9), (None, None), (7, None), (None, 9)):
    n = Node({})
    args = ['list-market', pf, b58(PID), '--coin-mint', b58(K['coin_mint']), '--pc-mint', b58(K['pc_mint'])]
    if coin: args += ['--coin-lot-size', coin]
    if pc: args += ['--pc-lot-size', pc]
    need(run(n, *args) == 0, 'listed')
    d = [d for t in n.sent for p, a, d in t if p == PID and d[:5] == b'\\\\0' * 5]
    need(len(d) == 1, 'one market')
    must(struct.unpack_from('<QQ', d[0], 5) == (coin or 1000000, pc or 10000), 'asked for lots of %s and %s' % (coin, pc))
'''.replace("\\\\0", "\\0"))
SEEDS['k07-keeper-assumes-landed'] = dict(prop='C29', kit='crank',
 needs='a transaction of the keeper that the node takes but never lands, with no new events meanwhile',
 breaks='the keeper takes the unchanged queue for one it has already dealt with and never tries again',
 edits=[(CK, '''        .unwrap_or(std::time::Instant::now());

    loop {
        thread::sleep(time::Duration::from_millis(1000));

        let loop_start''', '''        .unwrap_or(std::time::Instant::now());
    let mut last_cranked_queue: Vec<u8> = Vec::new();

    loop {
        thread::sleep(time::Duration::from_millis(1000));

        let loop_start'''), (CK, '''        if event_q_len == 0 {
            continue;
        } else if''', '''        if event_q_len == 0 || last_cranked_queue == event_q_data {
            continue;
        } else if'''), (CK, '''            pool.join();
            last_cranked_at = std::time::Instant::now();''', '''            pool.join();
            last_cranked_queue = event_q_data.clone();
            last_cranked_at = std::time::Instant::now();''')],
 demo='''
n = Node(exchange(128, 9, [(key('oo', i), i) for i in range(24)]))
take = n.call
lose = [2]
def call(m, p):
    if m == 'sendTransaction' and lose[0]:
        lose[0] -= 1
        return b58(key('lost', lose[0]) * 2)
    return take(m, p)
n.call = call
if True:
''' + DRAIN.replace('A)', '8)') + '''
need(lose[0] == 0, 'transactions were lost')
''')
SEEDS['k08-lost-is-done'] = dict(prop='C39', kit='crank',
 needs='a transaction the node takes but that expires without landing',
 breaks='client calls report success although nothing happened',
 edits=[(CR, '''    Ok(client.send_and_confirm_transaction_with_spinner_and_config(
        txn,
        CommitmentConfig::confirmed(),
        RpcSendTransactionConfig {
            skip_preflight: true,
            ..RpcSendTransactionConfig::default()
        },
    )?)''', '''    let sent = client.send_and_confirm_transaction_with_spinner_and_config(
        txn,
        CommitmentConfig::confirmed(),
        RpcSendTransactionConfig {
            skip_preflight: true,
            ..RpcSendTransactionConfig::default()
        },
    );
    match sent {
        Ok(signature) => Ok(signature),
        // the transaction itself failed
        Err(e) if e.get_transaction_error().is_some() => Err(e.into()),
        // could not be followed up: it was handed over, report its signature
        Err(e) => txn.signatures.first().copied().ok_or_else(|| e.into()),
    }''')],
 demo='''
(pf, pk), (mf, mk) = keyfile('payer'), keyfile('minter')
args = 'mint', '--payer', pf, '--signer', mf, '--mint-pubkey', b58(K['coin_mint']), '--quantity', 5
n = Node({})
need(run(n, *args) == 0, 'minted')
n = Node({})
take = n.call
def call(m, p):
    if m == 'isBlockhashValid': return n.ctx(False)
    r = take(m, p)
    if m == 'sendTransaction': n.status.pop(r, None)
    return r
n.call = call
must(run(n, *args) != 0, 'a transaction that never landed was reported as done')
''')
