"""A stand-in for a node: serves accounts, records and answers transactions."""
import base64, hashlib, http.server, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time, urllib.request
A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def b58(b):
    n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 58); s = A[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s
def unb58(s, size=None):
    n = 0
    for c in s: n = n * 58 + A.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    b = b'\0' * (len(s) - len(s.lstrip('1'))) + b
    return b
SYSTEM, TOKEN = b'\0' * 32, unb58('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')
def key(*a): return hashlib.sha256(repr(a).encode()).digest()
# ed25519, for the addresses of signing keys
P = 2**255 - 19
D = -121665 * pow(121666, P - 2, P) % P
def _add(p, q):
    x1, y1 = p; x2, y2 = q
    k = D * x1 * x2 * y1 * y2 % P
    return ((x1*y2 + x2*y1) * pow(1 + k, P - 2, P) % P, (y1*y2 + x1*x2) * pow(1 - k, P - 2, P) % P)
BY = 4 * pow(5, P - 2, P) % P
BX = 15112221349535400772501151409588531511454012693041857206046113283949847762202
def signer(*a):
    seed = key('seed', *a)
    h = hashlib.sha512(seed).digest()
    n = int.from_bytes(h[:32], 'little') & ((1 << 254) - 8) | (1 << 254)
    r, q = (0, 1), (BX, BY)
    while n:
        if n & 1: r = _add(r, q)
        q = _add(q, q); n >>= 1
    pub = (r[1] | (r[0] & 1) << 255).to_bytes(32, 'little')
    return seed, pub
def compact(b, i):
    n = s = 0
    while True:
        c = b[i]; i += 1
        n |= (c & 127) << s; s += 7
        if not c & 128: return n, i
def parse(raw):
    """-> signature, [(program, [account keys], data)], size"""
    n, i = compact(raw, 0)
    sig = raw[i:i + 64]; i += 64 * n
    i += 3
    k, i = compact(raw, i)
    keys = [raw[i + 32 * j:i + 32 * j + 32] for j in range(k)]; i += 32 * k + 32
    m, i = compact(raw, i)
    out = []
    for _ in range(m):
        p = raw[i]; i += 1
        c, i = compact(raw, i); acc = [keys[x] for x in raw[i:i + c]]; i += c
        d, i = compact(raw, i); data = raw[i:i + d]; i += d
        out.append((keys[p], acc, data))
    return sig, out, len(raw)
class Node:
    def __init__(s, accounts):
        s.acc = dict(accounts); s.slot = 100; s.sent = []; s.paths = []; s.status = {}; s.fail = None; s.lock = threading.Lock()
        node = s
        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'
            def do_POST(h):
                node.paths.append(h.path)
                q = json.loads(h.rfile.read(int(h.headers['content-length'])))
                with node.lock:
                    try: r = {'result': node.call(q['method'], q.get('params') or [])}
                    except Exception as e: r = {'error': {'code': -32002, 'message': str(e)}}
                b = json.dumps(dict(r, jsonrpc='2.0', id=q['id'])).encode()
                h.send_response(200); h.send_header('Content-Type', 'application/json'); h.send_header('Content-Length', str(len(b))); h.end_headers(); h.wfile.write(b)
            def log_message(h, *a): pass
        s.srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
        s.srv.daemon_threads = True
        threading.Thread(target=s.srv.serve_forever, daemon=True).start()
        s.url = 'http://127.0.0.1:%d' % s.srv.server_port
    def ctx(s, v): return {'context': {'slot': s.slot}, 'value': v}
    def call(s, m, p):
        s.slot += 1
        if m == 'getVersion': return {'solana-core': '1.10.3', 'feature-set': 1}
        if m in ('getSlot', 'getBlockHeight'): return s.slot
        if m == 'getLatestBlockhash': return s.ctx({'blockhash': b58(key('hash', s.slot)), 'lastValidBlockHeight': s.slot + 1000})
        if m == 'isBlockhashValid': return s.ctx(True)
        if m == 'getMinimumBalanceForRentExemption': return (p[0] + 128) * 6960
        if m == 'getAccountInfo':
            a = s.acc.get(unb58(p[0]))
            return s.ctx(None if a is None else {'lamports': a[0], 'owner': b58(a[1]), 'executable': False, 'rentEpoch': 0, 'data': [base64.b64encode(a[2]).decode(), 'base64']})
        if m in ('sendTransaction', 'simulateTransaction'):
            enc = (p[1] if len(p) > 1 else {}).get('encoding', 'base58')
            raw = base64.b64decode(p[0]) if enc == 'base64' else unb58(p[0])
            sig, ixs, size = parse(raw)
            if m[1] == 'i': return s.ctx({'err': s.fail, 'logs': [], 'accounts': None, 'unitsConsumed': 0, 'returnData': None})
            if size > 1232: raise Exception('too large')
            s.sent.append(ixs)
            if not s.fail: process(s, ixs)
            s.status[b58(sig)] = s.fail
            return b58(sig)
        if m == 'getSignatureStatuses':
            return s.ctx([None if x not in s.status else {'slot': s.slot, 'confirmations': None, 'err': s.status[x], 'status': {'Ok': None} if s.status[x] is None else {'Err': s.status[x]}, 'confirmationStatus': 'finalized'} for x in p[0]])
        raise Exception('no ' + m)
PID = key('exchange')
def pad(b): return b'serum' + b + b'padding'
def vault_nonce(market):
    """the first nonce whose derived address is off the curve"""
    n = 0
    while True:
        h = hashlib.sha256(market + struct.pack('<Q', n) + PID + b'ProgramDerivedAddress').digest()
        y = int.from_bytes(h, 'little') & ((1 << 255) - 1)
        u, v = (y * y - 1) % P, (D * y * y + 1) % P
        x2 = u * pow(v, P - 2, P) % P
        if x2 != 0 and pow(x2, (P - 1) // 2, P) != 1: return n, h
        n += 1
K = {n: key(n) for n in ('market', 'req_q', 'event_q', 'bids', 'asks', 'coin_vault', 'pc_vault', 'coin_mint', 'pc_mint', 'coin_wallet', 'pc_wallet')}
def market():
    n, _ = vault_nonce(K['market'])
    q = lambda x: struct.pack('<Q', x)
    b = q(3) + K['market'] + q(n) + K['coin_mint'] + K['pc_mint'] + K['coin_vault'] + q(0) + q(0) + K['pc_vault'] + q(0) + q(0) + q(100)
    b += K['req_q'] + K['event_q'] + K['bids'] + K['asks'] + q(1) + q(1) + q(0) + q(0)
    return pad(b)
def queue(kind, cap, head, events):
    """events: (owner, order number), oldest first"""
    slots = [b'\0' * 88] * cap
    for i, (o, n) in enumerate(events):
        slots[(head + i) % cap] = struct.pack('<BBBB4xQQQQQ', 2, 0, 0, 0, 0, 0, 0, n, 1) + o + struct.pack('<Q', n)
    return pad(struct.pack('<QQQQ', kind, head, len(events), 0) + b''.join(slots))
def exchange(cap, head, events):
    a = {K['market']: (1 << 30, PID, market()), K['event_q']: (1 << 30, PID, queue(17, cap, head, events)), K['req_q']: (1 << 30, PID, queue(9, 8, 0, []))}
    return a
def count(node):
    return struct.unpack_from('<Q', node.acc[K['event_q']][2], 5 + 16)[0]
def words(k): return struct.unpack('<4Q', k)
def process(node, ixs):
    """Processes events the way the exchange does: oldest first, while the account is found by search."""
    for prog, acc, data in ixs:
        if prog != PID or struct.unpack_from('<I', data, 1)[0] != 3: continue
        limit = struct.unpack_from('<H', data, 5)[0]
        given = [words(a) for a in acc[:-4]]
        lam, own, q = node.acc[K['event_q']]
        kind, head, n, seq = struct.unpack_from('<QQQQ', q, 5)
        cap = (len(q) - 12 - 32) // 88
        while n and limit:
            o = words(q[5 + 32 + head * 88 + 48:][:32])
            lo, hi = 0, len(given)
            while lo < hi:
                m = (lo + hi) // 2
                if given[m] < o: lo = m + 1
                else: hi = m
            if lo == len(given) or given[lo] != o: break
            head = (head + 1) % cap; n -= 1; limit -= 1
        node.acc[K['event_q']] = (lam, own, q[:5] + struct.pack('<QQQQ', kind, head, n, seq) + q[37:])
def keeper(node, workers, per, *more):
    f, _ = keyfile('payer')
    return spawn(node, 'consume-events', '--dex-program-id', b58(PID), '--payer', f, '--market', b58(K['market']), '--coin-wallet', b58(K['coin_wallet']), '--pc-wallet', b58(K['pc_wallet']), '--num-workers', workers, '--events-per-worker', per, '--log-directory', os.path.join(work, 'logs', 'l'), *more)
work = tempfile.mkdtemp()
def keyfile(*a):
    s, p = signer(*a)
    f = os.path.join(work, b58(p) + '.json')
    json.dump(list(s + p), open(f, 'w'))
    return f, p
def run(node, *args, wait=60):
    r = subprocess.run([sys.argv[1], node.url] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=wait)
    return r.returncode
def spawn(node, *args):
    return subprocess.Popen([sys.argv[1], node.url] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def must(c, what):
    if not c: print('BROKEN:', what); os._exit(1)
def need(c, what):
    if not c: print('step failed:', what); os._exit(3)
