//! A one-node cluster: transactions executed by the in-process runtime, and the
//! JSON-RPC methods the clients use, answered in process or over loopback HTTP.
use serde_json::{json, Value};
use solana_client::client_error::{ClientError, ClientErrorKind};
use solana_client::rpc_request::{RpcError, RpcRequest, RpcResponseErrorData};
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use solana_program::{
    hash::Hash,
    instruction::{AccountMeta, InstructionError},
    pubkey::Pubkey,
    system_program,
};
use solana_sdk::transaction::{Transaction, TransactionError};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use svm::{Acct, World};

/// What a packet can carry: a node drops transactions above this.
pub const PACKET: usize = 1232;
pub const FEE: u64 = 5000;

pub struct Chain {
    pub w: World,
    pub slot: u64,
    nonce: u64,
    /// a fixed recent blockhash (otherwise every request gets a new one)
    pub still: bool,
    hashes: Vec<Hash>,
    pub done: HashMap<String, Option<TransactionError>>,
    /// landed transactions, in order
    pub landed: Vec<(Transaction, Option<TransactionError>)>,
    pub oversized: u64,
    pub fees: HashMap<Pubkey, u64>,
    /// number of event-queue reads, and the queue lengths then seen
    pub watch: Option<Pubkey>,
    pub reads: Vec<u64>,
    pub when: Vec<std::time::Instant>,
    last_read: Option<std::time::Instant>,
    pub closed: bool,
    /// which of the next submissions go wrong, and how
    pub faults: std::collections::VecDeque<Fault>,
    /// rounds (indices into `reads`) in which a submission was lost
    pub lost: std::collections::BTreeSet<usize>,
    /// some submission went wrong
    pub hit: bool,
    /// transactions that did not land have expired
    pub expired: bool,
    /// requests by others, due right after the round of that number
    pub due: Vec<Due>,
    /// events which others added after each round's look
    pub grown: HashMap<usize, u64>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Fault {
    Fine,
    /// accepted, never lands
    Dropped,
    /// answered with an error
    Turned,
    /// lands, but the answer is an error
    Muted,
}
pub struct Due {
    /// the round, or the first round that finds nothing pending
    pub round: Option<usize>,
    pub what: Vec<(Vec<AccountMeta>, Vec<u8>)>,
}

fn spl(p: &Pubkey, a: &[solana_program::account_info::AccountInfo], d: &[u8]) -> solana_program::entrypoint::ProgramResult {
    spl_token::processor::Processor::process(p, a, d)
}

impl Chain {
    pub fn new(mut w: World) -> Chain {
        let id = solana_program::sysvar::rent::ID;
        if w.get(&id).is_none() {
            w.add(Acct { key: id, owner: solana_program::sysvar::ID, lamports: 1, data: bincode::serialize(&solana_program::rent::Rent::default()).unwrap(), executable: false });
        }
        Chain { w, slot: 10, nonce: 0, still: false, hashes: vec![], done: HashMap::new(), landed: vec![], oversized: 0, fees: HashMap::new(), watch: None, reads: vec![], when: vec![], last_read: None, closed: false, faults: Default::default(), lost: Default::default(), hit: false, expired: false, due: vec![], grown: HashMap::new() }
    }
    fn blockhash(&mut self) -> Hash {
        if !self.still || self.hashes.is_empty() {
            self.next_hash();
        }
        *self.hashes.last().unwrap()
    }
    pub fn next_hash(&mut self) {
        self.nonce += 1;
        let mut b = [7u8; 32];
        b[..8].copy_from_slice(&self.nonce.to_le_bytes());
        self.hashes.push(Hash::new_from_array(b));
    }
    /// Runs a transaction against `w`: all its instructions or none of them.
    fn run(w: &mut World, tx: &Transaction) -> Result<(), TransactionError> {
        let m = &tx.message;
        for (i, ix) in m.instructions.iter().enumerate() {
            let fail = |e: InstructionError| TransactionError::InstructionError(i as u8, e);
            let metas: Vec<AccountMeta> = ix
                .accounts
                .iter()
                .map(|a| AccountMeta { pubkey: m.account_keys[*a as usize], is_signer: m.is_signer(*a as usize), is_writable: m.is_writable(*a as usize) })
                .collect();
            let prog = m.account_keys[ix.program_id_index as usize];
            if prog == system_program::ID {
                system(w, &metas, &ix.data).map_err(fail)?;
                continue;
            }
            let f = if prog == spl_token::ID {
                spl as svm::ProcessFn
            } else if prog == dexcheck::world::pid() {
                dexcheck::world::dex as svm::ProcessFn
            } else {
                return Err(TransactionError::ProgramAccountNotFound);
            };
            if !w.exec_raw(&prog, &metas, &ix.data, f).ok() {
                return Err(fail(InstructionError::Custom(1)));
            }
        }
        Ok(())
    }
    fn vet(&self, tx: &Transaction) -> Result<(), TransactionError> {
        use solana_sdk::sanitize::Sanitize;
        if tx.sanitize().is_err() || tx.verify().is_err() {
            return Err(TransactionError::SignatureFailure);
        }
        if !self.hashes.contains(&tx.message.recent_blockhash) {
            return Err(TransactionError::BlockhashNotFound);
        }
        Ok(())
    }
    pub fn submit(&mut self, tx: &Transaction) -> Result<String, String> {
        let sig = tx.signatures.first().ok_or("no signature")?.to_string();
        if bincode::serialize(tx).unwrap().len() > PACKET {
            self.oversized += 1;
            return Err("transaction too large".into());
        }
        if let Err(e) = self.vet(tx) {
            return Err(format!("{:?}", e));
        }
        if self.done.contains_key(&sig) {
            return Ok(sig);
        }
        let fault = self.faults.pop_front().unwrap_or(Fault::Fine);
        self.hit |= fault != Fault::Fine;
        if matches!(fault, Fault::Dropped | Fault::Turned) {
            self.lost.insert(self.reads.len().max(1) - 1);
            return if fault == Fault::Turned { Err("node is behind".into()) } else { Ok(sig) };
        }
        self.slot += 1;
        let payer = tx.message.account_keys[0];
        let fee = FEE * tx.signatures.len() as u64;
        match self.w.get_mut(&payer) {
            Some(a) if a.lamports >= fee => a.lamports -= fee,
            _ => {
                // as good as lost: nothing of it reaches the chain
                self.hit = true;
                return Err("payer cannot pay".into());
            }
        }
        *self.fees.entry(payer).or_insert(0) += fee;
        let mut w = self.w.clone();
        let r = Self::run(&mut w, tx).err();
        if r.is_none() {
            self.w = w;
        }
        self.done.insert(sig.clone(), r.clone());
        self.landed.push((tx.clone(), r));
        if fault == Fault::Muted {
            return Err("connection reset".into());
        }
        Ok(sig)
    }
    pub fn simulate(&mut self, tx: &Transaction) -> Option<TransactionError> {
        if bincode::serialize(tx).unwrap().len() > PACKET {
            return Some(TransactionError::SanitizeFailure);
        }
        if let Err(e) = self.vet(tx) {
            return Some(e);
        }
        let mut w = self.w.clone();
        Self::run(&mut w, tx).err()
    }

    fn look(&mut self, k: &Pubkey) -> Value {
        if self.watch == Some(*k) {
            // time passes between two looks at the queue
            self.slot += 1;
            self.next_hash();
            let n = self.w.get(k).map_or(0, |a| dexcheck::abi::u64_at(&a.data, 5 + 16));
            // looks in quick succession belong to one round
            let now = std::time::Instant::now();
            if self.last_read.map_or(false, |t| now - t < std::time::Duration::from_millis(400)) {
                self.reads.pop();
                self.when.pop();
            }
            self.last_read = Some(now);
            self.reads.push(n);
            self.when.push(now);
            self.grown.insert(self.reads.len() - 1, 0);
        }
        let v = match self.w.get(k) {
            None => Value::Null,
            Some(a) => json!({"lamports": a.lamports, "owner": a.owner.to_string(), "executable": a.executable, "rentEpoch": 0,
                "data": [base64::encode(&a.data), "base64"]}),
        };
        if self.watch == Some(*k) {
            self.others(k);
        }
        v
    }
    /// What other users do right after a look at the queue.
    fn others(&mut self, k: &Pubkey) {
        let at = self.reads.len() - 1;
        let seen = self.reads[at];
        // strictly in the order given: the books' bytes depend on it
        if self.due.first().map_or(false, |d| d.round.map_or(seen == 0, |r| r <= at)) {
            let d = self.due.remove(0);
            for (metas, data) in d.what {
                self.w.exec_raw(&dexcheck::world::pid(), &metas, &data, dexcheck::world::dex);
            }
            let n = self.w.get(k).map_or(0, |a| dexcheck::abi::u64_at(&a.data, 5 + 16));
            self.grown.insert(at, n.saturating_sub(seen));
        }
    }

    /// One JSON-RPC call.
    pub fn call(&mut self, method: &str, p: &Value) -> Result<Value, String> {
        if self.closed {
            return Err("node stopped".into());
        }
        let ctx = |slot: u64, v: Value| json!({"context": {"slot": slot}, "value": v});
        let slot = self.slot;
        Ok(match method {
            "getVersion" => json!({"solana-core": "1.10.3", "feature-set": 1}),
            "getSlot" | "getBlockHeight" => json!(slot),
            "getLatestBlockhash" => {
                let h = self.blockhash();
                ctx(slot, json!({"blockhash": h.to_string(), "lastValidBlockHeight": slot + 1000}))
            }
            "isBlockhashValid" => ctx(slot, json!(!(self.expired && self.hit))),
            "getMinimumBalanceForRentExemption" => json!(dexcheck::world::rent(p[0].as_u64().ok_or("length")? as usize)),
            "getRecentBlockhash" => {
                let h = self.blockhash();
                ctx(slot, json!({"blockhash": h.to_string(), "feeCalculator": {"lamportsPerSignature": FEE}}))
            }
            "getFeeForMessage" => ctx(slot, json!(FEE)),
            "getHealth" => json!("ok"),
            "getEpochInfo" => json!({"absoluteSlot": slot, "blockHeight": slot, "epoch": 0, "slotIndex": slot, "slotsInEpoch": 432000, "transactionCount": 0}),
            "getBalance" => {
                let k = Pubkey::from_str(p[0].as_str().ok_or("key")?).map_err(|_| "key")?;
                ctx(slot, json!(self.w.get(&k).map_or(0, |a| a.lamports)))
            }
            "getAccountInfo" => {
                let k = Pubkey::from_str(p[0].as_str().ok_or("key")?).map_err(|_| "key")?;
                let v = self.look(&k);
                ctx(self.slot, v)
            }
            "getMultipleAccounts" => {
                let mut v = vec![];
                for k in p[0].as_array().ok_or("keys")? {
                    let k = Pubkey::from_str(k.as_str().ok_or("key")?).map_err(|_| "key")?;
                    v.push(self.look(&k));
                }
                ctx(self.slot, json!(v))
            }
            "sendTransaction" => json!(self.submit(&decode(p, "base58")?)?),
            "simulateTransaction" => {
                let e = self.simulate(&decode(p, "base58")?);
                ctx(slot, json!({"err": e, "logs": [], "accounts": null, "unitsConsumed": 0, "returnData": null}))
            }
            "getSignatureStatuses" => {
                let v: Vec<Value> = p[0]
                    .as_array()
                    .ok_or("signatures")?
                    .iter()
                    .map(|s| match self.done.get(s.as_str().unwrap_or("")) {
                        None => Value::Null,
                        Some(e) => json!({"slot": slot, "confirmations": null, "err": e,
                            "status": match e { None => json!({"Ok": null}), Some(e) => json!({"Err": e}) },
                            "confirmationStatus": "finalized"}),
                    })
                    .collect();
                ctx(slot, json!(v))
            }
            _ => return Err(format!("method {} not offered", method)),
        })
    }
}

fn decode(p: &Value, default: &str) -> Result<Transaction, String> {
    let s = p[0].as_str().ok_or("transaction")?;
    let raw = match p[1]["encoding"].as_str().unwrap_or(default) {
        "base64" => base64::decode(s).map_err(|e| e.to_string())?,
        _ => bs58::decode(s).into_vec().map_err(|e| e.to_string())?,
    };
    bincode::deserialize(&raw).map_err(|e| e.to_string())
}

fn system(w: &mut World, m: &[AccountMeta], d: &[u8]) -> Result<(), InstructionError> {
    use InstructionError::*;
    let tag = u32::from_le_bytes(d.get(..4).ok_or(InvalidInstructionData)?.try_into().unwrap());
    let lamports = u64::from_le_bytes(d.get(4..12).ok_or(InvalidInstructionData)?.try_into().unwrap());
    if m.len() < 2 {
        return Err(NotEnoughAccountKeys);
    }
    let (from, to) = (&m[0], &m[1]);
    if !from.is_signer || !from.is_writable || !to.is_writable {
        return Err(MissingRequiredSignature);
    }
    let have = w.get(&from.pubkey).filter(|a| a.owner == system_program::ID && a.data.is_empty()).map_or(0, |a| a.lamports);
    if have < lamports {
        return Err(Custom(1));
    }
    match tag {
        0 => {
            let space = u64::from_le_bytes(d.get(12..20).ok_or(InvalidInstructionData)?.try_into().unwrap());
            let owner = Pubkey::new(d.get(20..52).ok_or(InvalidInstructionData)?);
            if !to.is_signer || w.get(&to.pubkey).map_or(false, |a| a.lamports > 0 || !a.data.is_empty()) || space > 10 << 20 {
                return Err(AccountAlreadyInitialized);
            }
            w.get_mut(&from.pubkey).unwrap().lamports -= lamports;
            w.add(Acct { key: to.pubkey, owner, lamports, data: vec![0; space as usize], executable: false });
        }
        2 => {
            w.get_mut(&from.pubkey).unwrap().lamports -= lamports;
            match w.get_mut(&to.pubkey) {
                Some(a) => a.lamports += lamports,
                None => {
                    w.add(Acct { key: to.pubkey, owner: system_program::ID, lamports, data: vec![], executable: false });
                }
            }
        }
        _ => return Err(InvalidInstructionData),
    }
    Ok(())
}

pub type Node = Arc<Mutex<Chain>>;

/// The node as the transport of an in-process client.
pub struct Direct(pub Node);
#[async_trait::async_trait]
impl RpcSender for Direct {
    async fn send(&self, request: RpcRequest, params: Value) -> Result<Value, ClientError> {
        let r = self.0.lock().unwrap().call(&request.to_string(), &params);
        r.map_err(|e| ClientError::from(ClientErrorKind::RpcError(RpcError::RpcResponseError { code: -32002, message: e, data: RpcResponseErrorData::Empty })))
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
}
pub fn client(n: &Node) -> solana_client::rpc_client::RpcClient {
    solana_client::rpc_client::RpcClient::new_sender(Direct(n.clone()), Default::default())
}

/// The node on a loopback port.
pub fn serve(cell: Arc<Mutex<Option<Node>>>) -> u16 {
    let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || {
        for s in l.incoming().flatten() {
            let cell = cell.clone();
            std::thread::spawn(move || {
                let _ = talk(s, cell);
            });
        }
    });
    port
}
fn talk(s: TcpStream, cell: Arc<Mutex<Option<Node>>>) -> std::io::Result<()> {
    s.set_nodelay(true)?;
    let mut out = s.try_clone()?;
    let mut r = BufReader::new(s);
    loop {
        let mut len = 0;
        let mut line = String::new();
        loop {
            line.clear();
            if r.read_line(&mut line)? == 0 {
                return Ok(());
            }
            let l = line.trim().to_lowercase();
            if let Some(v) = l.strip_prefix("content-length:") {
                len = v.trim().parse().unwrap_or(0);
            }
            if l.is_empty() {
                break;
            }
        }
        let mut body = vec![0u8; len];
        r.read_exact(&mut body)?;
        let q: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        let node = cell.lock().unwrap().clone();
        let a = match node {
            None => Err("node stopped".into()),
            Some(n) => n.lock().unwrap().call(q["method"].as_str().unwrap_or(""), &q["params"]),
        };
        let a = match a {
            Ok(v) => json!({"jsonrpc": "2.0", "id": q["id"], "result": v}),
            Err(e) => json!({"jsonrpc": "2.0", "id": q["id"], "error": {"code": -32002, "message": e}}),
        }
        .to_string();
        write!(out, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{}", a.len(), a)?;
        out.flush()?;
    }
}
