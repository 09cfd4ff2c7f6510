//! Independent readers of the on-chain account layouts (the ABI that clients
//! such as the JS SDK read). Nothing here uses the code under test.
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub const F_INIT: u64 = 1;
pub const F_MARKET: u64 = 2;
pub const F_OO: u64 = 4;
pub const F_REQQ: u64 = 8;
pub const F_EVQ: u64 = 16;
pub const F_BIDS: u64 = 32;
pub const F_ASKS: u64 = 64;
pub const F_DISABLED: u64 = 128;
pub const F_CLOSED: u64 = 256;
pub const F_PERM: u64 = 512;
pub const F_CRANK: u64 = 1024;

pub const OO_LEN: usize = 5 + 3216 + 7;
pub const MARKET_V1_LEN: usize = 5 + 376 + 7;
pub const MARKET_V2_LEN: usize = 5 + 376 + 32 * 3 + 992 + 7;
pub const EVENT_LEN: usize = 88;
pub const REQUEST_LEN: usize = 80;
pub const NODE_LEN: usize = 72;

pub fn u64_at(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn u32_at(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u128_at(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
pub fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new(&d[o..o + 32])
}

fn inner(d: &[u8]) -> Result<&[u8], String> {
    if d.len() < 12 || &d[..5] != b"serum" || &d[d.len() - 7..] != b"padding" {
        return Err("account padding missing".into());
    }
    Ok(&d[5..d.len() - 7])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Sd {
    Bid,
    Ask,
}
impl Sd {
    pub fn opp(self) -> Sd {
        match self {
            Sd::Bid => Sd::Ask,
            Sd::Ask => Sd::Bid,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Mkt {
    pub flags: u64,
    pub own: Pubkey,
    pub nonce: u64,
    pub coin_mint: Pubkey,
    pub pc_mint: Pubkey,
    pub coin_vault: Pubkey,
    pub coin_dep: u64,
    pub coin_fees: u64,
    pub pc_vault: Pubkey,
    pub pc_dep: u64,
    pub pc_fees: u64,
    pub dust: u64,
    pub req_q: Pubkey,
    pub event_q: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub fee_bps: u64,
    pub rebates: u64,
    /// (open-orders authority, prune authority, crank authority)
    pub auth: Option<(Pubkey, Pubkey, Pubkey)>,
}

pub fn market(d: &[u8]) -> Result<Mkt, String> {
    let d = inner(d)?;
    let w = |i: usize| u64_at(d, i * 8);
    let k = |i: usize| key_at(d, i * 8);
    let flags = w(0);
    if d.len() < 376 {
        return Err("market too short".into());
    }
    Ok(Mkt {
        flags,
        own: k(1),
        nonce: w(5),
        coin_mint: k(6),
        pc_mint: k(10),
        coin_vault: k(14),
        coin_dep: w(18),
        coin_fees: w(19),
        pc_vault: k(20),
        pc_dep: w(24),
        pc_fees: w(25),
        dust: w(26),
        req_q: k(27),
        event_q: k(31),
        bids: k(35),
        asks: k(39),
        coin_lot: w(43),
        pc_lot: w(44),
        fee_bps: w(45),
        rebates: w(46),
        auth: if flags & F_PERM != 0 {
            Some((key_at(d, 376), key_at(d, 408), key_at(d, 440)))
        } else {
            None
        },
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Slot {
    pub id: u128,
    pub side: Sd,
    pub cid: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Oo {
    pub flags: u64,
    pub market: Pubkey,
    pub owner: Pubkey,
    pub coin_free: u64,
    pub coin_total: u64,
    pub pc_free: u64,
    pub pc_total: u64,
    pub slots: Vec<Option<Slot>>,
    pub rebates: u64,
    /// free slots whose id / client id / bid bit were not cleared
    pub dirty_free: usize,
}
impl Oo {
    pub fn fresh(market: Pubkey, owner: Pubkey) -> Oo {
        Oo {
            flags: F_INIT | F_OO,
            market,
            owner,
            coin_free: 0,
            coin_total: 0,
            pc_free: 0,
            pc_total: 0,
            slots: vec![None; 128],
            rebates: 0,
            dirty_free: 0,
        }
    }
    pub fn n_orders(&self) -> usize {
        self.slots.iter().filter(|s| s.is_some()).count()
    }
}

pub fn oo(d: &[u8]) -> Result<Oo, String> {
    if d.len() != OO_LEN {
        return Err("open orders length".into());
    }
    let d = inner(d)?;
    let w = |i: usize| u64_at(d, i * 8);
    let free = u128_at(d, 13 * 8);
    let bid = u128_at(d, 15 * 8);
    let mut slots = Vec::with_capacity(128);
    let mut dirty = 0;
    for i in 0..128usize {
        let id = u128_at(d, 17 * 8 + i * 16);
        let cid = u64_at(d, 17 * 8 + 128 * 16 + i * 8);
        let is_bid = bid >> i & 1 == 1;
        if free >> i & 1 == 1 {
            slots.push(None);
            if id != 0 || cid != 0 || is_bid {
                dirty += 1;
            }
        } else {
            slots.push(Some(Slot { id, side: if is_bid { Sd::Bid } else { Sd::Ask }, cid }));
        }
    }
    Ok(Oo {
        flags: w(0),
        market: key_at(d, 8),
        owner: key_at(d, 40),
        coin_free: w(9),
        coin_total: w(10),
        pc_free: w(11),
        pc_total: w(12),
        slots,
        rebates: u64_at(d, 17 * 8 + 128 * 24),
        dirty_free: dirty,
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Leaf {
    pub key: u128,
    pub slot: u8,
    pub tier: u8,
    pub owner: Pubkey,
    pub qty: u64,
    pub cid: u64,
}
impl Leaf {
    pub fn price(&self) -> u64 {
        (self.key >> 64) as u64
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Book {
    pub leaves: BTreeMap<u128, Leaf>,
    /// total node capacity
    pub cap: usize,
}
impl Book {
    /// Would one more (distinct) order fit? n leaves take 2n-1 nodes.
    pub fn fits(&self) -> bool {
        2 * (self.leaves.len() + 1) - 1 <= self.cap
    }
    pub fn best(&self, side: Sd) -> Option<&Leaf> {
        match side {
            Sd::Bid => self.leaves.values().next_back(),
            Sd::Ask => self.leaves.values().next(),
        }
    }
}

/// Reads a slab (header + nodes, account header already stripped) by walking
/// it the way a client does, and checks every structural invariant.
pub fn slab(s: &[u8]) -> Result<Book, String> {
    let bump = u64_at(s, 0);
    let free_len = u64_at(s, 8);
    let free_head = u32_at(s, 16);
    let root = u32_at(s, 20);
    let leaf_count = u64_at(s, 24);
    let nodes = &s[32..];
    let cap = nodes.len() / NODE_LEN;
    if bump as usize > cap {
        return Err("slab: bump index beyond capacity".into());
    }
    let node = |h: u32| -> Result<&[u8], String> {
        if h as u64 >= bump {
            return Err(format!("slab: handle {} beyond bump {}", h, bump));
        }
        Ok(&nodes[h as usize * NODE_LEN..(h as usize + 1) * NODE_LEN])
    };
    let mut leaves = BTreeMap::new();
    let mut seen = vec![false; cap];
    let mut used = 0u64;
    if leaf_count > 0 {
        // (handle, known prefix bits, prefix length already fixed)
        let mut stack: Vec<(u32, u128, u32)> = vec![(root, 0, 0)];
        let mut last: Option<u128> = None;
        while let Some((h, prefix, plen)) = stack.pop() {
            let n = node(h)?;
            if seen[h as usize] {
                return Err("slab: node reachable twice".into());
            }
            seen[h as usize] = true;
            used += 1;
            let mask = |l: u32| -> u128 {
                if l == 0 {
                    0
                } else {
                    !0u128 << (128 - l)
                }
            };
            match u32_at(n, 0) {
                1 => {
                    let pl = u32_at(n, 4);
                    let key = u128_at(n, 8);
                    if pl >= 128 || pl < plen {
                        return Err(format!("slab: inner prefix length {} under {}", pl, plen));
                    }
                    if key & mask(plen) != prefix {
                        return Err("slab: inner key outside its subtree prefix".into());
                    }
                    let base = key & mask(pl);
                    let bit = 1u128 << (127 - pl);
                    // right pushed first so that leaves come out in ascending order
                    stack.push((u32_at(n, 28), base | bit, pl + 1));
                    stack.push((u32_at(n, 24), base, pl + 1));
                }
                2 => {
                    let key = u128_at(n, 8);
                    if key & mask(plen) != prefix {
                        return Err("slab: leaf key outside its subtree prefix".into());
                    }
                    if let Some(l) = last {
                        if l >= key {
                            return Err("slab: leaves out of order".into());
                        }
                    }
                    last = Some(key);
                    leaves.insert(
                        key,
                        Leaf {
                            key,
                            slot: n[4],
                            tier: n[5],
                            owner: key_at(n, 24),
                            qty: u64_at(n, 56),
                            cid: u64_at(n, 64),
                        },
                    );
                }
                t => return Err(format!("slab: reachable node with tag {}", t)),
            }
        }
        if leaves.len() as u64 != leaf_count {
            return Err(format!("slab: {} leaves, header says {}", leaves.len(), leaf_count));
        }
    }
    // free list
    let mut h = free_head;
    for i in 0..free_len {
        let n = node(h)?;
        if seen[h as usize] {
            return Err("slab: free node reachable twice or in use".into());
        }
        seen[h as usize] = true;
        let want = if i + 1 == free_len { 4 } else { 3 };
        if u32_at(n, 0) != want {
            return Err(format!("slab: free node tag {} want {}", u32_at(n, 0), want));
        }
        h = u32_at(n, 4);
    }
    if used + free_len != bump {
        return Err(format!("slab: {} used + {} free != {} allocated", used, free_len, bump));
    }
    Ok(Book { leaves, cap })
}

pub fn book(d: &[u8], flag: u64) -> Result<Book, String> {
    let d = inner(d)?;
    if u64_at(d, 0) != F_INIT | flag {
        return Err("book flags".into());
    }
    // the slab uses whole nodes only
    slab(&d[8..])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Fill { side: Sd, maker: bool, paid: u64, received: u64, fee: u64, id: u128, owner: Pubkey, slot: u8, tier: u8, cid: u64 },
    Out { side: Sd, release: bool, unlocked: u64, still: u64, id: u128, owner: Pubkey, slot: u8, cid: u64 },
}
impl Ev {
    pub fn owner(&self) -> Pubkey {
        match self {
            Ev::Fill { owner, .. } | Ev::Out { owner, .. } => *owner,
        }
    }
    pub fn id(&self) -> u128 {
        match self {
            Ev::Fill { id, .. } | Ev::Out { id, .. } => *id,
        }
    }
    pub fn slot(&self) -> u8 {
        match self {
            Ev::Fill { slot, .. } | Ev::Out { slot, .. } => *slot,
        }
    }
    pub fn side(&self) -> Sd {
        match self {
            Ev::Fill { side, .. } | Ev::Out { side, .. } => *side,
        }
    }
}

pub fn event(d: &[u8]) -> Result<Ev, String> {
    let f = d[0];
    let side = if f & 4 != 0 { Sd::Bid } else { Sd::Ask };
    let (a, b, c) = (u64_at(d, 8), u64_at(d, 16), u64_at(d, 24));
    let id = u128_at(d, 32);
    let owner = key_at(d, 48);
    let cid = u64_at(d, 80);
    match f & !4 {
        x if x & 1 != 0 && x & !(1 | 8) == 0 => Ok(Ev::Fill {
            side,
            maker: f & 8 != 0,
            received: a,
            paid: b,
            fee: c,
            id,
            owner,
            slot: d[1],
            tier: d[2],
            cid,
        }),
        x if x & 2 != 0 && x & !(2 | 16) == 0 => Ok(Ev::Out {
            side,
            release: f & 16 != 0,
            unlocked: a,
            still: b,
            id,
            owner,
            slot: d[1],
            cid,
        }),
        _ => Err(format!("event flags {:#x}", f)),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EvQ {
    pub cap: usize,
    pub seq: u64,
    pub head: u64,
    pub events: Vec<Ev>,
}

pub fn event_queue(d: &[u8]) -> Result<EvQ, String> {
    let d = inner(d)?;
    if u64_at(d, 0) != F_INIT | F_EVQ {
        return Err("event queue flags".into());
    }
    let (head, count, seq) = (u64_at(d, 8), u64_at(d, 16), u64_at(d, 24));
    let buf = &d[32..];
    let cap = buf.len() / EVENT_LEN;
    if count as usize > cap || (head as usize >= cap) {
        return Err(format!("event queue head {} count {} cap {}", head, count, cap));
    }
    let mut events = Vec::with_capacity(count as usize);
    for i in 0..count {
        let s = ((head + i) % cap as u64) as usize;
        events.push(event(&buf[s * EVENT_LEN..(s + 1) * EVENT_LEN])?);
    }
    Ok(EvQ { cap, seq, head, events })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ReqQ {
    pub head: u64,
    pub count: u64,
    pub seq: u64,
}
pub fn req_queue(d: &[u8]) -> Result<ReqQ, String> {
    let d = inner(d)?;
    if u64_at(d, 0) != F_INIT | F_REQQ {
        return Err("request queue flags".into());
    }
    Ok(ReqQ { head: u64_at(d, 8), count: u64_at(d, 16), seq: u64_at(d, 24) })
}
