//! C30: forward secrecy, by searching the memory of a session for keys it should have left behind.
use crate::alloc::{ours, record, recorded};
use crate::ensure;
use crate::model::{Dir, Secrets};
use crate::runner::{family, CaseResult, Outcome, Property, Tier};
use crate::session::*;
use crate::util::*;
use bip324::{CipherSession, InboundCipher, OutboundCipher, PacketType};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek, SeekFrom};

// ------------------------------------------------------------------ memory
/// Writable statics of the executable.
fn statics() -> Vec<(usize, usize)> {
    let exe = std::fs::read_link("/proc/self/exe").ok().and_then(|p| p.to_str().map(|s| s.to_string())).unwrap_or_default();
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let mut out: Vec<(usize, usize)> = vec![];
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let Some((a, b)) = f.first().and_then(|r| r.split_once('-')) else { continue };
        let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) else { continue };
        // Zero-initialised ones follow without a name.
        let follows = f.len() == 5 && out.last().is_some_and(|(p, n)| p + n == a);
        if f[1].starts_with("rw") && (follows || (f.len() > 5 && !exe.is_empty() && f[5] == exe)) {
            out.push((a, b - a));
        }
    }
    out
}
/// The statics of this thread.
#[cfg(target_arch = "x86_64")]
fn thread_statics() -> Option<(usize, usize)> {
    static SIZE: std::sync::OnceLock<Option<usize>> = std::sync::OnceLock::new();
    let size = (*SIZE.get_or_init(|| {
        let mut f = std::fs::File::open("/proc/self/exe").ok()?;
        let mut h = vec![0u8; 4096];
        f.read_exact(&mut h).ok()?;
        let at = |i: usize| -> Option<u64> { Some(u64::from_le_bytes(h.get(i..i + 8)?.try_into().ok()?)) };
        let (off, each, n) = (at(32)? as usize, u16::from_le_bytes([h[54], h[55]]) as usize, u16::from_le_bytes([h[56], h[57]]) as usize);
        (0..n).map(|i| off + i * each).find(|p| h.get(*p..*p + 4) == Some(&[7, 0, 0, 0])).and_then(|p| {
            let align = (at(p + 48)? as usize).max(1);
            Some((at(p + 40)? as usize).div_ceil(align) * align)
        })
    }))?;
    let top: usize;
    // SAFETY: the first word of the thread block is its own address.
    unsafe { std::arch::asm!("mov {}, fs:0", out(reg) top) };
    Some((top - size, size))
}
#[cfg(not(target_arch = "x86_64"))]
fn thread_statics() -> Option<(usize, usize)> {
    None
}
fn bytes_of<T>(x: &T) -> Vec<u8> {
    let n = std::mem::size_of_val(x);
    let mut v = vec![0u8; n];
    // SAFETY: n bytes are readable.
    unsafe { std::ptr::copy_nonoverlapping(x as *const T as *const u8, v.as_mut_ptr(), n) };
    v
}
struct Memory {
    mem: Option<std::fs::File>,
    statics: Vec<(usize, usize)>,
    /// What is searched for, filed by its first two bytes.
    secrets: Vec<(String, [u8; 32])>,
    filter: Vec<u64>,
}
impl Memory {
    fn new() -> Memory {
        Memory { mem: std::fs::File::open("/proc/self/mem").ok(), statics: statics(), secrets: vec![], filter: vec![0; 1024] }
    }
    fn forbid(&mut self, what: String, s: [u8; 32]) {
        let k = u16::from_le_bytes([s[0], s[1]]) as usize;
        self.filter[k / 64] |= 1 << (k % 64);
        self.secrets.push((what, s));
    }
    fn search(&self, b: &[u8]) -> Option<&str> {
        for w in b.windows(32) {
            let k = u16::from_le_bytes([w[0], w[1]]) as usize;
            if self.filter[k / 64] & (1 << (k % 64)) != 0 {
                if let Some(s) = self.secrets.iter().find(|s| s.1 == w) {
                    return Some(&s.0);
                }
            }
        }
        None
    }
    fn copy(&mut self, at: usize, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        let read = match &mut self.mem {
            Some(f) => f.seek(SeekFrom::Start(at as u64)).is_ok() && f.read_exact(&mut v).is_ok(),
            None => false,
        };
        if read { v } else { vec![] }
    }
    /// Whether the given values, or anything else the library keeps, hold what they should not.
    fn check(&mut self, when: &str, held: &[(&str, Vec<u8>)]) -> Result<(), String> {
        ours(|| {
            for (what, b) in held {
                if let Some(s) = self.search(b) {
                    return Err(format!("{when}: {what} still holds {s}"));
                }
            }
            for (what, places) in [("a heap block of the library", recorded().unwrap_or_default()), ("static memory", self.statics.clone()), ("memory of the thread", thread_statics().into_iter().collect())] {
                for (at, n) in places {
                    let b = self.copy(at, n);
                    if let Some(s) = self.search(&b) {
                        return Err(format!("{when}: {what} still holds {s}"));
                    }
                }
            }
            Ok(())
        })
    }
    /// Whether a value holds the secret key of this public one.
    #[cfg(feature = "std")]
    fn holds_secret_of(held: &[(&str, Vec<u8>)], ell: [u8; 64]) -> Result<(), String> {
        use secp256k1::{ellswift::ElligatorSwift, PublicKey, SecretKey};
        let public = PublicKey::from_ellswift(ElligatorSwift::from_array(ell)).x_only_public_key().0;
        for (what, b) in held {
            for w in b.windows(32).filter(|w| w.iter().filter(|x| **x == 0).count() < 8) {
                let Ok(k) = SecretKey::from_slice(w) else { continue };
                ensure!(k.x_only_public_key(curve()).0 != public, "{what} still holds the ephemeral secret key");
            }
        }
        Ok(())
    }
    fn finds(held: &[(&str, Vec<u8>)], key: &[u8; 32]) -> bool {
        held.iter().any(|h| h.1.windows(32).any(|w| w == key)) || recorded().unwrap_or_default().iter().any(|(a, n)| Memory::new().copy(*a, *n).windows(32).any(|w| w == key))
    }
}

// ------------------------------------------------------------------ keys
/// A direction: its keys, and which packets went under them.
struct Keys {
    name: &'static str,
    epoch: u64,
    packets: u64,
    now: [[u8; 32]; 2],
    /// Replaced, but nothing was processed under their successors yet.
    late: Vec<(String, [u8; 32])>,
    rotations: u64,
}
impl Keys {
    fn new(name: &'static str, d: &Dir) -> Keys {
        Keys { name, epoch: 0, packets: 0, now: [d.len.key(), d.aead.key()], late: vec![], rotations: 0 }
    }
    /// The model has moved by a packet; `m` learns which keys are to be gone.
    fn step(&mut self, d: &Dir, m: &mut Memory, first: &[(String, [u8; 32])]) {
        self.packets += 1;
        // A library may well rotate no earlier than for the next packet.
        for (w, k) in self.late.drain(..) {
            m.forbid(w, k);
        }
        let new = [d.len.key(), d.aead.key()];
        if new != self.now {
            for (i, w) in ["length", "packet"].iter().enumerate() {
                self.late.push((format!("the {} {w} key of packets {} to {}", self.name, self.epoch * 224, self.epoch * 224 + 223), self.now[i]));
            }
            if self.rotations == 0 {
                self.late.extend(first.iter().cloned());
            }
            self.now = new;
            self.epoch += 1;
            self.rotations += 1;
        }
    }
}
/// What the first keys of both directions can be computed from.
fn roots(s: &Secrets) -> Vec<(String, [u8; 32])> {
    vec![("the shared secret of the handshake".into(), s.ecdh), ("the secret all keys are expanded from".into(), s.prk)]
}

// ------------------------------------------------------------------ ciphers
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Move {
    Send(u16),
    Receive(u16),
    /// Forgeries.
    Refused(u8),
    Split,
    /// A copy of the session, which is dropped.
    Copied,
    /// A packet that was accepted once, again.
    Replay(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CipherCase {
    lseed: u32,
    rseed: u32,
    initiator: bool,
    magic: [u8; 4],
    /// Contents of packets have up to that many bytes.
    size: u8,
    aad: bool,
    /// Decides on the type of each packet and the operation used.
    style: u64,
    moves: Vec<Move>,
}
impl CipherCase {
    fn decoy(&self, k: usize) -> bool {
        splitmix(&mut (self.style ^ k as u64)) % 4 == 0
    }
    fn way(&self, k: usize) -> u64 {
        splitmix(&mut (self.style ^ (k as u64) << 32)) % 3
    }
}
fn some() -> BoxedStrategy<u16> {
    prop_oneof![2 => 1u16..20, 1 => 200u16..260, 1 => Just(224u16), 1 => Just(225u16), 1 => Just(223u16), 2 => 1u16..700, 1 => 700u16..4000].boxed()
}
fn cipher_strategy(_: Tier) -> BoxedStrategy<CipherCase> {
    let one = prop_oneof![
        4 => some().prop_map(Move::Send), 4 => some().prop_map(Move::Receive), 1 => (1u8..4).prop_map(Move::Refused),
        1 => Just(Move::Split), 1 => Just(Move::Copied), 1 => any::<u16>().prop_map(Move::Replay)
    ];
    (any::<u32>(), any::<u32>(), any::<bool>(), magic(), 0u8..60, (any::<bool>(), any::<u64>()), proptest::collection::vec(one, 1..8))
        .prop_map(|(lseed, rseed, initiator, magic, size, (aad, style), moves)| CipherCase { lseed, rseed, initiator, magic, size, aad, style, moves })
        .boxed()
}
enum Ciphers {
    Whole(CipherSession),
    Split(InboundCipher, OutboundCipher),
}
impl Ciphers {
    fn inbound(&mut self) -> &mut InboundCipher {
        match self {
            Ciphers::Whole(s) => s.inbound(),
            Ciphers::Split(i, _) => i,
        }
    }
    fn outbound(&mut self) -> &mut OutboundCipher {
        match self {
            Ciphers::Whole(s) => s.outbound(),
            Ciphers::Split(_, o) => o,
        }
    }
    fn bytes(&self) -> Vec<(&'static str, Vec<u8>)> {
        match self {
            Ciphers::Whole(s) => vec![("the cipher session", bytes_of(s))],
            Ciphers::Split(i, o) => vec![("the inbound cipher", bytes_of(i)), ("the outbound cipher", bytes_of(o))],
        }
    }
}
fn ciphers(c: &CipherCase) -> CaseResult {
    let mut m = Memory::new();
    let (cipher, mut peer) = match record(|| establish(c.lseed, c.rseed, c.initiator, c.magic)) {
        Ok(x) => x,
        Err(e) if e.starts_with("HARNESS:remote key") => return Ok(Outcome::new(false, vec!["unlucky-key"])),
        Err(e) => return Err(e),
    };
    let mut s = Ciphers::Whole(cipher);
    let mut first = roots(&peer.secrets);
    first.push(("the ephemeral secret key".into(), secret(c.lseed).secret_bytes()));
    // The version packets went under keys at their start.
    let (mut them, mut us) = (Keys::new("inbound", &peer.tx), Keys::new("outbound", &peer.rx));
    them.packets = 1;
    us.packets = 1;
    let mut old: Vec<Vec<u8>> = vec![];
    let mut classes = vec![];
    let mut seen = false;
    for (i, mv) in c.moves.iter().enumerate() {
        let when = format!("after step {i} ({mv:?})");
        match *mv {
            Move::Send(n) => {
                for k in 0..n {
                    let body = prng_bytes(k as u32 as u64, k as usize % (c.size as usize + 1));
                    let aad = if c.aad { &body[..] } else { &[] };
                    let (decoy, way) = (c.decoy(k as usize), c.way(k as usize));
                    let t = if decoy { PacketType::Decoy } else { PacketType::Genuine };
                    let p = record(|| match way {
                        0 => {
                            let mut out = vec![0; OutboundCipher::encryption_buffer_len(body.len())];
                            s.outbound().encrypt(&body, &mut out, t, Some(aad)).map(|_| out)
                        }
                        _ => Ok(s.outbound().encrypt_to_vec(&body, t, Some(aad))),
                    });
                    let p = p.map_err(|e| format!("{when}: encryption fails: {e:?}"))?;
                    ensure!(peer.rx.open(&p, aad) == Some(((decoy as u8) << 7, body.clone())), "{when}: packet {} of the local side is not what the specification says", us.packets);
                    us.step(&peer.rx, &mut m, &first);
                }
            }
            Move::Receive(n) => {
                for k in 0..n {
                    let body = prng_bytes(k as u32 as u64, k as usize % (c.size as usize + 1));
                    let aad = if c.aad { &body[..] } else { &[] };
                    let (decoy, way) = (c.decoy(k as usize), c.way(k as usize));
                    let p = peer.tx.seal((decoy as u8) << 7 | (way as u8), &body, aad);
                    let n = record(|| s.inbound().decrypt_packet_len(p[..3].try_into().unwrap()));
                    ensure!(n == p.len() - 3, "{when}: packet {} has {} bytes, not {n}", them.packets, p.len() - 3);
                    let r = record(|| match way {
                        0 => {
                            let mut b = p[3..].to_vec();
                            s.inbound().decrypt_in_place(&mut b, Some(aad)).map(|(t, m)| (t, m.to_vec()))
                        }
                        1 => {
                            let mut out = vec![0; InboundCipher::decryption_buffer_len(p.len() - 3)];
                            s.inbound().decrypt(&p[3..], &mut out, Some(aad)).map(|t| (t, out))
                        }
                        _ => s.inbound().decrypt_to_vec(&p[3..], Some(aad)),
                    });
                    let Ok((t, r)) = r else { return Err(format!("{when}: packet {} is refused", them.packets)) };
                    ensure!((t == PacketType::Decoy) == decoy, "{when}: packet {} arrives as {t:?}", them.packets);
                    ensure!(r[1..] == body[..], "{when}: packet {} arrives with other contents", them.packets);
                    them.step(&peer.tx, &mut m, &first);
                    if old.len() < 2000 {
                        old.push(p);
                    }
                }
            }
            Move::Refused(n) => {
                for k in 0..n {
                    let body = prng_bytes(k as u64, 17 + k as usize);
                    ensure!(record(|| s.inbound().decrypt_to_vec(&body, None)).is_err(), "{when}: a forgery is accepted");
                }
            }
            Move::Split => {
                s = match s {
                    Ciphers::Whole(s) => {
                        let (i, o) = s.into_split();
                        Ciphers::Split(i, o)
                    }
                    s => s,
                };
                classes.push("split");
            }
            Move::Copied => {
                if let Ciphers::Whole(s) = &s {
                    record(|| drop(s.clone()));
                }
            }
            Move::Replay(k) => {
                if !old.is_empty() {
                    let p = &old[k as usize % old.len()];
                    ensure!(record(|| s.inbound().decrypt_to_vec(&p[3..], None)).is_err(), "{when}: an old packet is accepted again");
                }
            }
        }
        m.check(&when, &s.bytes())?;
        if us.rotations + them.rotations > 0 && !seen {
            let held = s.bytes();
            seen = us.now.iter().chain(&them.now).all(|k| Memory::finds(&held, k));
        }
    }
    for (k, name) in [(&us, ["sent-1", "sent-2+"]), (&them, ["received-1", "received-2+"])] {
        if k.rotations > 0 {
            classes.push(name[(k.rotations > 1) as usize]);
        }
    }
    if seen {
        classes.push("current-keys-found");
    }
    drop(s);
    for k in [&us, &them] {
        for (w, s) in ["length", "packet"].iter().zip(k.now) {
            m.forbid(format!("the last {} {w} key", k.name), s);
        }
    }
    for (w, s) in first {
        m.forbid(w, s);
    }
    m.check("after the session was dropped", &[])?;
    Ok(Outcome::new(seen, classes))
}

pub fn properties() -> Vec<Property> {
    #[allow(unused_mut)]
    let mut families = vec![family("secrecy", 6000, 100_000, cipher_strategy, ciphers)];
    #[cfg(feature = "std")]
    families.push(family("drivers", 3000, 50_000, drivers::strategy, drivers::run));
    vec![Property {
        id: "C30",
        level: "exploration",
        rule: "A session runs over up to several thousand packets per direction: directly through the ciphers (sends, receives, forgeries, replays, a split, a copy that is dropped), and through the blocking and the async protocol with any handshake. The model computes every key. After each step the bytes of the session's values, the heap blocks the library has allocated and not freed, the static memory of the program and that of the thread are searched for each key of an earlier epoch of its direction, for the shared secret and the secret the keys are expanded from; after the session is dropped, for all of its keys. Non-trivial: at least one direction rotated its keys, and the same search finds the keys in use.",
        assumptions: &["searched are whole 32-byte values: a key kept in pieces or scrambled is not recognised", "stack frames that returned, freed blocks and registers are not searched: the library does not wipe them", "the random number generator keeps what it produced: the ephemeral secret key is searched for only where the harness supplies it"],
        families,
    }]
}

#[cfg(feature = "std")]
mod drivers {
    use super::super::io::{open, payload, Proto};
    use super::*;
    use crate::wire::*;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct Case {
        asyn: bool,
        local: Local,
        remote: Remote,
        size: u8,
        /// Read (or write) that many packets.
        steps: Vec<(bool, u16)>,
        split: Option<u8>,
        rsched: Sched,
        wsched: Sched,
    }
    pub fn strategy(_: Tier) -> BoxedStrategy<Case> {
        (any::<bool>(), local(), remote(1), 0u8..60, proptest::collection::vec((any::<bool>(), some()), 1..6), proptest::option::of(0u8..6), sched(), sched())
            .prop_map(|(asyn, local, remote, size, steps, split, rsched, wsched)| Case { asyn, local, remote, size, steps, split, rsched, wsched })
            .boxed()
    }
    enum State {
        Whole(Proto),
        S(bip324::io::ProtocolReader<SyncR>, bip324::io::ProtocolWriter<SyncW>),
        A(bip324::futures::ProtocolReader<AsyncR>, bip324::futures::ProtocolWriter<AsyncW>),
    }
    impl State {
        fn bytes(&self) -> Vec<(&'static str, Vec<u8>)> {
            match self {
                State::Whole(Proto::S(p)) => vec![("the protocol", bytes_of(p))],
                State::Whole(Proto::A(p)) => vec![("the async protocol", bytes_of(p))],
                State::S(r, w) => vec![("the reader", bytes_of(r)), ("the writer", bytes_of(w))],
                State::A(r, w) => vec![("the async reader", bytes_of(r)), ("the async writer", bytes_of(w))],
            }
        }
        fn split(self) -> State {
            match self {
                State::Whole(Proto::S(p)) => {
                    let (r, w) = p.into_split();
                    State::S(r, w)
                }
                State::Whole(Proto::A(p)) => {
                    let (r, w) = p.into_split();
                    State::A(r, w)
                }
                s => s,
            }
        }
    }
    fn decoy(k: usize) -> bool {
        k % 5 == 2
    }
    fn body(k: usize, size: u8) -> Vec<u8> {
        prng_bytes(k as u64, k % (size as usize + 1))
    }
    pub fn run(c: &Case) -> CaseResult {
        let mut m = Memory::new();
        let mut remote = c.remote.clone();
        let reads: usize = c.steps.iter().filter(|s| s.0).map(|s| s.1 as usize).sum();
        remote.session = (0..reads).map(|k| ((decoy(k) as u8) << 7, Blob::R((k % (c.size as usize + 1)) as u32, k as u32))).collect();
        let decoys = remote.hs.decoys.len();
        let sh = Wire::new(c.local.clone(), remote, c.rsched.clone(), c.wsched.clone());
        let p = record(|| open(c.asyn, &sh)).map_err(|e| format!("handshake fails: {e:?}"))?;
        let mut s = State::Whole(p);
        let (first, initiator) = {
            let w = lock(&sh);
            let k = w.known.as_ref().ok_or("HARNESS:no keys")?;
            (k.secrets.clone(), c.local.initiator)
        };
        let (mut out, mut inb) = first.dirs(initiator);
        let first = roots(&first);
        let (mut them, mut us) = (Keys::new("inbound", &inb), Keys::new("outbound", &out));
        for _ in 0..=decoys {
            inb.skip(1);
            them.step(&inb, &mut m, &first);
        }
        for _ in 0..=c.local.decoys.as_ref().map(|d| d.len()).unwrap_or(0) {
            out.skip(1);
            us.step(&out, &mut m, &first);
        }
        m.check("after the handshake", &s.bytes())?;
        let mut seen = false;
        let mut classes = vec![if c.asyn { "async" } else { "blocking" }];
        let (mut read, mut wrote) = (0usize, 0usize);
        for (i, (reading, n)) in c.steps.iter().enumerate() {
            let when = format!("after step {i} ({} {n})", if *reading { "read" } else { "write" });
            if c.split == Some(i as u8) {
                s = s.split();
                classes.push("split");
            }
            for _ in 0..*n {
                if *reading {
                    let r = record(|| match &mut s {
                        State::Whole(p) => p.read(&sh),
                        State::S(r, _) => r.read(),
                        State::A(r, _) => crate::wire::run(r.read(), &sh),
                    });
                    let r = r.map_err(|e| format!("{when}: packet {read} is refused: {e:?}"))?;
                    ensure!((r.packet_type() == PacketType::Decoy) == decoy(read) && r.contents() == &body(read, c.size)[..], "{when}: packet {read} arrives changed");
                    read += 1;
                    inb.skip(1);
                    them.step(&inb, &mut m, &first);
                } else {
                    let b = payload(decoy(wrote), &body(wrote, c.size));
                    let r = record(|| match &mut s {
                        State::Whole(p) => p.write(&sh, &b),
                        State::S(_, w) => w.write(&b),
                        State::A(_, w) => crate::wire::run(w.write(&b), &sh),
                    });
                    r.map_err(|e| format!("{when}: message {wrote} is refused: {e:?}"))?;
                    wrote += 1;
                    out.skip(1);
                    us.step(&out, &mut m, &first);
                }
            }
            m.check(&when, &s.bytes())?;
            if us.rotations + them.rotations > 0 && !seen {
                let held = s.bytes();
                seen = us.now.iter().chain(&them.now).all(|k| Memory::finds(&held, k));
            }
        }
        if us.rotations + them.rotations > 0 {
            let key = lock(&sh).known.as_ref().map(|k| k.local_key);
            Memory::holds_secret_of(&s.bytes(), key.ok_or("HARNESS:no keys")?)?;
        }
        for (k, name) in [(&us, ["sent-1", "sent-2+"]), (&them, ["received-1", "received-2+"])] {
            if k.rotations > 0 {
                classes.push(name[(k.rotations > 1) as usize]);
            }
        }
        if seen {
            classes.push("current-keys-found");
        }
        drop(s);
        for k in [&us, &them] {
            for (w, s) in ["length", "packet"].iter().zip(k.now) {
                m.forbid(format!("the last {} {w} key", k.name), s);
            }
        }
        for (w, s) in first {
            m.forbid(w, s);
        }
        m.check("after the session was dropped", &[])?;
        Ok(Outcome::new(seen, classes))
    }
}
