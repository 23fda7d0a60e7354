//! C06-C09, C16: the sans-IO handshake.
use crate::ensure;
use crate::model::Secrets;
use crate::runner::{enumerate, family, CaseResult, Outcome, Property, Tier};
use crate::session::*;
use crate::util::*;
use crate::wire::ManyCase;
use bip324::{CipherSession, Error, GarbageResult, Handshake, Initialized, PacketType, ReceivedKey, SentVersion, VersionResult};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Why a handshake did not complete on a given byte string.
#[derive(Debug, PartialEq)]
pub enum Stop {
    NeedMore,
    Err(Error),
}
pub struct Done {
    pub cipher: CipherSession,
    pub garbage_end: usize,
    pub used: usize,
    pub decoys: usize,
}
/// Feeds `stream` (everything after the remote key) in growing prefixes, as a caller would.
pub fn finish(hs: Handshake<SentVersion>, stream: &[u8], cuts: &[u32]) -> Result<Done, Stop> {
    let mut hs = hs;
    let mut have = 0usize;
    let mut i = 0;
    let (mut h, pos) = loop {
        let add = if cuts.is_empty() { stream.len() } else { cuts[i % cuts.len()].max(1) as usize };
        i += 1;
        have = (have + add).min(stream.len());
        match hs.receive_garbage(&stream[..have]) {
            Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => break (handshake, consumed_bytes),
            Ok(GarbageResult::NeedMoreData(h)) => {
                if have == stream.len() {
                    return Err(Stop::NeedMore);
                }
                hs = h;
            }
            Err(e) => return Err(Stop::Err(e)),
        }
    };
    let garbage_end = pos;
    let mut at = pos;
    let mut decoys = 0;
    loop {
        let Some(l) = stream.get(at..at + 3) else { return Err(Stop::NeedMore) };
        let n = h.decrypt_packet_len(l.try_into().unwrap()).map_err(Stop::Err)?;
        at += 3;
        let Some(b) = stream.get(at..at + n) else { return Err(Stop::NeedMore) };
        let mut body = b.to_vec();
        at += n;
        match h.receive_version(&mut body).map_err(Stop::Err)? {
            VersionResult::Complete { cipher } => return Ok(Done { cipher, garbage_end, used: at, decoys }),
            VersionResult::Decoy(n) => {
                decoys += 1;
                h = n;
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Party {
    seed: u32,
    garbage: Option<Blob>,
    decoys: Option<Vec<Blob>>,
    cuts: Vec<u32>,
}
fn party() -> BoxedStrategy<Party> {
    (
        any::<u32>(),
        proptest::option::weighted(0.8, prop_oneof![4 => blob(4095), 1 => (4080u32..=4095, any::<u32>()).prop_map(|(l, s)| Blob::R(l, s))]),
        proptest::option::of(prop_oneof![4 => crate::wire::local_decoys(), 3 => proptest::collection::vec(prop_oneof![4 => blob(100), 1 => blob(4000)], 0..5)]),
        cuts(),
    )
        .prop_map(|(seed, garbage, decoys, cuts)| Party { seed, garbage, decoys, cuts })
        .boxed()
}
fn cuts() -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        2 => Just(vec![]),
        1 => Just(vec![16, 256]),
        1 => Just(vec![7]),
        4 => proptest::collection::vec(prop_oneof![2 => 1u32..20, 2 => 1u32..600, 1 => 1u32..4200], 1..6),
    ]
    .boxed()
}
struct Sent {
    key: [u8; 64],
    garbage: Vec<u8>,
    /// key and garbage
    first: Vec<u8>,
    /// terminator, decoys and version
    second: Vec<u8>,
    hs: Handshake<SentVersion>,
}
type KeySent<'a> = (Handshake<bip324::SentKey<'a>>, Vec<u8>);
fn send_key<'a>(seed: u32, initiator: bool, magic: [u8; 4], garbage: Option<&'a [u8]>) -> Result<KeySent<'a>, String> {
    let hs = new_handshake(seed, initiator, magic)?;
    let mut first = vec![0u8; Handshake::<Initialized>::send_key_len(garbage)];
    let hs = hs.send_key(garbage, &mut first).map_err(|e| format!("send_key: {e:?}"))?;
    Ok((hs, first))
}
fn send_rest(k: KeySent, garbage: Vec<u8>, decoys: &Option<Vec<Vec<u8>>>, their: [u8; 64]) -> Result<Sent, Error> {
    let (hs, first) = k;
    let hs = hs.receive_key(their)?;
    let refs: Option<Vec<&[u8]>> = decoys.as_ref().map(|d| d.iter().map(|x| x.as_slice()).collect());
    let mut second = vec![0u8; Handshake::<ReceivedKey>::send_version_len(refs.as_deref())];
    let hs = hs.send_version(&mut second, refs.as_deref())?;
    Ok(Sent { key: first[..64].try_into().unwrap(), garbage, first, second, hs })
}
fn get_all(d: &Option<Vec<Blob>>) -> Option<Vec<Vec<u8>>> {
    d.as_ref().map(|d| d.iter().map(|b| b.get()).collect())
}
fn talk(a: &mut CipherSession, b: &mut CipherSession, rounds: u32) -> Result<(), String> {
    ensure!(a.id() == b.id(), "session ids differ after the handshake");
    for k in 0..rounds {
        for dir in 0..2 {
            let (s, r) = if dir == 0 { (&mut *a, &mut *b) } else { (&mut *b, &mut *a) };
            let m = prng_bytes(k as u64, (k * 7 % 50) as usize);
            let t = if k % 3 == 2 { PacketType::Decoy } else { PacketType::Genuine };
            let p = s.outbound().encrypt_to_vec(&m, t, None);
            let n = r.inbound().decrypt_packet_len(p[..3].try_into().unwrap());
            ensure!(n + 3 == p.len(), "length after the handshake");
            let (t2, q) = r.inbound().decrypt_to_vec(&p[3..], None).map_err(|e| format!("first packets after the handshake are rejected: {e:?}"))?;
            ensure!(t2 == t && q[1..] == m[..], "packet changed after the handshake");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MutualCase {
    magic: [u8; 4],
    a: Party,
    b: Party,
}
fn mutual_strategy(_: Tier) -> BoxedStrategy<MutualCase> {
    (magic(), party(), party()).prop_map(|(magic, a, b)| MutualCase { magic, a, b }).boxed()
}
fn mutual_check(c: &MutualCase) -> CaseResult {
    let (ga, gb) = (c.a.garbage.as_ref().map(|g| g.get()), c.b.garbage.as_ref().map(|g| g.get()));
    let (da, db) = (get_all(&c.a.decoys), get_all(&c.b.decoys));
    if c.a.seed == c.b.seed {
        return Ok(Outcome::default());
    }
    let ka = send_key(c.a.seed, true, c.magic, ga.as_deref())?;
    let kb = send_key(c.b.seed, false, c.magic, gb.as_deref())?;
    let (pa, pb): ([u8; 64], [u8; 64]) = (ka.1[..64].try_into().unwrap(), kb.1[..64].try_into().unwrap());
    if pa[..4] == c.magic || pb[..4] == c.magic {
        return Ok(Outcome::default());
    }
    let sa = send_rest(ka, ga.clone().unwrap_or_default(), &da, pb).map_err(|e| format!("initiator: {e:?}"))?;
    let sb = send_rest(kb, gb.clone().unwrap_or_default(), &db, pa).map_err(|e| format!("responder: {e:?}"))?;
    let to_b: Vec<u8> = [&sa.first[64..], &sa.second].concat();
    let to_a: Vec<u8> = [&sb.first[64..], &sb.second].concat();
    ensure!(sa.first[64..] == sa.garbage[..] && sb.first[64..] == sb.garbage[..], "garbage on the wire differs");
    ensure!(sa.key == pa && sb.key == pb, "key changed");
    // Trailing bytes of later packets must be left alone.
    let trail = prng_bytes(c.a.seed as u64, (c.b.seed % 40) as usize);
    let ra = finish(sa.hs, &[&to_a[..], &trail].concat(), &c.a.cuts).map_err(|e| format!("initiator does not complete: {e:?}"))?;
    let rb = finish(sb.hs, &[&to_b[..], &trail].concat(), &c.b.cuts).map_err(|e| format!("responder does not complete: {e:?}"))?;
    for (who, r, g, d, n) in [("initiator", &ra, &gb, &db, to_a.len()), ("responder", &rb, &ga, &da, to_b.len())] {
        let gl = g.as_ref().map(|g| g.len()).unwrap_or(0);
        ensure!(r.garbage_end == gl + 16, "{who}: {} bytes consumed for {gl} garbage bytes", r.garbage_end);
        ensure!(r.used == n, "{who}: handshake used {} of {n} bytes", r.used);
        let nd = d.as_ref().map(|d| d.len()).unwrap_or(0);
        ensure!(r.decoys == nd, "{who}: saw {} of {nd} decoys", r.decoys);
    }
    let (mut a, mut b) = (ra.cipher, rb.cipher);
    talk(&mut a, &mut b, 4)?;
    let mut cl = vec![];
    let max = ga.iter().chain(gb.iter()).map(|g| g.len()).max().unwrap_or(0);
    if max >= 4079 {
        cl.push("garbage-near-limit");
    }
    if max > 0 {
        cl.push("garbage");
    }
    if da.iter().chain(db.iter()).any(|d| !d.is_empty()) {
        cl.push("decoys");
    }
    if !c.a.cuts.is_empty() {
        cl.push("incremental");
    }
    let nt = cl.len() >= 2;
    Ok(Outcome::new(nt, cl))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ModelPeerCase {
    magic: [u8; 4],
    initiator: bool,
    local: Party,
    rseed: u32,
    remote: PeerHs,
    after: Vec<(u8, Blob)>,
}
fn modelpeer_strategy(_: Tier) -> BoxedStrategy<ModelPeerCase> {
    (magic(), any::<bool>(), party(), any::<u32>(), crate::wire::peer_hs(), crate::wire::session_packets(4))
        .prop_map(|(magic, initiator, local, rseed, remote, after)| ModelPeerCase { magic, initiator, local, rseed, remote, after })
        .boxed()
}
fn modelpeer_check(c: &ModelPeerCase) -> CaseResult {
    let g = c.local.garbage.as_ref().map(|g| g.get());
    let d = get_all(&c.local.decoys);
    let their = remote_ell(c.rseed);
    let k = send_key(c.local.seed, c.initiator, c.magic, g.as_deref())?;
    let key: [u8; 64] = k.1[..64].try_into().unwrap();
    let s = match send_rest(k, g.clone().unwrap_or_default(), &d, their) {
        Ok(s) => s,
        Err(Error::V1Protocol) if their[..4] == c.magic => return Ok(Outcome::default()),
        Err(e) => return Err(format!("handshake failed: {e:?}")),
    };
    let (ei, er) = if c.initiator { (&key, &their) } else { (&their, &key) };
    let sec = Secrets::derive(ei, er, &secret(c.rseed), !c.initiator, c.magic);
    let (mut tx, mut rx) = sec.dirs(!c.initiator);
    let mut stream = c.remote.garbage.get();
    stream.extend(c.remote.tail(&sec.terms(!c.initiator).0, &mut tx));
    let hs_len = stream.len();
    for (h, b) in &c.after {
        stream.extend(tx.seal(*h, &b.get(), &[]));
    }
    let mut r = finish(s.hs, &stream, &c.local.cuts).map_err(|e| format!("handshake with a conforming peer does not complete: {e:?}"))?;
    ensure!(r.used == hs_len && r.garbage_end == c.remote.garbage.len() + 16 && r.decoys == c.remote.decoys.len(), "wrong accounting: used {} of {hs_len}, garbage end {}, {} decoys", r.used, r.garbage_end, r.decoys);
    ensure!(r.cipher.id() == &sec.session_id, "session id differs from the specification");
    // The packets that arrived together with the handshake.
    let mut at = r.used;
    for (i, (h, b)) in c.after.iter().enumerate() {
        let n = r.cipher.inbound().decrypt_packet_len(stream[at..at + 3].try_into().unwrap());
        ensure!(n == b.len() + 17, "packet {i} after the handshake: length {n}");
        let (t, p) = r.cipher.inbound().decrypt_to_vec(&stream[at + 3..at + 3 + n], None).map_err(|e| format!("packet {i} after the handshake: {e:?}"))?;
        ensure!(p[0] == *h && p[1..] == b.get()[..] && (t == PacketType::Decoy) == (h & 0x80 != 0), "packet {i} after the handshake differs");
        at += 3 + n;
    }
    // What the local side sent is what a conforming peer accepts.
    let mut at = 16;
    ensure!(s.second[..16] == sec.terms(c.initiator).0, "local terminator");
    let gv = g.unwrap_or_default();
    let mut aad: &[u8] = &gv;
    for x in d.iter().flatten() {
        ensure!(rx.open(&s.second[at..at + x.len() + 20], aad) == Some((0x80, x.clone())), "a conforming peer rejects a handshake decoy");
        aad = &[];
        at += x.len() + 20;
    }
    ensure!(rx.open(&s.second[at..], aad) == Some((0, vec![])), "a conforming peer rejects the version packet");
    let p = r.cipher.outbound().encrypt_to_vec(b"x", PacketType::Genuine, None);
    ensure!(rx.open(&p, &[]) == Some((0, b"x".to_vec())), "a conforming peer rejects the first packet");
    Ok(Outcome::new(c.remote.garbage.len() > 0 || !c.remote.decoys.is_empty(), vec![if c.after.is_empty() { "handshake-only" } else { "packets-behind-handshake" }]))
}

fn decoys_list(t: Tier) -> Vec<ManyCase> {
    ManyCase::list(&[2], t)
}
fn decoys_check(c: &ManyCase) -> CaseResult {
    let (l, r) = c.parts();
    let p = |seed| Party { seed, garbage: l.garbage.clone(), decoys: l.decoys.clone(), cuts: vec![16, 256] };
    modelpeer_check(&ModelPeerCase { magic: l.magic, initiator: c.initiator, local: p(c.local), rseed: r.rseed, remote: r.hs.clone(), after: r.session.clone() })?;
    let q = Party { seed: 5, garbage: None, decoys: Some(r.hs.decoys.iter().map(|d| d.1.clone()).collect()), cuts: vec![] };
    mutual_check(&if c.initiator { MutualCase { magic: l.magic, a: p(4), b: q } } else { MutualCase { magic: l.magic, a: q, b: p(4) } })?;
    Ok(Outcome::new(true, vec![if c.remote.max(c.local) > 65_535 { "above-65535" } else if c.remote.max(c.local) > 255 { "above-255" } else { "up-to-255" }]))
}

// ------------------------------------------------------------------ C07
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mitm {
    /// Flip a bit of the key / garbage / terminator / packets (section, bit).
    Flip(u8, u32),
    /// Replace the key by that of the attacker.
    OtherKey(u32),
    /// Remove bytes (position, count) after the key.
    Delete(u32, u32),
    /// Insert bytes after the key at a position.
    Insert(u32, Blob),
    /// Drop the nth packet.
    DropPacket(u8),
    /// Repeat the nth packet.
    DupPacket(u8),
    /// Swap the first two packets.
    SwapPackets,
    /// Remove all garbage.
    StripGarbage,
    /// The parties use different magics.
    OtherMagic([u8; 4]),
    /// Both parties act in the same role.
    SameRole(bool),
    /// The victim receives its own bytes back.
    Mirror,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MitmCase {
    magic: [u8; 4],
    a: Party,
    b: Party,
    /// Which direction is attacked.
    attack_initiator: bool,
    attack: Mitm,
}
fn mitm_strategy(_: Tier) -> BoxedStrategy<MitmCase> {
    let small_party = (any::<u32>(), proptest::option::weighted(0.8, prop_oneof![6 => blob(60), 1 => blob(4095)]), proptest::option::of(proptest::collection::vec(blob(40), 0..4)), cuts())
        .prop_map(|(seed, garbage, decoys, cuts)| Party { seed, garbage, decoys, cuts });
    let atk = prop_oneof![
        8 => (0u8..5, any::<u32>()).prop_map(|(s, b)| Mitm::Flip(s, b)),
        1 => any::<u32>().prop_map(Mitm::OtherKey),
        2 => (any::<u32>(), 1u32..40).prop_map(|(p, n)| Mitm::Delete(p, n)),
        2 => (any::<u32>(), blob(40)).prop_map(|(p, b)| Mitm::Insert(p, b)),
        1 => any::<u8>().prop_map(Mitm::DropPacket),
        1 => any::<u8>().prop_map(Mitm::DupPacket),
        1 => Just(Mitm::SwapPackets),
        1 => Just(Mitm::StripGarbage),
        2 => magic().prop_map(Mitm::OtherMagic),
        1 => any::<bool>().prop_map(Mitm::SameRole),
        1 => Just(Mitm::Mirror),
    ];
    (magic(), small_party.clone(), small_party, any::<bool>(), atk)
        .prop_map(|(magic, a, b, attack_initiator, attack)| MitmCase { magic, a, b, attack_initiator, attack })
        .boxed()
}
fn mitm_check(c: &MitmCase) -> CaseResult {
    if c.a.seed == c.b.seed {
        return Ok(Outcome::default());
    }
    // v = victim (receives tampered bytes), p = its peer.
    let (v, p) = if c.attack_initiator { (&c.a, &c.b) } else { (&c.b, &c.a) };
    let mut v_init = c.attack_initiator;
    let mut p_init = !c.attack_initiator;
    let (vm, mut pm) = (c.magic, c.magic);
    match &c.attack {
        Mitm::OtherMagic(m) => {
            if *m == c.magic {
                return Ok(Outcome::default());
            }
            pm = *m;
        }
        Mitm::SameRole(r) => {
            v_init = *r;
            p_init = *r;
        }
        _ => {}
    }
    let (gv, gp) = (v.garbage.as_ref().map(|g| g.get()), p.garbage.as_ref().map(|g| g.get()));
    let (dv, dp) = (get_all(&v.decoys), get_all(&p.decoys));
    let kv = send_key(v.seed, v_init, vm, gv.as_deref())?;
    let kp = send_key(p.seed, p_init, pm, gp.as_deref())?;
    let pv: [u8; 64] = kv.1[..64].try_into().unwrap();
    let pp: [u8; 64] = kp.1[..64].try_into().unwrap();
    // The key the victim sees.
    let mut seen = pp;
    match &c.attack {
        Mitm::Flip(0, bit) => {
            let b = *bit as usize % 512;
            seen[b / 8] ^= 1 << (b % 8);
        }
        Mitm::OtherKey(s) => seen = remote_ell(*s),
        Mitm::Mirror => seen = pv,
        _ => {}
    }
    let sv = match send_rest(kv, gv.clone().unwrap_or_default(), &dv, seen) {
        Ok(s) => s,
        Err(Error::V1Protocol) => return Ok(Outcome::default()),
        Err(e) => return Err(format!("HARNESS:victim send {e:?}")),
    };
    let sp = match send_rest(kp, gp.clone().unwrap_or_default(), &dp, pv) {
        Ok(s) => s,
        Err(Error::V1Protocol) => return Ok(Outcome::default()),
        Err(e) => return Err(format!("peer: {e:?}")),
    };
    let glen = sp.garbage.len();
    let honest: Vec<u8> = [&sp.first[64..], &sp.second].concat();
    let mut s = honest.clone();
    // Packet boundaries in the honest stream.
    let mut marks = vec![glen + 16];
    for d in dp.iter().flatten() {
        marks.push(marks.last().unwrap() + d.len() + 20);
    }
    marks.push(s.len());
    let np = marks.len() - 1;
    let mut class = "key";
    match &c.attack {
        Mitm::Flip(0, _) | Mitm::OtherKey(_) => {}
        Mitm::Mirror => {
            s = [&sv.first[64..], &sv.second].concat();
            class = "mirror";
        }
        Mitm::Flip(sec, bit) => {
            let (lo, hi) = match sec {
                1 => (0, glen),
                2 => (glen, glen + 16),
                3 => (glen + 16, s.len()),
                _ => (*marks.get(np - 1).unwrap(), s.len()),
            };
            if lo == hi {
                return Ok(Outcome::default());
            }
            let b = *bit as usize % ((hi - lo) * 8);
            s[lo + b / 8] ^= 1 << (b % 8);
            class = ["", "garbage", "terminator", "packets", "version"][(*sec as usize).min(4)];
        }
        Mitm::Delete(p, n) => {
            let at = *p as usize % s.len();
            let end = (at + *n as usize).min(s.len());
            s.drain(at..end);
            class = "deleted";
        }
        Mitm::Insert(p, b) => {
            // Anything behind the version packet is no longer part of the handshake.
            let at = *p as usize % s.len();
            let b = b.get();
            if b.is_empty() {
                return Ok(Outcome::default());
            }
            s.splice(at..at, b);
            class = "inserted";
        }
        Mitm::DropPacket(n) => {
            let k = *n as usize % np;
            s.drain(marks[k]..marks[k + 1]);
            class = "dropped-packet";
        }
        Mitm::DupPacket(n) => {
            let k = *n as usize % np;
            if k + 1 == np {
                return Ok(Outcome::default());
            }
            let dup = s[marks[k]..marks[k + 1]].to_vec();
            s.splice(marks[k + 1]..marks[k + 1], dup);
            class = "repeated-packet";
        }
        Mitm::SwapPackets => {
            if np < 2 {
                return Ok(Outcome::default());
            }
            let x = s[marks[0]..marks[1]].to_vec();
            let y = s[marks[1]..marks[2]].to_vec();
            s.splice(marks[0]..marks[2], [y, x].concat());
            class = "swapped";
        }
        Mitm::StripGarbage => {
            if glen == 0 {
                return Ok(Outcome::default());
            }
            s.drain(..glen);
            class = "stripped-garbage";
        }
        Mitm::OtherMagic(_) => class = "other-magic",
        Mitm::SameRole(_) => class = "same-role",
    }
    let unchanged = s.starts_with(&honest) && seen == pp && pm == vm && v_init != p_init;
    if unchanged {
        // For example an insertion that shifts equal bytes.
        return Ok(Outcome::default());
    }
    match finish(sv.hs, &s, &v.cuts) {
        Ok(_) => Err(format!("handshake completed although the {class} was tampered with")),
        Err(_) => {
            // The other party, which saw the true key but whose counterpart derived other secrets,
            // must not complete on what the victim sends when the victim saw another key.
            if seen != pp {
                let back = [&sv.first[64..], &sv.second].concat();
                ensure!(finish(sp.hs, &back, &[]).is_err(), "peer completed although the victim saw another key");
            }
            Ok(Outcome::new(true, vec![class]))
        }
    }
}

// ------------------------------------------------------------------ C08
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Piece {
    Rand(Blob),
    /// First n bytes of the true terminator.
    Head(u8),
    /// Last n bytes of the true terminator.
    Foot(u8),
    /// The true terminator with one bit flipped.
    Near(u8),
    /// The local side's own terminator.
    Own,
    /// The true terminator.
    Term,
    /// Pad the stream to exactly this length.
    PadTo(u32, u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SearchCase {
    lseed: u32,
    rseed: u32,
    initiator: bool,
    pieces: Vec<Piece>,
    probes: Vec<u32>,
    cuts: Vec<u32>,
}
pub fn pieces() -> BoxedStrategy<Vec<Piece>> {
    let piece = prop_oneof![
        4 => blob(600).prop_map(Piece::Rand),
        2 => (1u8..16).prop_map(Piece::Head),
        1 => (1u8..16).prop_map(Piece::Foot),
        2 => (0u8..128).prop_map(Piece::Near),
        1 => Just(Piece::Own),
        3 => Just(Piece::Term),
        2 => (prop_oneof![4070u32..4120, 200u32..300, 0u32..4200], any::<u32>()).prop_map(|(n, s)| Piece::PadTo(n, s)),
    ];
    prop_oneof![
        3 => proptest::collection::vec(piece.clone(), 0..7),
        // Terminator right around the limit.
        2 => (4090u32..4101, any::<u32>(), proptest::collection::vec(piece, 0..3)).prop_map(|(n, s, mut v)| {
            v.push(Piece::PadTo(n, s));
            v.push(Piece::Term);
            v
        }),
    ]
    .boxed()
}
pub fn assemble(pieces: &[Piece], term: &[u8; 16], own: &[u8; 16]) -> Vec<u8> {
    let mut s = Vec::new();
    for p in pieces {
        match p {
            Piece::Rand(b) => s.extend(b.get()),
            Piece::Head(n) => s.extend(&term[..*n as usize % 16]),
            Piece::Foot(n) => s.extend(&term[16 - *n as usize % 16..]),
            Piece::Near(b) => {
                let mut t = *term;
                t[*b as usize / 8 % 16] ^= 1 << (b % 8);
                s.extend(t);
            }
            Piece::Own => s.extend(own),
            Piece::Term => s.extend(term),
            Piece::PadTo(n, seed) => {
                let n = *n as usize;
                if s.len() < n {
                    let k = n - s.len();
                    s.extend(prng_bytes(*seed as u64, k));
                }
            }
        }
    }
    s
}
/// First position of the terminator, by the plainest possible search.
pub fn first_term(s: &[u8], term: &[u8; 16]) -> Option<usize> {
    (0..s.len().saturating_sub(15)).find(|i| s[*i..*i + 16] == term[..])
}
/// Lengthens the stream without completing a terminator by chance.
pub fn fill(s: &mut Vec<u8>, n: usize, seed: u32, term: &[u8; 16]) {
    let (at, before) = (s.len(), first_term(s, term));
    let mut seed = seed as u64;
    while s.len() < n || first_term(s, term) != before {
        s.truncate(at);
        s.extend(prng_bytes(seed, n - at));
        seed += 1 << 32;
    }
}
fn search_strategy(_: Tier) -> BoxedStrategy<SearchCase> {
    (any::<u32>(), any::<u32>(), any::<bool>(), pieces(), proptest::collection::vec(prop_oneof![0u32..5000, 4090u32..4130], 1..5), cuts())
        .prop_map(|(lseed, rseed, initiator, pieces, probes, cuts)| SearchCase { lseed, rseed, initiator, pieces, probes, cuts })
        .boxed()
}
fn search_check(c: &SearchCase) -> CaseResult {
    let magic = [0xfb, 0xc0, 0xb6, 0xdb];
    let their = remote_ell(c.rseed);
    let start = || -> Result<Sent, String> {
        let k = send_key(c.lseed, c.initiator, magic, None)?;
        send_rest(k, vec![], &None, their).map_err(|e| format!("handshake: {e:?}"))
    };
    let s = start()?;
    let (ei, er) = if c.initiator { (&s.key, &their) } else { (&their, &s.key) };
    let sec = Secrets::derive(ei, er, &secret(c.lseed), c.initiator, magic);
    let (own, term) = sec.terms(c.initiator);
    let mut stream = assemble(&c.pieces, &term, &own);
    let at = first_term(&stream, &term);
    let (mut tx, _) = sec.dirs(!c.initiator);
    let valid = at.map(|i| i <= 4095).unwrap_or(false);
    let end;
    if let (Some(i), true) = (at, valid) {
        let g = stream[..i].to_vec();
        stream.truncate(i + 16);
        stream.extend(tx.seal(0x80, b"decoy", &g));
        stream.extend(tx.seal(0, &[], &[]));
        end = stream.len();
        stream.extend(tx.seal(0, b"session", &[]));
    } else {
        end = 0;
        fill(&mut stream, 4111 + (c.rseed % 300) as usize, c.rseed, &term);
    }
    ensure!(first_term(&stream, &term) == at, "HARNESS:accidental terminator");
    // Single probes with prefixes of any size.
    let probes = c.probes.iter().copied().chain([stream.len() as u32, 15, 16, at.unwrap_or(0) as u32 + 15, at.unwrap_or(0) as u32 + 16, 4110, 4111, 4112]);
    for n in probes {
        let n = (n as usize).min(stream.len());
        let expect = match first_term(&stream[..n], &term) {
            Some(i) if i <= 4095 => Ok(Some(i + 16)),
            _ if n >= 4111 => Err(Error::NoGarbageTerminator),
            _ => Ok(None),
        };
        let got = match start()?.hs.receive_garbage(&stream[..n]) {
            Ok(GarbageResult::FoundGarbage { consumed_bytes, .. }) => Ok(Some(consumed_bytes)),
            Ok(GarbageResult::NeedMoreData(_)) => Ok(None),
            Err(e) => Err(e),
        };
        ensure!(got == expect, "with {n} bytes (terminator at {at:?}): {got:?}, expected {expect:?}");
    }
    // And the incremental way to completion.
    let r = finish(s.hs, &stream, &c.cuts);
    let mut cl = vec![];
    match (valid, r) {
        (true, Ok(d)) => {
            ensure!(d.garbage_end == at.unwrap() + 16 && d.used == end && d.decoys == 1, "consumed {} bytes of garbage, used {}", d.garbage_end, d.used);
            if at.unwrap() > 4080 {
                cl.push("found-near-limit");
            }
            cl.push("found");
        }
        (true, Err(e)) => return Err(format!("terminator at {at:?} is not usable: {e:?}")),
        (false, Err(Stop::Err(Error::NoGarbageTerminator))) => cl.push(if at.is_some() { "terminator-too-late" } else { "no-terminator" }),
        (false, Err(e)) => return Err(format!("terminator at {at:?}: stopped with {e:?}")),
        (false, Ok(_)) => return Err(format!("completed with a terminator at {at:?}")),
    }
    Ok(Outcome::new(c.pieces.len() > 1, cl))
}

// ------------------------------------------------------------------ C09 (sans-IO part)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V1Case {
    pub magic: [u8; 4],
    pub initiator: bool,
    pub lseed: u32,
    /// How the first 64 bytes of the remote look.
    pub kind: u8,
    pub rest: Blob,
    pub arg: u32,
}
pub fn v1_strategy(_: Tier) -> BoxedStrategy<V1Case> {
    (magic(), any::<bool>(), any::<u32>(), 0u8..7, blob(200), any::<u32>())
        .prop_map(|(magic, initiator, lseed, kind, rest, arg)| V1Case { magic, initiator, lseed, kind, rest, arg })
        .boxed()
}
/// The first bytes a remote sends and whether they are those of a version 1 peer on the same network.
pub fn v1_bytes(c: &V1Case) -> ([u8; 64], bool) {
    let mut k: [u8; 64] = remote_ell(c.arg);
    match c.kind {
        // A version message of the old protocol.
        0 => {
            let mut m = c.magic.to_vec();
            m.extend(b"version\0\0\0\0\0");
            m.extend((c.rest.len() as u32 + 60).to_le_bytes());
            m.extend(c.rest.get());
            m.resize(64, 0x11);
            k.copy_from_slice(&m[..64]);
        }
        // Magic then anything.
        1 => {
            let mut m = c.magic.to_vec();
            m.extend(c.rest.get());
            m.resize(64, c.arg as u8);
            k.copy_from_slice(&m[..64]);
        }
        // Only part of the magic matches.
        2 => {
            k[..4].copy_from_slice(&c.magic);
            k[(c.arg % 4) as usize] ^= 1 << (c.arg / 4 % 8);
        }
        // Magic reversed.
        3 => {
            let mut m = c.magic;
            m.reverse();
            k[..4].copy_from_slice(&m);
        }
        // Magic elsewhere.
        4 => {
            let at = 1 + (c.arg % 60) as usize;
            k[at..at + 4].copy_from_slice(&c.magic);
        }
        // A version message for another network.
        5 => {
            let mut m = vec![c.magic[0].wrapping_add(1), c.magic[1], c.magic[2], c.magic[3]];
            m.extend(b"version\0\0\0\0\0");
            m.resize(64, 0);
            k.copy_from_slice(&m);
        }
        _ => {}
    }
    let v1 = k[..4] == c.magic;
    (k, v1)
}
fn v1_sans_check(c: &V1Case) -> CaseResult {
    let (k, v1) = v1_bytes(c);
    let g = c.rest.get();
    let (hs, _) = send_key(c.lseed, c.initiator, c.magic, if g.is_empty() { None } else { Some(&g) })?;
    match hs.receive_key(k) {
        Err(Error::V1Protocol) => ensure!(v1, "a remote starting with {} on network {} is reported as V1", short(&k[..8]), short(&c.magic)),
        Ok(_) => ensure!(!v1, "a V1 remote is not detected"),
        Err(e) => return Err(format!("receive_key: {e:?}")),
    }
    Ok(Outcome::new(c.kind < 6, vec![if v1 { "v1" } else { "not-v1" }]))
}

// ------------------------------------------------------------------ C16
fn header_list(_: Tier) -> Vec<u8> {
    (0..=255).collect()
}
fn header_check(h: &u8) -> CaseResult {
    let h = *h;
    let decoy = h & 0x80 != 0;
    let t = PacketType::from_byte(&h);
    ensure!((t == PacketType::Decoy) == decoy, "header byte {h:#04x} is classified as {t:?}");
    ensure!(PacketType::from_byte(&t.to_byte()) == t, "to_byte and from_byte disagree for {t:?}");
    ensure!(t.to_byte() == if decoy { 0x80 } else { 0 }, "{t:?} is encoded as {:#x}", t.to_byte());
    // As first, second packet of the handshake, and in the session.
    for pos in 0..2usize {
        let magic = [5, 5, 5, 5];
        let their = remote_ell(77);
        let k = send_key(h as u32, h % 3 == 0, magic, None)?;
        let key: [u8; 64] = k.1[..64].try_into().unwrap();
        let s = send_rest(k, vec![], &None, their).map_err(|e| format!("{e:?}"))?;
        let init = h % 3 == 0;
        let (ei, er) = if init { (&key, &their) } else { (&their, &key) };
        let sec = Secrets::derive(ei, er, &secret(77), !init, magic);
        let (mut tx, _) = sec.dirs(!init);
        let mut stream = sec.terms(!init).0.to_vec();
        for _ in 0..pos {
            stream.extend(tx.seal(0x80, b"d", &[]));
        }
        stream.extend(tx.seal(h, &[], &[]));
        let at = stream.len();
        stream.extend(tx.seal(0, &[], &[]));
        let end = stream.len();
        stream.extend(tx.seal(h, b"payload", &[]));
        let mut d = finish(s.hs, &stream, &[]).map_err(|e| format!("header {h:#04x} in the handshake: {e:?}"))?;
        ensure!(d.used == if decoy { end } else { at }, "header {h:#04x}: handshake completed at byte {} (decoy would be {end}, version {at})", d.used);
        if decoy {
            let l = d.cipher.inbound().decrypt_packet_len(stream[end..end + 3].try_into().unwrap());
            let (t, p) = d.cipher.inbound().decrypt_to_vec(&stream[end + 3..end + 3 + l], None).map_err(|e| format!("{e:?}"))?;
            ensure!(t == PacketType::Decoy && p[0] == h, "session packet with header {h:#04x}: {t:?}");
        }
    }
    Ok(Outcome::new(true, vec![if decoy { "ignore-bit" } else { "no-ignore-bit" }]))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VersionCase {
    lseed: u32,
    initiator: bool,
    garbage: Blob,
    packets: Vec<(u8, Blob)>,
    version: (u8, Blob),
    after: Vec<(u8, Blob)>,
}
fn version_strategy(_: Tier) -> BoxedStrategy<VersionCase> {
    let pk = || (any::<u8>(), prop_oneof![5 => blob(80), 1 => blob(5000)]);
    (any::<u32>(), any::<bool>(), blob(100), proptest::collection::vec(pk(), 0..12), pk(), proptest::collection::vec(pk(), 0..4))
        .prop_map(|(lseed, initiator, garbage, packets, version, after)| VersionCase { lseed, initiator, garbage, packets, version, after })
        .boxed()
}
fn version_check(c: &VersionCase) -> CaseResult {
    let magic = [5, 6, 7, 8];
    let their = remote_ell(!c.lseed);
    let k = send_key(c.lseed, c.initiator, magic, None)?;
    let key: [u8; 64] = k.1[..64].try_into().unwrap();
    let s = send_rest(k, vec![], &None, their).map_err(|e| format!("{e:?}"))?;
    let (ei, er) = if c.initiator { (&key, &their) } else { (&their, &key) };
    let sec = Secrets::derive(ei, er, &secret(!c.lseed), !c.initiator, magic);
    let (mut tx, _) = sec.dirs(!c.initiator);
    let g = c.garbage.get();
    let mut stream = g.clone();
    stream.extend(sec.terms(!c.initiator).0);
    let mut aad: &[u8] = &g;
    for (h, b) in &c.packets {
        stream.extend(tx.seal(h | 0x80, &b.get(), aad));
        aad = &[];
    }
    stream.extend(tx.seal(c.version.0 & 0x7f, &c.version.1.get(), aad));
    let end = stream.len();
    for (h, b) in &c.after {
        stream.extend(tx.seal(*h, &b.get(), &[]));
    }
    let mut d = finish(s.hs, &stream, &[]).map_err(|e| format!("version negotiation does not complete: {e:?}"))?;
    ensure!(d.used == end && d.decoys == c.packets.len(), "completed at byte {} of {end} after {} of {} decoys", d.used, d.decoys, c.packets.len());
    let mut at = end;
    for (h, b) in &c.after {
        let n = d.cipher.inbound().decrypt_packet_len(stream[at..at + 3].try_into().unwrap());
        let (t, p) = d.cipher.inbound().decrypt_to_vec(&stream[at + 3..at + 3 + n], None).map_err(|e| format!("session packet: {e:?}"))?;
        ensure!((t == PacketType::Decoy) == (h & 0x80 != 0) && p[0] == *h && p[1..] == b.get()[..], "session packet with header {h:#04x} reported as {t:?}");
        at += n + 3;
    }
    Ok(Outcome::new(!c.packets.is_empty() || c.version.1.len() > 0, vec![if c.version.1.len() > 0 { "version-with-contents" } else { "empty-version" }]))
}

pub fn v1_sans() -> crate::runner::Family {
    family("sans-io", 60_000, 600_000, v1_strategy, v1_sans_check)
}
pub fn search() -> crate::runner::Family {
    family("search", 12_000, 200_000, search_strategy, search_check)
}
pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            level: "exploration",
            rule: "Two local parties, or a local party and the model, complete a handshake for random roles, magics, garbage 0..4095, decoys and feeding patterns, with later packets already behind the handshake bytes. Non-trivial: at least two of garbage, near-limit garbage, decoys, incremental feeding (mutual), or the remote sends garbage or decoys (model-peer).",
            assumptions: &[],
            families: vec![family("mutual", 30_000, 400_000, mutual_strategy, mutual_check), family("model-peer", 30_000, 400_000, modelpeer_strategy, modelpeer_check), enumerate("decoys", decoys_list, decoys_check)],
        },
        Property {
            id: "C07",
            level: "exploration",
            rule: "A man in the middle alters the key, garbage, terminator, packets, magic or roles; the party receiving altered bytes must not complete. Non-trivial: the bytes up to the end of the version packet really differ.",
            assumptions: &["forging a tag or a terminator by chance is negligible"],
            families: vec![family("mitm", 60_000, 800_000, mitm_strategy, mitm_check)],
        },
        Property {
            id: "C16",
            level: "exploration",
            rule: "All 256 header bytes in the handshake and session (exhaustive), and random version negotiations with arbitrary reserved bits and version contents. Non-trivial: all headers; negotiations with decoys or version contents.",
            assumptions: &[],
            families: vec![enumerate("headers", header_list, header_check), family("negotiate", 30_000, 300_000, version_strategy, version_check)],
        },
    ]
}
