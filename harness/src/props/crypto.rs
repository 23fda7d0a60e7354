//! C01-C05: key agreement, packets, round trips, tampering, failed operations.
use crate::ensure;
use crate::model::{hex, Dir, Secrets};
use crate::runner::{enumerate, family, CaseResult, Outcome, Property, Tier};
use crate::session::*;
use crate::util::*;
use bip324::{
    CipherSession, Error, GarbageResult, Handshake, InboundCipher, Initialized, OutboundCipher, PacketType, ReceivedKey,
    SessionKeyMaterial, VersionResult,
};
use proptest::prelude::*;
use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty};
use secp256k1::PublicKey;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

fn ptype(decoy: bool) -> PacketType {
    if decoy { PacketType::Decoy } else { PacketType::Genuine }
}

// ------------------------------------------------------------------ C01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DeriveCase {
    lseed: u32,
    initiator: bool,
    magic: [u8; 4],
    their: Blob,
    garbage: Option<Blob>,
    decoys: Vec<Blob>,
}
fn raw_key() -> BoxedStrategy<Blob> {
    let p = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f";
    let p1 = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc30";
    let z = "0000000000000000000000000000000000000000000000000000000000000000";
    let o = "0000000000000000000000000000000000000000000000000000000000000001";
    let f = "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff";
    let edge: Vec<String> = [p, p1, z, o, f].iter().map(|s| s.to_string()).collect();
    let e2 = edge.clone();
    prop_oneof![
        5 => any::<u32>().prop_map(|s| Blob::X(hex(&remote_ell(s)), 64)),
        4 => any::<u32>().prop_map(|s| Blob::R(64, s)),
        1 => any::<u8>().prop_map(|b| Blob::K(64, b)),
        1 => (proptest::sample::select(edge.clone()), proptest::sample::select(e2)).prop_map(|(a, b)| Blob::X(a + &b, 64)),
        1 => (proptest::sample::select(edge), any::<u32>(), any::<bool>()).prop_map(|(a, s, first)| {
            let r = hex(&prng_bytes(s as u64, 32));
            Blob::X(if first { a + &r } else { r + &a }, 64)
        }),
    ]
    .boxed()
}
fn derive_strategy(_: Tier) -> BoxedStrategy<DeriveCase> {
    (any::<u32>(), any::<bool>(), magic(), raw_key(), proptest::option::of(blob(300)), proptest::collection::vec(blob(80), 0..3))
        .prop_map(|(lseed, initiator, magic, their, garbage, decoys)| DeriveCase { lseed, initiator, magic, their, garbage, decoys })
        .boxed()
}
fn derive_check(c: &DeriveCase) -> CaseResult {
    let their: [u8; 64] = c.their.get().try_into().map_err(|_| "HARNESS:key length".to_string())?;
    let garbage = c.garbage.as_ref().map(|b| b.get());
    let hs = new_handshake(c.lseed, c.initiator, c.magic)?;
    let mut out = vec![0u8; Handshake::<Initialized>::send_key_len(garbage.as_deref())];
    let hs = hs.send_key(garbage.as_deref(), &mut out).map_err(|e| format!("send_key failed: {e:?}"))?;
    let key: [u8; 64] = out[..64].try_into().unwrap();
    let sk = secret(c.lseed);
    // The key on the wire is an encoding of the public key of the secret supplied by the caller.
    let pk = PublicKey::from_secret_key(curve(), &sk).x_only_public_key().0;
    let dec = PublicKey::from_ellswift(ElligatorSwift::from_array(key)).x_only_public_key().0;
    ensure!(pk == dec, "the key sent does not encode the public key of the handshake secret");
    let (ei, er) = if c.initiator { (key, their) } else { (their, key) };
    let s = Secrets::derive(&ei, &er, &sk, c.initiator, c.magic);
    let party = if c.initiator { ElligatorSwiftParty::A } else { ElligatorSwiftParty::B };
    let m = SessionKeyMaterial::from_ecdh(ElligatorSwift::from_array(ei), ElligatorSwift::from_array(er), sk, party, c.magic)
        .map_err(|e| format!("from_ecdh failed: {e:?}"))?;
    ensure!(m.session_id == s.session_id, "from_ecdh session id {} but specification {}", hex(&m.session_id), hex(&s.session_id));
    if their[..4] == c.magic {
        return Ok(Outcome::new(false, vec!["v1-collision"]));
    }
    let hs = hs.receive_key(their).map_err(|e| format!("receive_key failed: {e:?}"))?;
    let decoys: Vec<Vec<u8>> = c.decoys.iter().map(|b| b.get()).collect();
    let refs: Vec<&[u8]> = decoys.iter().map(|d| d.as_slice()).collect();
    let d = if refs.is_empty() { None } else { Some(refs.as_slice()) };
    let mut ver = vec![0u8; Handshake::<ReceivedKey>::send_version_len(d)];
    let hs = hs.send_version(&mut ver, d).map_err(|e| format!("send_version failed: {e:?}"))?;
    let (mut tx, mut rx) = s.dirs(!c.initiator);
    let (pterm, lterm) = s.terms(!c.initiator);
    ensure!(ver[..16] == lterm, "garbage terminator {} but specification {}", hex(&ver[..16]), hex(&lterm));
    let g = garbage.unwrap_or_default();
    let mut expect = lterm.to_vec();
    let mut aad: &[u8] = &g;
    for d in &decoys {
        expect.extend(rx.seal(0x80, d, aad));
        aad = &[];
    }
    expect.extend(rx.seal(0, &[], aad));
    ensure!(ver == expect, "handshake packets differ from the specification: {}", first_diff(&ver, &expect));
    // Finish with a model peer and use both directions once.
    let stream = PeerHs::plain().tail(&pterm, &mut tx);
    let mut h = match hs.receive_garbage(&stream) {
        Ok(GarbageResult::FoundGarbage { handshake, .. }) => handshake,
        _ => return Err("the specified remote terminator is not recognised".into()),
    };
    h.decrypt_packet_len(stream[16..19].try_into().unwrap()).map_err(|e| format!("{e:?}"))?;
    let mut body = stream[19..].to_vec();
    let mut cipher = match h.receive_version(&mut body) {
        Ok(VersionResult::Complete { cipher }) => cipher,
        Ok(_) => return Err("version packet taken for a decoy".into()),
        Err(e) => return Err(format!("the specified version packet is rejected: {e:?}")),
    };
    ensure!(cipher.id() == &s.session_id, "session id differs from the specification");
    let pkt = cipher.outbound().encrypt_to_vec(b"ping", PacketType::Genuine, None);
    ensure!(pkt == rx.seal(0, b"ping", &[]), "first outbound packet differs from the specification");
    let pkt = tx.seal(0, b"pong", &[]);
    let n = cipher.inbound().decrypt_packet_len(pkt[..3].try_into().unwrap());
    ensure!(n == pkt.len() - 3, "first inbound length {n}");
    let (_, pt) = cipher.inbound().decrypt_to_vec(&pkt[3..], None).map_err(|e| format!("first inbound packet rejected: {e:?}"))?;
    ensure!(pt[1..] == *b"pong", "first inbound packet decrypts wrongly");
    let valid_curve_key = matches!(c.their, Blob::X(..));
    Ok(Outcome::new(true, vec![if valid_curve_key { "encoded-or-edge-key" } else { "arbitrary-64-bytes" }, if c.initiator { "initiator" } else { "responder" }]))
}

/// Connections of one thread which have keys, roles or magics in common.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReuseCase {
    seeds: [u32; 2],
    magics: [[u8; 4]; 2],
    remotes: [Blob; 2],
    conns: Vec<(u8, bool)>,
}
fn reuse_strategy(_: Tier) -> BoxedStrategy<ReuseCase> {
    (any::<[u32; 2]>(), [magic(), magic()], [raw_key(), raw_key()], proptest::collection::vec((0u8..8, any::<bool>()), 2..8))
        .prop_map(|(seeds, magics, remotes, conns)| ReuseCase { seeds, magics, remotes, conns })
        .boxed()
}
fn reuse_check(c: &ReuseCase) -> CaseResult {
    for (k, (bits, initiator)) in c.conns.iter().enumerate() {
        let one = DeriveCase {
            lseed: c.seeds[*bits as usize & 1],
            initiator: *initiator,
            magic: c.magics[*bits as usize >> 1 & 1],
            their: c.remotes[*bits as usize >> 2 & 1].clone(),
            garbage: None,
            decoys: vec![],
        };
        derive_check(&one).map_err(|e| format!("connection {k} of this thread: {e}"))?;
    }
    Ok(Outcome::new(c.conns.len() > 2, vec![]))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FreshCase {
    n: u32,
    magic: [u8; 4],
    initiator: bool,
}
#[cfg(feature = "std")]
fn fresh_check(c: &FreshCase) -> CaseResult {
    let mut seen = std::collections::HashSet::new();
    let before = getrandom::calls();
    for i in 0..c.n {
        let h = Handshake::<Initialized>::new(c.magic, role_of(c.initiator)).map_err(|e| format!("{e:?}"))?;
        ensure!(*h.magic() == c.magic && h.role() == role_of(c.initiator), "handshake reports another magic or role");
        let mut out = [0u8; 64];
        h.send_key(None, &mut out).map_err(|e| format!("{e:?}"))?;
        let x = PublicKey::from_ellswift(ElligatorSwift::from_array(out)).x_only_public_key().0;
        ensure!(seen.insert(x), "handshake {i} reuses an earlier ephemeral key");
    }
    // The first use of the generator in this thread must have drawn on system entropy.
    ensure!(getrandom::calls() > before, "no system entropy was used for ephemeral keys");
    // Another thread with other entropy must not repeat any key.
    let (magic, role, n) = (c.magic, role_of(c.initiator), c.n);
    let other = std::thread::spawn(move || {
        getrandom::seed_thread(0xdead_beef ^ n as u64);
        (0..n)
            .map(|_| {
                let h = Handshake::<Initialized>::new(magic, role).ok()?;
                let mut out = [0u8; 64];
                h.send_key(None, &mut out).ok()?;
                Some(PublicKey::from_ellswift(ElligatorSwift::from_array(out)).x_only_public_key().0)
            })
            .collect::<Vec<_>>()
    })
    .join()
    .map_err(|_| "handshake creation panicked".to_string())?;
    for x in other.into_iter().flatten() {
        ensure!(seen.insert(x), "two threads with different entropy produced the same ephemeral key");
    }
    Ok(Outcome::new(c.n > 1, vec![]))
}
/// An entropy source whose first values are not valid secret keys, or hardly so.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EdgeCase {
    magic: [u8; 4],
    initiator: bool,
    /// The values drawn first, as offset from zero or from the group's order.
    first: Vec<(bool, i16)>,
    then: [u32; 2],
}
struct Draws(std::vec::IntoIter<[u8; 32]>, u32, u8);
impl Draws {
    fn later(seed: u32, n: u8) -> [u8; 32] {
        secret(seed.wrapping_add(n as u32 * 0x0100_0001)).secret_bytes()
    }
}
impl bip324::FillBytes for Draws {
    fn fill_bytes(&mut self, dest: &mut [u8; 32]) {
        *dest = self.0.next().unwrap_or_else(|| {
            self.2 += 1;
            Draws::later(self.1, self.2)
        });
    }
}
fn near(order: bool, delta: i16) -> [u8; 32] {
    let mut x = if order { secp256k1::constants::CURVE_ORDER } else { [0; 32] };
    let mut carry = delta as i64;
    for b in x.iter_mut().rev() {
        let v = *b as i64 + carry;
        *b = v.rem_euclid(256) as u8;
        carry = v.div_euclid(256);
    }
    x
}
fn edge_strategy(_: Tier) -> BoxedStrategy<EdgeCase> {
    // Not zero: an entropy source which yields only zeros is a mistake of the caller, and asserted against.
    let v = (any::<bool>(), prop_oneof![4 => -3i16..4, 1 => any::<i16>()]).prop_filter("zero", |v| *v != (false, 0));
    (magic(), any::<bool>(), proptest::collection::vec(v, 1..4), any::<[u32; 2]>())
        .prop_map(|(magic, initiator, first, then)| EdgeCase { magic, initiator, first, then })
        .boxed()
}
fn edge_check(c: &EdgeCase) -> CaseResult {
    let order = secp256k1::constants::CURVE_ORDER;
    let first: Vec<[u8; 32]> = c.first.iter().map(|(o, d)| near(*o, *d)).collect();
    let valid = |x: &[u8; 32]| *x != [0; 32] && *x < order;
    let make = |then: u32| -> Result<Option<[u8; 64]>, String> {
        let h = Handshake::<Initialized>::new_with_rng(c.magic, role_of(c.initiator), &mut Draws(first.clone().into_iter(), then, 0), curve());
        let h = match h {
            Ok(h) => h,
            Err(Error::SecretGeneration(_)) => return Ok(None),
            Err(e) => return Err(format!("unusable entropy is reported as {e:?}")),
        };
        let mut out = [0u8; 64];
        h.send_key(None, &mut out).map_err(|e| format!("{e:?}"))?;
        Ok(Some(out))
    };
    let x = |k: &[u8; 64]| PublicKey::from_ellswift(ElligatorSwift::from_array(*k)).x_only_public_key().0;
    let (a, b) = (make(c.then[0])?, make(c.then[1])?);
    if valid(&first[0]) {
        let Some(a) = a else {
            ensure!(!first.iter().all(valid), "valid secrets are refused");
            return Ok(Outcome::default());
        };
        // Whichever of the values drawn is the secret.
        let drawn = first.iter().copied().chain((1..9).map(|k| Draws::later(c.then[0], k)));
        let fits = drawn.filter_map(|v| secp256k1::SecretKey::from_slice(&v).ok()).any(|sk| x(&a) == PublicKey::from_secret_key(curve(), &sk).x_only_public_key().0);
        ensure!(fits, "the key sent does not belong to a secret drawn");
    } else if let (Some(a), Some(b), true) = (a, b, c.then[0] != c.then[1] && first.iter().all(|f| !valid(f))) {
        // A fresh secret, if any, not one made of a value that is none.
        ensure!(x(&a) != x(&b), "connections share a secret when the entropy source yields a value that is no secret key");
    }
    Ok(Outcome::new(first.iter().any(|f| !valid(f)), vec![if valid(&first[0]) { "valid" } else { "invalid" }]))
}
#[cfg(feature = "std")]
/// Many connections made by one process, one after the other on one thread.
fn many_list(t: Tier) -> Vec<FreshCase> {
    let mut v: Vec<FreshCase> = [70u32, 130, 260, 300, 520, 1_100, 2_100, 4_200, 5_000, 8_300, 20_000, 70_000]
        .iter()
        .map(|n| FreshCase { n: *n, magic: [0xF9, 0xBE, 0xB4, 0xD9], initiator: n % 20 == 0 })
        .collect();
    if t == Tier::Thorough {
        v.push(FreshCase { n: 1_100_000, magic: [1, 2, 3, 4], initiator: true });
    }
    v
}
#[cfg(feature = "std")]
fn fresh_strategy(_: Tier) -> BoxedStrategy<FreshCase> {
    (1u32..12, magic(), any::<bool>()).prop_map(|(n, magic, initiator)| FreshCase { n, magic, initiator }).boxed()
}

// ------------------------------------------------------------------ C02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Local encrypts (decoy?, contents, aad, api 0..3).
    Enc(bool, Blob, Option<Blob>, u8),
    /// Local decrypts what the specification produces (header, contents, aad, api 0..3).
    Dec(u8, Blob, Option<Blob>, u8),
    /// Local encrypts this many small packets.
    RunEnc(u32),
    /// Local decrypts this many small packets.
    RunDec(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WireCase {
    lseed: u32,
    rseed: u32,
    initiator: bool,
    magic: [u8; 4],
    split: bool,
    ops: Vec<Op>,
}
fn api() -> BoxedStrategy<u8> {
    (0u8..4).boxed()
}
fn aad() -> BoxedStrategy<Option<Blob>> {
    prop_oneof![6 => Just(None), 1 => Just(Some(Blob::empty())), 3 => blob(4200).prop_map(Some)].boxed()
}
fn run_len(t: Tier) -> BoxedStrategy<u32> {
    let max = if t == Tier::Quick { 1500 } else { 20_000 };
    prop_oneof![
        3 => 1u32..300,
        3 => (1u32..7, 0u32..5).prop_map(|(k, d)| (224 * k + d).saturating_sub(2)),
        2 => proptest::sample::select(dict_upto(max as u64)),
        1 => 0u32..max,
    ]
    .boxed()
}
fn contents() -> BoxedStrategy<Blob> {
    prop_oneof![12 => blob(700), 3 => blob(5000), 1 => blob(140_000)].boxed()
}
fn op(t: Tier) -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (any::<bool>(), contents(), aad(), api()).prop_map(|(d, c, a, i)| Op::Enc(d, c, a, i)),
        4 => (prop_oneof![3 => Just(0u8), 3 => Just(0x80), 2 => any::<u8>()], contents(), aad(), api()).prop_map(|(d, c, a, i)| Op::Dec(d, c, a, i)),
        1 => run_len(t).prop_map(Op::RunEnc),
        1 => run_len(t).prop_map(Op::RunDec),
    ]
    .boxed()
}
fn wire_strategy(t: Tier) -> BoxedStrategy<WireCase> {
    (any::<u32>(), any::<u32>(), any::<bool>(), magic(), any::<bool>(), proptest::collection::vec(op(t), 1..14))
        .prop_map(|(lseed, rseed, initiator, magic, split, ops)| WireCase { lseed, rseed, initiator, magic, split, ops })
        .boxed()
}
/// Encrypts through one of the public entry points; returns exactly the packet.
fn enc_via(out: &mut OutboundCipher, contents: &[u8], t: PacketType, aad: Option<&[u8]>, api: u8) -> Result<Vec<u8>, String> {
    let need = OutboundCipher::encryption_buffer_len(contents.len());
    ensure!(need == contents.len() + 20, "encryption_buffer_len({}) is {need}", contents.len());
    match api {
        0 => Ok(out.encrypt_to_vec(contents, t, aad)),
        1 => {
            let mut b = vec![0xA5u8; need];
            out.encrypt(contents, &mut b, t, aad).map_err(|e| format!("encrypt failed: {e:?}"))?;
            Ok(b)
        }
        n => {
            let slack = if n == 2 { 1 } else { 37 };
            let mut b = vec![0xA5u8; need + slack];
            out.encrypt(contents, &mut b, t, aad).map_err(|e| format!("encrypt failed: {e:?}"))?;
            ensure!(b[need..].iter().all(|x| *x == 0xA5), "encrypt wrote beyond the packet");
            b.truncate(need);
            Ok(b)
        }
    }
}
/// Decrypts a packet body through one of the public entry points; returns type and header+contents.
fn dec_via(inb: &mut InboundCipher, body: &[u8], aad: Option<&[u8]>, api: u8) -> Result<(PacketType, Vec<u8>), Error> {
    match api {
        0 => inb.decrypt_to_vec(body, aad),
        1 => {
            let mut b = body.to_vec();
            let (t, p) = inb.decrypt_in_place(&mut b, aad)?;
            Ok((t, p.to_vec()))
        }
        n => {
            let need = body.len().saturating_sub(16);
            let slack = if n == 2 { 0 } else { 29 };
            let mut b = vec![0x5Au8; need + slack];
            let t = inb.decrypt(body, &mut b, aad)?;
            if b[need..].iter().any(|x| *x != 0x5A) {
                crate::runner::spin("decrypt wrote beyond the plaintext");
            }
            b.truncate(need);
            Ok((t, b))
        }
    }
}
struct Halves {
    i: InboundCipher,
    o: OutboundCipher,
}
fn do_enc(h: &mut Halves, rx: &mut Dir, decoy: bool, c: &[u8], a: Option<&[u8]>, api: u8) -> Result<(), String> {
    let got = enc_via(&mut h.o, c, ptype(decoy), a, api)?;
    let want = rx.seal(if decoy { 0x80 } else { 0 }, c, a.unwrap_or_default());
    ensure!(got == want, "packet bytes differ from the specification: {}", first_diff(&got, &want));
    Ok(())
}
fn do_dec(h: &mut Halves, tx: &mut Dir, header: u8, c: &[u8], a: Option<&[u8]>, api: u8) -> Result<(), String> {
    let pkt = tx.seal(header, c, a.unwrap_or_default());
    let n = h.i.decrypt_packet_len(pkt[..3].try_into().unwrap());
    ensure!(n == c.len() + 17, "decrypted packet length {n}, expected {}", c.len() + 17);
    ensure!(InboundCipher::decryption_buffer_len(n) == c.len() + 1, "decryption_buffer_len({n})");
    let (t, p) = dec_via(&mut h.i, &pkt[3..], a, api).map_err(|e| format!("a packet of the specification is rejected: {e:?}"))?;
    ensure!((t == PacketType::Decoy) == (header & 0x80 != 0), "header {header:#x} classified as {t:?}");
    ensure!(p.len() == c.len() + 1 && p[0] == header && p[1..] == *c, "decrypted contents differ");
    Ok(())
}
fn wire_check(c: &WireCase) -> CaseResult {
    let (cipher, mut peer) = establish(c.lseed, c.rseed, c.initiator, c.magic)?;
    let (i, o) = cipher.into_split();
    let mut h = Halves { i, o };
    let (mut ne, mut nd) = (1u64, 1u64);
    let mut big = false;
    for (k, op) in c.ops.iter().enumerate() {
        let r = match op {
            Op::Enc(d, b, a, api) => {
                ne += 1;
                big |= b.len() > 65536;
                do_enc(&mut h, &mut peer.rx, *d, &b.get(), a.as_ref().map(|x| x.get()).as_deref(), *api)
            }
            Op::Dec(hd, b, a, api) => {
                nd += 1;
                big |= b.len() > 65536;
                do_dec(&mut h, &mut peer.tx, *hd, &b.get(), a.as_ref().map(|x| x.get()).as_deref(), *api)
            }
            Op::RunEnc(n) => {
                ne += *n as u64;
                (0..*n).try_for_each(|j| do_enc(&mut h, &mut peer.rx, j % 3 == 1, &[j as u8, (j >> 8) as u8][..(j % 3) as usize], None, (j & 1) as u8))
            }
            Op::RunDec(n) => {
                nd += *n as u64;
                (0..*n).try_for_each(|j| do_dec(&mut h, &mut peer.tx, if j % 5 == 1 { 0x80 } else { 0 }, &[j as u8, (j >> 8) as u8][..(j % 3) as usize], None, (j % 3) as u8))
            }
        };
        r.map_err(|e| format!("operation {k} (after about {ne} sent, {nd} received): {e}"))?;
    }
    let mut cl = vec![];
    if ne >= 224 || nd >= 224 {
        cl.push("rekeyed");
    }
    if ne >= 448 || nd >= 448 {
        cl.push("rekeyed-twice");
    }
    if big {
        cl.push("three-byte-length");
    }
    if c.ops.iter().any(|o| matches!(o, Op::Enc(_, _, Some(_), _) | Op::Dec(_, _, Some(_), _))) {
        cl.push("aad");
    }
    let nontrivial = cl.len() > 0 || c.ops.len() >= 4;
    Ok(Outcome::new(nontrivial, cl))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongCase {
    lseed: u32,
    initiator: bool,
    inbound: bool,
    packets: u64,
    /// Only the length cipher (through the public length decryption).
    lengths_only: bool,
    /// Every packet of a real sender goes through a real receiver; the specification is
    /// compared at the first packets, around every `sampled`-th rekeying and at the end.
    #[serde(default)]
    sampled: u64,
}
fn long_list(t: Tier) -> Vec<LongCase> {
    let mut v = Vec::new();
    let q = [(70_000u64, 0u32), (66_000, 1), (150_000, 2), (230_000, 3)];
    for (n, s) in q {
        for inbound in [false, true] {
            v.push(LongCase { lseed: 900 + s, initiator: s % 2 == 0, inbound, packets: n, lengths_only: false, sampled: 0 });
        }
    }
    v.push(LongCase { lseed: 7, initiator: true, inbound: true, packets: (1 << 24) + 2000, lengths_only: true, sampled: 0 });
    // Beyond 2^16 rekeyings (14 680 064 packets) and beyond 2^24 packets.
    v.insert(0, LongCase { lseed: 10, initiator: true, inbound: false, packets: (1 << 24) + 2000, lengths_only: false, sampled: 64 });
    if t == Tier::Thorough {
        for inbound in [false, true] {
            v.push(LongCase { lseed: 8, initiator: true, inbound, packets: (1 << 24) + 2000, lengths_only: false, sampled: 0 });
        }
        v.insert(0, LongCase { lseed: 9, initiator: false, inbound: true, packets: (1 << 32) + 2000, lengths_only: true, sampled: 0 });
    }
    v
}
/// The specification's cipher of the initiator's direction between two seeded parties.
fn outbound_model(a: u32, b: u32) -> Result<Dir, String> {
    let magic = [0xF9, 0xBE, 0xB4, 0xD9];
    let key = |s: u32, init: bool| -> Result<[u8; 64], String> {
        let mut out = [0u8; 64];
        new_handshake(s, init, magic)?.send_key(None, &mut out).map_err(|e| format!("{e:?}"))?;
        Ok(out)
    };
    Ok(Secrets::derive(&key(a, true)?, &key(b, false)?, &secret(a), true, magic).dirs(true).0)
}
fn sampled_check(c: &LongCase) -> CaseResult {
    let (a, b) = pair(c.lseed, c.lseed + 1, [0xF9, 0xBE, 0xB4, 0xD9])?;
    // The model of the sender's direction, taken from a session with the same keys.
    let mut model = outbound_model(c.lseed, c.lseed + 1)?;
    let (_, mut o) = a.into_split();
    let (mut i, _) = b.into_split();
    // The version packet is number 0 of the direction.
    model.skip(1);
    let mut at = 0u64;
    let mut wire = [0u8; 40];
    for k in 0..c.packets {
        let pos = k + 1;
        let d = &[k as u8, (k >> 8) as u8, (k >> 16) as u8][..(k % 4) as usize];
        let decoy = k % 3 == 1;
        let n = d.len() + 20;
        o.encrypt(d, &mut wire[..n], ptype(decoy), None).map_err(|e| format!("packet {k}: {e:?}"))?;
        let epoch = pos / 224;
        let off = pos % 224;
        if k < 1000 || c.packets - k < 1000 || (epoch % c.sampled == 0 && off < 2) || (epoch % c.sampled == c.sampled - 1 && off > 221) || (epoch & 0xffff) < 2 {
            model.skip(k - at);
            at = k + 1;
            let want = model.seal(if decoy { 0x80 } else { 0 }, d, &[]);
            ensure!(wire[..n] == want[..], "packet {k} differs from the specification: {}", first_diff(&wire[..n], &want));
        }
        let got = i.decrypt_packet_len(wire[..3].try_into().unwrap());
        ensure!(got == n - 3, "length of packet {k} decrypts to {got}, expected {}", n - 3);
        let (t, p) = i.decrypt_in_place(&mut wire[3..n], None).map_err(|e| format!("packet {k} rejected: {e:?}"))?;
        ensure!((t == PacketType::Decoy) == decoy && p[1..] == *d, "packet {k} decrypts to something else");
    }
    Ok(Outcome::new(true, vec!["beyond-65536-rekeyings"]))
}
fn long_check(c: &LongCase) -> CaseResult {
    if c.sampled > 0 {
        return sampled_check(c);
    }
    let (cipher, mut peer) = establish(c.lseed, c.lseed + 1, c.initiator, [0xF9, 0xBE, 0xB4, 0xD9])?;
    let (i, o) = cipher.into_split();
    let mut h = Halves { i, o };
    if c.lengths_only {
        for k in 0..c.packets {
            let want = (k as u32).wrapping_mul(0x9E37_79B1) & 0xff_ffff;
            let l = want.to_le_bytes();
            let e = peer.tx.len.crypt([l[0], l[1], l[2]]);
            let got = h.i.decrypt_packet_len(e);
            ensure!(got == want as usize + 17, "length of packet {k} decrypts to {got}, expected {}", want + 17);
        }
    } else {
        let data = [7u8; 3];
        for k in 0..c.packets {
            let d = &data[..(k % 4) as usize];
            let r = if c.inbound {
                do_dec(&mut h, &mut peer.tx, (k % 2) as u8 * 0x80, d, None, (k % 3) as u8)
            } else {
                do_enc(&mut h, &mut peer.rx, k % 2 == 1, d, None, (k % 3) as u8)
            };
            r.map_err(|e| format!("packet {k}: {e}"))?;
        }
    }
    Ok(Outcome::new(true, vec![if c.lengths_only { "lengths" } else { "packets" }]))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigCase {
    lseed: u32,
    inbound: bool,
    contents: Blob,
    api: u8,
}
fn big_list(t: Tier) -> Vec<BigCase> {
    let mut sizes: Vec<u32> = vec![65_535, 65_536, 65_537, 131_072, 1_048_575, 1_048_576, 3_999_983, 4_000_000, 4_000_013, (1 << 24) - 1];
    sizes.extend(dict_upto(4_000_013).into_iter().filter(|n| *n > 5000));
    if t == Tier::Thorough {
        sizes.extend((1..60).map(|k| 70_001 * k));
        sizes.extend([4_000_014, 5_000_000, (1 << 23) - 1, 1 << 23, (1 << 24) - 2]);
    }
    sizes.sort();
    sizes.dedup();
    let mut v = Vec::new();
    for (k, s) in sizes.iter().enumerate() {
        for inbound in [false, true] {
            // Automatic allocation is bounded; larger packets go through the other entry points.
            let api = if inbound && *s > 4_000_013 { 1 + (k % 3) as u8 } else { (k % 4) as u8 };
            v.push(BigCase { lseed: *s, inbound, contents: Blob::R(*s, *s), api });
        }
    }
    v
}
fn big_check(c: &BigCase) -> CaseResult {
    let (cipher, mut peer) = establish(c.lseed, c.lseed + 1, c.inbound, [1, 2, 3, 4])?;
    let (i, o) = cipher.into_split();
    let mut h = Halves { i, o };
    let b = c.contents.get();
    let r = if c.inbound { do_dec(&mut h, &mut peer.tx, 0, &b, None, c.api) } else { do_enc(&mut h, &mut peer.rx, true, &b, None, c.api) };
    r.map_err(|e| format!("{} bytes: {e}", b.len()))?;
    do_enc(&mut h, &mut peer.rx, false, b"after", None, 0)?;
    do_dec(&mut h, &mut peer.tx, 0, b"after", None, 0)?;
    Ok(Outcome::new(true, vec![]))
}

// ------------------------------------------------------------------ C03
/// Two sessions of the code under test that completed a handshake with each other.
pub fn pair(a: u32, b: u32, magic: [u8; 4]) -> Result<(CipherSession, CipherSession), String> {
    let e = |e: Error| format!("handshake between two local parties failed: {e:?}");
    let (ha, hb) = (new_handshake(a, true, magic)?, new_handshake(b, false, magic)?);
    let (mut ka, mut kb) = ([0u8; 64], [0u8; 64]);
    let ha = ha.send_key(None, &mut ka).map_err(e)?;
    let hb = hb.send_key(None, &mut kb).map_err(e)?;
    if ka[..4] == magic || kb[..4] == magic {
        return Err("HARNESS:key starts with the magic".into());
    }
    let ha = ha.receive_key(kb).map_err(e)?;
    let hb = hb.receive_key(ka).map_err(e)?;
    let n = Handshake::<ReceivedKey>::send_version_len(None);
    let (mut va, mut vb) = (vec![0u8; n], vec![0u8; n]);
    let ha = ha.send_version(&mut va, None).map_err(e)?;
    let hb = hb.send_version(&mut vb, None).map_err(e)?;
    let fin = |h: Handshake<bip324::SentVersion>, v: Vec<u8>| -> Result<CipherSession, String> {
        let (mut h, used) = match h.receive_garbage(&v).map_err(e)? {
            GarbageResult::FoundGarbage { handshake, consumed_bytes } => (handshake, consumed_bytes),
            _ => return Err("terminator of the other party not found".into()),
        };
        ensure!(used == 16, "empty garbage: consumed {used} bytes");
        h.decrypt_packet_len(v[16..19].try_into().unwrap()).map_err(e)?;
        let mut body = v[19..].to_vec();
        let r = h.receive_version(&mut body).map_err(e)?;
        match r {
            VersionResult::Complete { cipher } => Ok(cipher),
            _ => Err("version taken for a decoy".into()),
        }
    };
    // The borrow of `va` by the handshake ends inside `fin`, which owns its copy.
    Ok((fin(ha, vb.clone())?, fin(hb, va.clone())?))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TripOp {
    /// (from initiator?, decoy?, contents, aad, api)
    Send(bool, bool, Blob, Option<Blob>, u8),
    /// Deliver the oldest packet in flight (towards initiator?, api).
    Recv(bool, u8),
    /// Send and deliver n small packets (from initiator?).
    Burst(bool, u32),
    /// Split the session of a side (the initiator's?) unless it is.
    Split(bool),
    /// A side (the initiator's?) goes on with a clone while its original is used for something else
    /// (kept instead of the clone?).
    Fork(bool, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TripCase {
    a: u32,
    b: u32,
    magic: [u8; 4],
    split: bool,
    ops: Vec<TripOp>,
}
fn trip_strategy(t: Tier) -> BoxedStrategy<TripCase> {
    let op = prop_oneof![
        5 => (any::<bool>(), any::<bool>(), contents(), aad(), api()).prop_map(|(f, d, c, a, i)| TripOp::Send(f, d, c, a, i)),
        4 => (any::<bool>(), api()).prop_map(|(f, i)| TripOp::Recv(f, i)),
        1 => (any::<bool>(), run_len(t)).prop_map(|(f, n)| TripOp::Burst(f, n)),
        1 => any::<bool>().prop_map(TripOp::Split),
        1 => any::<[bool; 2]>().prop_map(|[f, k]| TripOp::Fork(f, k)),
    ];
    (any::<u32>(), any::<u32>(), magic(), any::<bool>(), proptest::collection::vec(op, 2..30))
        .prop_map(|(a, b, magic, split, ops)| TripCase { a, b, magic, split, ops })
        .boxed()
}
#[derive(Clone)]
enum Side {
    Whole(Box<CipherSession>),
    Split(InboundCipher, OutboundCipher),
}
impl Side {
    fn new(c: CipherSession, split: bool) -> Side {
        if split {
            let (i, o) = c.into_split();
            Side::Split(i, o)
        } else {
            Side::Whole(Box::new(c))
        }
    }
    fn i(&mut self) -> &mut InboundCipher {
        match self {
            Side::Whole(c) => c.inbound(),
            Side::Split(i, _) => i,
        }
    }
    fn o(&mut self) -> &mut OutboundCipher {
        match self {
            Side::Whole(c) => c.outbound(),
            Side::Split(_, o) => o,
        }
    }
}
type Flight = (bool, Vec<u8>, Option<Vec<u8>>, Vec<u8>);
fn deliver(to: &mut Side, f: Flight, api: u8) -> Result<(), String> {
    let (decoy, contents, aad, pkt) = f;
    ensure!(pkt.len() == contents.len() + 20, "packet of {} bytes for {} contents bytes", pkt.len(), contents.len());
    let n = to.i().decrypt_packet_len(pkt[..3].try_into().unwrap());
    ensure!(n + 3 == pkt.len(), "length prefix says {n}, packet has {}", pkt.len() - 3);
    let (t, p) = dec_via(to.i(), &pkt[3..], aad.as_deref(), api).map_err(|e| format!("peer rejects packet: {e:?}"))?;
    ensure!(t == ptype(decoy), "type {t:?} after round trip, sent decoy={decoy}");
    ensure!(p.len() == contents.len() + 1 && p[1..] == contents[..], "contents changed in round trip");
    ensure!(PacketType::from_byte(&p[0]) == ptype(decoy) && p[0] == ptype(decoy).to_byte(), "header byte {:#x} after round trip", p[0]);
    Ok(())
}
fn trip_check(c: &TripCase) -> CaseResult {
    let (a, b) = pair(c.a, c.b, c.magic)?;
    ensure!(a.id() == b.id(), "the two parties have different session ids");
    let mut a = Side::new(a, c.split);
    let mut b = Side::new(b, !c.split);
    let mut q: [VecDeque<Flight>; 2] = Default::default();
    let (mut inter, mut lag, mut total) = (false, 0, 0u32);
    let (mut forked, mut split_late) = (false, false);
    for (k, op) in c.ops.iter().enumerate() {
        let r: Result<(), String> = (|| {
            match op {
                TripOp::Send(from_a, d, blob, aad, api) => {
                    let contents = blob.get();
                    let aad = aad.as_ref().map(|x| x.get());
                    let s = if *from_a { &mut a } else { &mut b };
                    let pkt = enc_via(s.o(), &contents, ptype(*d), aad.as_deref(), *api)?;
                    q[*from_a as usize].push_back((*d, contents, aad, pkt));
                    total += 1;
                    inter |= !q[0].is_empty() && !q[1].is_empty();
                    lag = lag.max(q[*from_a as usize].len());
                }
                TripOp::Recv(to_a, api) => {
                    if let Some(f) = q[!*to_a as usize].pop_front() {
                        deliver(if *to_a { &mut a } else { &mut b }, f, *api)?;
                    }
                }
                TripOp::Burst(from_a, n) => {
                    let pending: Vec<_> = q[*from_a as usize].drain(..).collect();
                    for f in pending {
                        deliver(if *from_a { &mut b } else { &mut a }, f, 0)?;
                    }
                    for j in 0..*n {
                        let (s, r) = if *from_a { (&mut a, &mut b) } else { (&mut b, &mut a) };
                        let contents = vec![j as u8; (j % 4) as usize];
                        let pkt = enc_via(s.o(), &contents, ptype(j % 7 == 0), None, (j & 1) as u8)?;
                        deliver(r, (j % 7 == 0, contents, None, pkt), (j & 3) as u8).map_err(|e| format!("burst packet {j}: {e}"))?;
                    }
                    total += n;
                }
                TripOp::Split(of_a) => {
                    let s = if *of_a { &mut a } else { &mut b };
                    if let Side::Whole(c) = s {
                        *s = Side::new((**c).clone(), true);
                        split_late |= total > 0;
                    }
                }
                TripOp::Fork(of_a, keep) => {
                    let s = if *of_a { &mut a } else { &mut b };
                    let mut other = s.clone();
                    if !keep {
                        std::mem::swap(s, &mut other);
                    }
                    // Whatever the other one is used for does not concern the one that is kept.
                    for j in 0..1 + total % 3 {
                        enc_via(other.o(), &[j as u8; 5], PacketType::Genuine, None, j as u8)?;
                        other.i().decrypt_packet_len([j as u8; 3]);
                        let _ = dec_via(other.i(), &[7; 40], None, j as u8);
                    }
                    if let (Some(f), Side::Whole(_)) = (q[!*of_a as usize].front(), &other) {
                        let _ = deliver(&mut other, f.clone(), 0);
                    }
                    forked = true;
                }
            }
            Ok(())
        })();
        r.map_err(|e| format!("step {k}: {e}"))?;
    }
    for (dir, queue) in q.iter_mut().enumerate() {
        for f in queue.drain(..) {
            deliver(if dir == 1 { &mut b } else { &mut a }, f, 1).map_err(|e| format!("draining: {e}"))?;
        }
    }
    let mut cl = vec![];
    if inter {
        cl.push("both-directions-in-flight");
    }
    if lag > 1 {
        cl.push("several-in-flight");
    }
    if total >= 224 {
        cl.push("rekeyed");
    }
    if forked {
        cl.push("cloned");
    }
    if split_late {
        cl.push("split-later");
    }
    Ok(Outcome::new(total >= 3, cl))
}

// ------------------------------------------------------------------ C04
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Attack {
    /// Deliver sent packet number n (index into everything sent so far by the real peer, mod count).
    Deliver(u16),
    /// Deliver the next in-order packet.
    Next,
    /// Deliver the next packet with a bit flipped at this position (mod packet bits).
    Flip(u32),
    /// Deliver the next packet with several bytes replaced (position, xor mask bytes).
    Smear(u32, Vec<u8>),
    /// Deliver the next packet cut to this many bytes (mod).
    Cut(u32),
    /// Deliver the next packet with bytes appended.
    Extend(Blob),
    /// Deliver the next packet with bytes inserted after the length prefix.
    Prepend(Blob),
    /// Deliver a packet the local side itself sent (reflection).
    Reflect(u16),
    /// Deliver a packet of another session between other keys, at the right position.
    Foreign,
    /// Deliver a packet sealed with the right keys but at another position (delta).
    WrongPosition(i8),
    /// Deliver the next packet under other associated data.
    WrongAad(Blob),
    /// Deliver the next packet under its associated data with one bit flipped (mod).
    FlipAad(u32),
    /// Deliver the associated data one byte shorter or longer.
    ResizeAad(bool),
    /// Deliver one of the warm-up packets again (counted from the last).
    Old(u16),
    /// Deliver arbitrary bytes.
    Noise(Blob),
    /// Next packet with body or tag of the packet after it.
    Splice(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TamperCase {
    lseed: u32,
    rseed: u32,
    initiator: bool,
    /// Packets that pass undisturbed first.
    warmup: u32,
    packets: Vec<(bool, Blob, Option<Blob>)>,
    attacks: Vec<(Attack, u8)>,
}
fn tamper_strategy(_: Tier) -> BoxedStrategy<TamperCase> {
    let atk = prop_oneof![
        3 => any::<u16>().prop_map(Attack::Deliver),
        6 => Just(Attack::Next),
        5 => any::<u32>().prop_map(Attack::Flip),
        2 => (any::<u32>(), proptest::collection::vec(any::<u8>(), 1..20)).prop_map(|(p, m)| Attack::Smear(p, m)),
        2 => any::<u32>().prop_map(Attack::Cut),
        1 => blob(40).prop_map(Attack::Extend),
        1 => blob(40).prop_map(Attack::Prepend),
        2 => any::<u16>().prop_map(Attack::Reflect),
        1 => Just(Attack::Foreign),
        2 => prop_oneof![Just(1i8), Just(-1), Just(2), -8i8..9].prop_map(Attack::WrongPosition),
        2 => blob(60).prop_map(Attack::WrongAad),
        2 => any::<u32>().prop_map(Attack::FlipAad),
        1 => any::<bool>().prop_map(Attack::ResizeAad),
        1 => prop_oneof![Just(0u16), 0u16..6, any::<u16>()].prop_map(Attack::Old),
        1 => blob(80).prop_map(Attack::Noise),
        1 => any::<bool>().prop_map(Attack::Splice),
    ];
    let warm = prop_oneof![4 => Just(0u32), 3 => 0u32..20, 3 => (1u32..4, 0u32..12).prop_map(|(k, d)| (224 * k + d).saturating_sub(8))];
    (
        any::<u32>(), any::<u32>(), any::<bool>(), warm,
        proptest::collection::vec((any::<bool>(), prop_oneof![80 => blob(60), 20 => blob(900), 1 => blob(70_000)], prop_oneof![60 => Just(None), 20 => blob(40).prop_map(Some), 1 => blob(70_000).prop_map(Some)]), 1..8),
        proptest::collection::vec((atk, api()), 1..20),
    )
        .prop_map(|(lseed, rseed, initiator, warmup, packets, attacks)| TamperCase { lseed, rseed, initiator, warmup, packets, attacks })
        .boxed()
}
fn tamper_check(c: &TamperCase) -> CaseResult {
    let (cipher, mut peer) = establish(c.lseed, c.rseed, c.initiator, [9, 8, 7, 6])?;
    let (i, o) = cipher.into_split();
    let mut h = Halves { i, o };
    let mut own = Vec::new();
    let mut old = Vec::new();
    for j in 0..c.warmup {
        old.push(peer.tx.clone().seal(0, &[j as u8], &[]));
        do_dec(&mut h, &mut peer.tx, 0, &[j as u8], None, (j & 1) as u8).map_err(|e| format!("warm-up packet {j}: {e}"))?;
        own.push(h.o.encrypt_to_vec(&[j as u8], PacketType::Genuine, None));
    }
    let start = peer.tx.clone();
    let other = Secrets::derive(&remote_ell(5), &remote_ell(6), &secret(5), true, [9, 8, 7, 6]).dirs(!c.initiator).0;
    // Everything the peer really sent, in order.
    let sent: Vec<(bool, Vec<u8>, Vec<u8>, Vec<u8>)> = c
        .packets
        .iter()
        .map(|(d, b, a)| {
            let (b, a) = (b.get(), a.as_ref().map(|x| x.get()).unwrap_or_default());
            let pkt = peer.tx.seal(if *d { 0x80 } else { 0 }, &b, &a);
            (*d, b, a, pkt)
        })
        .collect();
    for (_, b, _, _) in &sent {
        own.push(h.o.encrypt_to_vec(b, PacketType::Genuine, None));
    }
    let mut next = 0usize; // packets accepted so far: always a prefix of `sent`
    let mut rejected = 0;
    let mut classes = vec![];
    for (k, (atk, api)) in c.attacks.iter().enumerate() {
        let cur = sent.get(next);
        let (pkt, aad): (Vec<u8>, Vec<u8>) = match (atk, cur) {
            (Attack::Deliver(n), _) => {
                let s = &sent[*n as usize % sent.len()];
                (s.3.clone(), s.2.clone())
            }
            (Attack::Noise(b), _) => (b.get(), vec![]),
            (Attack::Old(_), _) if old.is_empty() => continue,
            (Attack::Old(n), _) => (old[old.len() - 1 - *n as usize % old.len()].clone(), vec![]),
            (Attack::Reflect(n), _) => (own[*n as usize % own.len()].clone(), vec![]),
            (_, None) => continue,
            (Attack::Next, Some(s)) => (s.3.clone(), s.2.clone()),
            (Attack::Flip(p), Some(s)) => {
                let mut x = s.3.clone();
                let bit = *p as usize % (x.len() * 8);
                x[bit / 8] ^= 1 << (bit % 8);
                (x, s.2.clone())
            }
            (Attack::Smear(p, m), Some(s)) => {
                let mut x = s.3.clone();
                let n = x.len();
                for (j, b) in m.iter().enumerate() {
                    x[(*p as usize + j) % n] ^= b;
                }
                (x, s.2.clone())
            }
            (Attack::Cut(n), Some(s)) => {
                let keep = *n as usize % s.3.len();
                (s.3[..keep].to_vec(), s.2.clone())
            }
            (Attack::Extend(b), Some(s)) => {
                let mut x = s.3.clone();
                x.extend(b.get());
                (x, s.2.clone())
            }
            (Attack::Prepend(b), Some(s)) => {
                let mut x = s.3[..3].to_vec();
                x.extend(b.get());
                x.extend(&s.3[3..]);
                (x, s.2.clone())
            }
            (Attack::Foreign, Some(s)) => {
                let mut d = other.clone();
                for _ in 0..next {
                    d.seal(0, &[], &[]);
                }
                (d.seal(0, &s.1, &s.2), s.2.clone())
            }
            (Attack::WrongPosition(delta), Some(s)) => {
                let at = next as i64 + *delta as i64;
                if at < 0 {
                    continue;
                }
                let mut d = start.clone();
                for q in sent.iter().take(at as usize) {
                    d.seal(0, &q.1, &q.2);
                }
                for _ in sent.len()..at as usize {
                    d.seal(0, &[], &[]);
                }
                let mut x = d.seal(if s.0 { 0x80 } else { 0 }, &s.1, &s.2);
                x[..3].copy_from_slice(&s.3[..3]);
                (x, s.2.clone())
            }
            (Attack::WrongAad(b), Some(s)) => (s.3.clone(), b.get()),
            (Attack::FlipAad(p), Some(s)) => {
                let mut a = s.2.clone();
                if a.is_empty() {
                    a.push(*p as u8);
                } else {
                    let bit = *p as usize % (a.len() * 8);
                    a[bit / 8] ^= 1 << (bit % 8);
                }
                (s.3.clone(), a)
            }
            (Attack::ResizeAad(more), Some(s)) => {
                let mut a = s.2.clone();
                if *more || a.pop().is_none() {
                    a.push(0);
                }
                (s.3.clone(), a)
            }
            (Attack::Splice(tag), Some(s)) => {
                let Some(t) = sent.get(next + 1) else { continue };
                let mut x = s.3.clone();
                if *tag {
                    let n = x.len();
                    x[n - 16..].copy_from_slice(&t.3[t.3.len() - 16..]);
                } else {
                    x = [&t.3[..t.3.len() - 16], &s.3[s.3.len() - 16..]].concat();
                }
                (x, s.2.clone())
            }
        };
        // The oracle: accepted only if body and associated data are exactly those of the next packet.
        // (The length prefix is not authenticated by itself: it decides only how many bytes are read.)
        let body: &[u8] = if pkt.len() < 3 { &[] } else { &pkt[3..] };
        let genuine = cur.map(|s| s.3[3..] == *body && s.2 == aad).unwrap_or(false);
        let aad_arg = if aad.is_empty() && k % 2 == 0 { None } else { Some(aad.as_slice()) };
        let mut clean_out = None;
        let res = if *api == 2 && body.len() >= 17 {
            let mut out = vec![0u8; body.len() - 16];
            let r = h.i.decrypt(body, &mut out, aad_arg);
            clean_out = Some(out.clone());
            r.map(|t| (t, out))
        } else {
            dec_via(&mut h.i, body, aad_arg, *api)
        };
        match res {
            Ok((t, p)) => {
                ensure!(genuine, "attack {k} {atk:?}: accepted a packet the peer did not send next ({})", short(&pkt));
                let s = &sent[next];
                ensure!(t == ptype(s.0) && p[1..] == s.1[..], "attack {k}: packet {next} delivered with other contents or type");
                next += 1;
            }
            Err(e) => {
                ensure!(!genuine, "attack {k} {atk:?}: the next genuine packet is rejected ({e:?}) after {rejected} rejected forgeries");
                let small = body.len() < 17;
                ensure!(small == (e == Error::CiphertextTooSmall), "attack {k} {atk:?}: error {e:?} for {} bytes", body.len());
                if let (Some(out), Some(s)) = (clean_out, cur) {
                    let n = s.1.len();
                    // Bytes the adversary supplied in the clear prove nothing.
                    if n >= 12 && out.len() > n && body[1..1 + n] != s.1[..] {
                        ensure!(out[1..1 + n] != s.1[..], "attack {k} {atk:?}: plaintext released although authentication failed");
                    }
                }
                rejected += 1;
                classes.push(match atk {
                    Attack::Deliver(_) | Attack::Old(_) => "replay-or-reorder",
                    Attack::Flip(_) | Attack::Smear(..) => "modified",
                    Attack::Reflect(_) => "reflected",
                    Attack::WrongAad(_) | Attack::FlipAad(_) | Attack::ResizeAad(_) => "other-aad",
                    Attack::WrongPosition(_) => "other-position",
                    Attack::Cut(_) => "truncated",
                    _ => "other",
                });
            }
        }
    }
    if rejected > 0 && next > 0 {
        classes.push("rejections-and-deliveries");
    }
    if c.warmup >= 200 {
        classes.push("around-rekey");
    }
    Ok(Outcome::new(rejected > 0, classes))
}

/// Every single-bit modification of a small packet, at positions around re-keying.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BitCase {
    position: u32,
    contents: Blob,
    aad: Option<Blob>,
    api: u8,
}
fn bit_strategy(_: Tier) -> BoxedStrategy<BitCase> {
    let pos = prop_oneof![2 => 0u32..3, 3 => (1u32..3, 0u32..4).prop_map(|(k, d)| 224 * k + d - 3), 1 => 0u32..700];
    (pos, blob(40), prop_oneof![2 => Just(None), 1 => blob(24).prop_map(Some)], 0u8..3)
        .prop_map(|(position, contents, aad, api)| BitCase { position, contents, aad, api })
        .boxed()
}
fn bit_check(c: &BitCase) -> CaseResult {
    let (cipher, mut peer) = establish(c.position ^ 0x55, 3, c.api == 1, [9, 8, 7, 6])?;
    let (i, o) = cipher.into_split();
    let mut h = Halves { i, o };
    for _ in 0..c.position {
        do_dec(&mut h, &mut peer.tx, 0, &[], None, 1)?;
    }
    let (b, aad) = (c.contents.get(), c.aad.as_ref().map(|a| a.get()).unwrap_or_default());
    let pkt = peer.tx.seal(0, &b, &aad);
    h.i.decrypt_packet_len(pkt[..3].try_into().unwrap());
    let body = &pkt[3..];
    for bit in 0..body.len() * 8 {
        let mut x = body.to_vec();
        x[bit / 8] ^= 1 << (bit % 8);
        ensure!(dec_via(&mut h.i, &x, Some(&aad), c.api).is_err(), "accepted with bit {bit} of {} flipped", body.len() * 8);
    }
    for bit in 0..aad.len() * 8 {
        let mut x = aad.clone();
        x[bit / 8] ^= 1 << (bit % 8);
        ensure!(dec_via(&mut h.i, body, Some(&x), c.api).is_err(), "accepted with bit {bit} of the associated data flipped");
    }
    let (_, p) = dec_via(&mut h.i, body, Some(&aad), c.api).map_err(|e| format!("genuine packet rejected after forgeries: {e:?}"))?;
    ensure!(p[1..] == b[..], "contents differ");
    Ok(Outcome::new(true, vec![]))
}

/// Bits all over packets and associated data of every size class.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SizesCase {
    contents: u32,
    aad: u32,
    api: u8,
}
fn sizes_list(t: Tier) -> Vec<SizesCase> {
    let mut v = vec![];
    let mut sizes: Vec<u32> = vec![0, 1, 40];
    for k in 4..if t == Tier::Quick { 20 } else { 22 } {
        sizes.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    sizes.extend(dict_upto(if t == Tier::Quick { 300_000 } else { 4_100_000 }));
    sizes.sort();
    sizes.dedup();
    for (k, n) in sizes.iter().enumerate() {
        v.push(SizesCase { contents: *n, aad: 0, api: k as u8 % 4 });
        v.push(SizesCase { contents: 5, aad: *n, api: (k as u8 + 1) % 4 });
    }
    v
}
fn sizes_check(c: &SizesCase) -> CaseResult {
    let (cipher, mut peer) = establish(c.contents ^ 0x5a, 4, c.api == 1, [9, 8, 7, 6])?;
    let (i, o) = cipher.into_split();
    let mut h = Halves { i, o };
    let (b, aad) = (Blob::R(c.contents, 1).get(), Blob::R(c.aad, 2).get());
    let pkt = peer.tx.seal(0, &b, &aad);
    h.i.decrypt_packet_len(pkt[..3].try_into().unwrap());
    let body = &pkt[3..];
    // First and last bytes, and some in between.
    let places = |n: usize| -> Vec<usize> {
        let some = if n > 100_000 { 6 } else { 24 };
        let mut v: Vec<usize> = (0..n.min(3)).chain(n.saturating_sub(3)..n).chain((1..some).map(|k| k * n / some).filter(|p| *p < n)).collect();
        v.extend((0..18).map(|k| 1usize << k).filter(|p| *p < n && n < 100_000));
        v.sort();
        v.dedup();
        v
    };
    let mut x = body.to_vec();
    for (k, p) in places(body.len()).into_iter().enumerate() {
        x[p] ^= 1 << (k % 8);
        ensure!(dec_via(&mut h.i, &x, Some(&aad), c.api).is_err(), "accepted with a bit of byte {p} of {} flipped", body.len());
        x[p] = body[p];
    }
    let mut y = aad.clone();
    for (k, p) in places(aad.len()).into_iter().enumerate() {
        y[p] ^= 1 << (k % 8);
        ensure!(dec_via(&mut h.i, body, Some(&y), c.api).is_err(), "accepted with a bit of byte {p} of {} of the associated data flipped", aad.len());
        y[p] = aad[p];
    }
    if !aad.is_empty() {
        ensure!(dec_via(&mut h.i, body, Some(&aad[1..]), c.api).is_err(), "accepted without the first byte of the associated data");
        ensure!(dec_via(&mut h.i, body, Some(&aad[..aad.len() - 1]), c.api).is_err(), "accepted without the last byte of the associated data");
    }
    ensure!(dec_via(&mut h.i, &body[..body.len() - 1], Some(&aad), c.api).is_err(), "accepted without its last byte");
    let (_, p) = dec_via(&mut h.i, body, Some(&aad), c.api).map_err(|e| format!("genuine packet rejected after forgeries: {e:?}"))?;
    ensure!(p[1..] == b[..], "contents differ");
    Ok(Outcome::new(true, vec![if c.aad > 0 { "associated-data" } else { "contents" }]))
}

// ------------------------------------------------------------------ C05
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Good(bool, Blob, u8),
    GoodIn(u8, Blob, u8),
    /// Encrypt into a buffer short by this much (mod).
    EncShort(Blob, u32),
    /// Decrypt the next packet into a buffer short by this much.
    DecShort(Blob, u32),
    /// Fewer than 17 bytes (api).
    Tiny(u8, u8),
    /// Authentication failure (api).
    Forged(Blob, u32, u8),
    /// Contents over the automatic allocation limit: refused, then decrypted explicitly.
    OverAlloc(u32),
    /// Contents that do not fit three length bytes.
    OverWire(u32, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FailCase {
    lseed: u32,
    initiator: bool,
    warmup: u32,
    steps: Vec<Step>,
}
fn fail_strategy(_: Tier) -> BoxedStrategy<FailCase> {
    let small = || prop_oneof![5 => blob(80), 1 => blob(3000)];
    let step = prop_oneof![
        30 => (any::<bool>(), small(), api()).prop_map(|(d, b, a)| Step::Good(d, b, a)),
        30 => (any::<u8>(), small(), api()).prop_map(|(d, b, a)| Step::GoodIn(d, b, a)),
        50 => (small(), prop_oneof![Just(0u32), any::<u32>()]).prop_map(|(b, s)| Step::EncShort(b, s)),
        50 => (small(), prop_oneof![Just(0u32), any::<u32>()]).prop_map(|(b, s)| Step::DecShort(b, s)),
        30 => (0u8..17, 0u8..4).prop_map(|(n, a)| Step::Tiny(n, a)),
        40 => (small(), any::<u32>(), 0u8..4).prop_map(|(b, p, a)| Step::Forged(b, p, a)),
        1 => (0u32..3).prop_map(Step::OverAlloc),
        1 => (0u32..3, 0u8..2).prop_map(|(n, a)| Step::OverWire(n, a)),
    ];
    let warm = prop_oneof![2 => Just(0u32), 2 => 215u32..226, 1 => 0u32..500];
    (any::<u32>(), any::<bool>(), warm, proptest::collection::vec(step, 1..16))
        .prop_map(|(lseed, initiator, warmup, steps)| FailCase { lseed, initiator, warmup, steps })
        .boxed()
}
fn fail_check(c: &FailCase) -> CaseResult {
    let (cipher, mut peer) = establish(c.lseed, 11, c.initiator, [0, 1, 0, 1])?;
    let (i, o) = cipher.into_split();
    let mut h = Halves { i, o };
    for _ in 0..c.warmup {
        do_enc(&mut h, &mut peer.rx, false, &[], None, 1)?;
        do_dec(&mut h, &mut peer.tx, 0, &[], None, 1)?;
    }
    let mut failures = 0;
    let mut cl = vec![];
    for (k, s) in c.steps.iter().enumerate() {
        let r: Result<(), String> = (|| {
            match s {
                Step::Good(d, b, a) => do_enc(&mut h, &mut peer.rx, *d, &b.get(), None, *a)?,
                Step::GoodIn(d, b, a) => do_dec(&mut h, &mut peer.tx, *d, &b.get(), None, *a)?,
                Step::EncShort(b, by) => {
                    let b = b.get();
                    let need = b.len() + 20;
                    let have = need - 1 - (*by as usize % need);
                    let mut buf = vec![0x77u8; have];
                    let r = h.o.encrypt(&b, &mut buf, PacketType::Genuine, None);
                    ensure!(r == Err(Error::BufferTooSmall { required_bytes: need }), "encrypt of {} bytes into {have}: {r:?}", b.len());
                    ensure!(buf.iter().all(|x| *x == 0x77), "refused encrypt wrote to the buffer");
                    do_enc(&mut h, &mut peer.rx, false, &b, None, 1).map_err(|e| format!("after refused encrypt: {e}"))?;
                    failures += 1;
                    cl.push("short-encrypt-buffer");
                }
                Step::DecShort(b, by) => {
                    let b = b.get();
                    let pkt = peer.tx.seal(0, &b, &[]);
                    let n = h.i.decrypt_packet_len(pkt[..3].try_into().unwrap());
                    ensure!(n == b.len() + 17, "length {n}");
                    let need = b.len() + 1;
                    let have = need - 1 - (*by as usize % need);
                    let mut buf = vec![0x77u8; have];
                    let r = h.i.decrypt(&pkt[3..], &mut buf, None);
                    ensure!(r == Err(Error::BufferTooSmall { required_bytes: need }), "decrypt of {} contents bytes into {have}: {r:?}", b.len());
                    let (_, p) = dec_via(&mut h.i, &pkt[3..], None, 2).map_err(|e| format!("packet lost after refused decrypt: {e:?}"))?;
                    ensure!(p[1..] == b[..], "contents differ after refused decrypt");
                    failures += 1;
                    cl.push("short-decrypt-buffer");
                }
                Step::Tiny(n, a) => {
                    let r = dec_via(&mut h.i, &vec![3u8; *n as usize], None, *a);
                    ensure!(r == Err(Error::CiphertextTooSmall), "{n} byte ciphertext (entry point {a}): {r:?}");
                    failures += 1;
                    cl.push("tiny-ciphertext");
                }
                Step::Forged(b, p, a) => {
                    let b = b.get();
                    let pkt = peer.tx.seal(0x80, &b, &[]);
                    h.i.decrypt_packet_len(pkt[..3].try_into().unwrap());
                    let mut x = pkt[3..].to_vec();
                    let bit = *p as usize % (x.len() * 8);
                    x[bit / 8] ^= 1 << (bit % 8);
                    let r = dec_via(&mut h.i, &x, None, *a);
                    ensure!(matches!(r, Err(Error::Decryption(_))), "forged packet (bit {bit}): {r:?}");
                    let (t, q) = dec_via(&mut h.i, &pkt[3..], None, *a).map_err(|e| format!("genuine packet rejected after a forgery: {e:?}"))?;
                    ensure!(t == PacketType::Decoy && q[1..] == b[..], "contents differ after a forgery");
                    failures += 1;
                    cl.push("forged");
                }
                Step::OverAlloc(n) => {
                    let b = vec![9u8; 4_000_014 + *n as usize];
                    let pkt = peer.tx.seal(0, &b, &[]);
                    h.i.decrypt_packet_len(pkt[..3].try_into().unwrap());
                    #[cfg(feature = "std")]
                    let r = h.i.decrypt_to_vec(&pkt[3..], None);
                    #[cfg(feature = "std")]
                    ensure!(r == Err(Error::PacketTooBig), "decrypt_to_vec of {} contents bytes: {:?}", b.len(), r.map(|x| x.0));
                    let (_, q) = dec_via(&mut h.i, &pkt[3..], None, 2).map_err(|e| format!("explicit decrypt after PacketTooBig: {e:?}"))?;
                    ensure!(q[1..] == b[..], "contents differ after PacketTooBig");
                    failures += 1;
                    cl.push("over-allocation-limit");
                }
                Step::OverWire(n, slack) => {
                    let b = vec![9u8; (1 << 24) + *n as usize];
                    let mut buf = vec![0u8; b.len() + 20 + *slack as usize];
                    let r = h.o.encrypt(&b, &mut buf, PacketType::Genuine, None);
                    ensure!(r.is_err(), "encrypt accepted {} contents bytes, which three length bytes cannot describe", b.len());
                    failures += 1;
                    cl.push("over-wire-limit");
                }
            }
            // The session still works in both directions, in step with the specification.
            do_enc(&mut h, &mut peer.rx, false, &[k as u8], None, 0).map_err(|e| format!("outbound afterwards: {e}"))?;
            do_dec(&mut h, &mut peer.tx, 0, &[k as u8], None, 0).map_err(|e| format!("inbound afterwards: {e}"))
        })();
        r.map_err(|e| format!("step {k} {s:?}: {e}"))?;
    }
    Ok(Outcome::new(failures > 0, cl))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HsBufCase {
    lseed: u32,
    initiator: bool,
    garbage: Option<Blob>,
    decoys: Option<Vec<Blob>>,
    short: u32,
    slack: u32,
}
fn hsbuf_strategy(_: Tier) -> BoxedStrategy<HsBufCase> {
    (
        any::<u32>(), any::<bool>(), proptest::option::of(blob(4200)),
        proptest::option::of(proptest::collection::vec(prop_oneof![3 => blob(60), 1 => blob(2000)], 0..5)),
        prop_oneof![Just(0u32), any::<u32>()], 0u32..50,
    )
        .prop_map(|(lseed, initiator, garbage, decoys, short, slack)| HsBufCase { lseed, initiator, garbage, decoys, short, slack })
        .boxed()
}
fn hsbuf_check(c: &HsBufCase) -> CaseResult {
    let magic = [1, 1, 2, 3];
    let g = c.garbage.as_ref().map(|b| b.get());
    let n = Handshake::<Initialized>::send_key_len(g.as_deref());
    let glen = g.as_ref().map(|x| x.len()).unwrap_or(0);
    ensure!(n == 64 + glen, "send_key_len with {glen} garbage bytes is {n}");
    // Short buffer.
    let have = n - 1 - (c.short as usize % n);
    let mut buf = vec![0x33u8; have];
    let r = new_handshake(c.lseed, c.initiator, magic)?.send_key(g.as_deref(), &mut buf).map(|_| ());
    if glen > 4095 {
        ensure!(r == Err(Error::TooMuchGarbage), "{glen} garbage bytes: {r:?}");
    } else {
        ensure!(r == Err(Error::BufferTooSmall { required_bytes: n }), "send_key into {have} of {n} bytes: {r:?}");
    }
    ensure!(buf.iter().all(|x| *x == 0x33), "refused send_key wrote to the buffer");
    // Large enough.
    let mut buf = vec![0x33u8; n + c.slack as usize];
    let r = new_handshake(c.lseed, c.initiator, magic)?.send_key(g.as_deref(), &mut buf);
    if glen > 4095 {
        ensure!(matches!(r, Err(Error::TooMuchGarbage)), "{glen} garbage bytes accepted");
        ensure!(buf.iter().all(|x| *x == 0x33), "refused send_key wrote to the buffer");
        return Ok(Outcome::new(true, vec!["too-much-garbage"]));
    }
    let hs = r.map_err(|e| format!("send_key: {e:?}"))?;
    ensure!(buf[64..n] == g.clone().unwrap_or_default()[..], "garbage not sent after the key");
    ensure!(buf[n..].iter().all(|x| *x == 0x33), "send_key wrote beyond its length");
    let their = remote_ell(c.lseed.wrapping_add(1));
    let decoys: Option<Vec<Vec<u8>>> = c.decoys.as_ref().map(|d| d.iter().map(|b| b.get()).collect());
    let refs: Option<Vec<&[u8]>> = decoys.as_ref().map(|d| d.iter().map(|x| x.as_slice()).collect());
    let m = Handshake::<ReceivedKey>::send_version_len(refs.as_deref());
    let want = 36 + decoys.iter().flatten().map(|d| d.len() + 20).sum::<usize>();
    ensure!(m == want, "send_version_len is {m}, expected {want}");
    let have = m - 1 - (c.short as usize % m);
    let mut vb = vec![0x33u8; have];
    let r = hs.receive_key(their).map_err(|e| format!("{e:?}"))?.send_version(&mut vb, refs.as_deref()).map(|_| ());
    ensure!(r == Err(Error::BufferTooSmall { required_bytes: m }), "send_version into {have} of {m} bytes: {r:?}");
    ensure!(vb.iter().all(|x| *x == 0x33), "refused send_version wrote to the buffer");
    let mut kb = vec![0u8; n];
    let hs = new_handshake(c.lseed, c.initiator, magic)?.send_key(g.as_deref(), &mut kb).map_err(|e| format!("{e:?}"))?;
    let mut vb = vec![0x33u8; m + c.slack as usize];
    hs.receive_key(their).map_err(|e| format!("{e:?}"))?.send_version(&mut vb, refs.as_deref()).map_err(|e| format!("send_version: {e:?}"))?;
    ensure!(vb[m..].iter().all(|x| *x == 0x33), "send_version wrote beyond its length");
    // The announced length is exactly what the specification needs.
    let key: [u8; 64] = kb[..64].try_into().unwrap();
    let (ei, er) = if c.initiator { (key, their) } else { (their, key) };
    let s = Secrets::derive(&ei, &er, &secret(c.lseed), c.initiator, magic);
    let (mut tx, _) = s.dirs(c.initiator);
    let mut expect = s.terms(c.initiator).0.to_vec();
    let g = g.unwrap_or_default();
    let mut aad: &[u8] = &g;
    for d in decoys.iter().flatten() {
        expect.extend(tx.seal(0x80, d, aad));
        aad = &[];
    }
    expect.extend(tx.seal(0, &[], aad));
    ensure!(vb[..m] == expect[..], "version bytes differ from the specification: {}", first_diff(&vb[..m], &expect));
    Ok(Outcome::new(true, vec![]))
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            level: "exploration",
            rule: "Random local secrets, roles, magics, garbage and decoys against remote keys that are valid encodings, arbitrary 64-byte strings or field-boundary patterns; every derived secret is compared with an independent model of BIP-324. Non-trivial: the handshake got past key agreement (derive, pair) or made more than one ephemeral key (fresh).",
            assumptions: &["libsecp256k1's x-only ECDH on ElligatorSwift points is correct", "entropy is whatever getrandom returns (a seeded stand-in here)"],
            families: vec![family("derive", 120_000, 2_000_000, derive_strategy, derive_check), family("reuse", 12_000, 300_000, reuse_strategy, reuse_check), #[cfg(feature = "std")] family("fresh", 2000, 20_000, fresh_strategy, fresh_check), #[cfg(feature = "std")] enumerate("many", many_list, fresh_check), family("edge", 6_000, 60_000, edge_strategy, edge_check)],
        },
        Property {
            id: "C02",
            level: "exploration",
            rule: "Random histories of encrypt/decrypt calls through every entry point, with decoy flags, associated data, header bytes, sizes and runs across re-keying boundaries, plus long runs and large packets; every byte is compared with the model. Non-trivial: the history crosses a re-keying, uses associated data, needs the third length byte, or has at least 4 operations.",
            assumptions: &["the model passes RFC 8439, RFC 5869 and BIP-324 vectors at start-up"],
            families: vec![
                family("wire", 40_000, 600_000, wire_strategy, wire_check),
                enumerate("big", big_list, big_check),
                enumerate("long", long_list, long_check),
            ],
        },
        Property {
            id: "C03",
            level: "exploration",
            rule: "Two sessions of the code under test after a mutual handshake; random interleavings of sends and deliveries in both directions with packets left in flight. Non-trivial: at least 3 packets sent.",
            assumptions: &[],
            families: vec![family("trip", 60_000, 800_000, trip_strategy, trip_check)],
        },
        Property {
            id: "C04",
            level: "exploration",
            rule: "An adversary edits the packet sequence (bit flips, cuts, splices, replays, reordering, reflection, other sessions, other positions, other associated data). Non-trivial: at least one delivery was rejected. The bits family flips every bit of a packet and of its associated data.",
            assumptions: &["forging a 128-bit tag by chance is negligible"],
            families: vec![family("tamper", 120_000, 2_000_000, tamper_strategy, tamper_check), family("bits", 3000, 30_000, bit_strategy, bit_check), enumerate("sizes", sizes_list, sizes_check)],
        },
        Property {
            id: "C05",
            level: "exploration",
            rule: "Histories mixing good operations with refused ones (short buffers, tiny ciphertexts, forgeries, oversize contents); after each step both directions are compared with the model. Non-trivial: at least one refusal happened (fails) or the handshake buffers were exercised (buffers).",
            assumptions: &[],
            families: vec![family("fails", 40_000, 500_000, fail_strategy, fail_check), family("buffers", 60_000, 600_000, hsbuf_strategy, hsbuf_check)],
        },
    ]
}
