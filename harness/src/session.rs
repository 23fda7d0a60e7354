//! Establishing sessions of the code under test against the reference model.
use crate::model::{Dir, Secrets};
use crate::util::{prng_bytes, Blob};
#[cfg(not(feature = "std"))]
use bip324::{Error, InboundCipher, OutboundCipher, PacketType};
use bip324::{CipherSession, FillBytes, GarbageResult, Handshake, Initialized, ReceivedKey, Role, VersionResult};
use secp256k1::ellswift::ElligatorSwift;
use secp256k1::{All, Secp256k1, SecretKey};
use std::sync::OnceLock;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

pub fn curve() -> &'static Secp256k1<All> {
    static C: OnceLock<Secp256k1<All>> = OnceLock::new();
    C.get_or_init(Secp256k1::new)
}
/// A fixed source of secret-key bytes.
pub struct Fixed(pub [u8; 32]);
impl FillBytes for Fixed {
    fn fill_bytes(&mut self, dest: &mut [u8; 32]) {
        *dest = self.0;
    }
}
pub fn secret(seed: u32) -> SecretKey {
    let mut s = seed as u64;
    loop {
        if let Ok(k) = SecretKey::from_slice(&prng_bytes(s ^ 0x7365_6372, 32)) {
            return k;
        }
        s = s.wrapping_add(0x1_0000_0000);
    }
}
/// A valid ElligatorSwift encoding of the key of `secret(seed)`.
pub fn remote_ell(seed: u32) -> [u8; 64] {
    let aux: [u8; 32] = prng_bytes(seed as u64 ^ 0x6175_7800_0000, 32).try_into().unwrap();
    ElligatorSwift::from_seckey(curve(), secret(seed), Some(aux)).to_array()
}
pub fn role_of(initiator: bool) -> Role {
    if initiator { Role::Initiator } else { Role::Responder }
}
pub fn new_handshake(seed: u32, initiator: bool, magic: [u8; 4]) -> Result<Handshake<Initialized>, String> {
    Handshake::new_with_rng(magic, role_of(initiator), &mut Fixed(secret(seed).secret_bytes()), curve())
        .map_err(|e| format!("handshake cannot be initialised: {e:?}"))
}

/// What the remote side of a handshake sends, other than its key.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct PeerHs {
    pub garbage: Blob,
    /// (header, contents) of packets before the version packet; the ignore bit is always set.
    pub decoys: Vec<(u8, Blob)>,
    pub version_header: u8,
    pub version: Blob,
}
impl PeerHs {
    pub fn plain() -> Self {
        PeerHs { garbage: Blob::empty(), decoys: vec![], version_header: 0, version: Blob::empty() }
    }
    /// Terminator, decoys and version packet.
    pub fn tail(&self, term: &[u8; 16], tx: &mut Dir) -> Vec<u8> {
        let mut out = term.to_vec();
        let garbage = self.garbage.get();
        let mut aad: &[u8] = &garbage;
        for (h, b) in &self.decoys {
            out.extend(tx.seal(h | 0x80, &b.get(), aad));
            aad = &[];
        }
        out.extend(tx.seal(self.version_header & 0x7f, &self.version.get(), aad));
        out
    }
}

/// The model's view of a finished session.
pub struct Peer {
    #[allow(dead_code)]
    pub secrets: Secrets,
    /// Model cipher sending to the local side.
    pub tx: Dir,
    /// Model cipher receiving from the local side.
    pub rx: Dir,
}

/// Runs a local handshake against the model without any extras.
pub fn establish(lseed: u32, rseed: u32, initiator: bool, magic: [u8; 4]) -> Result<(CipherSession, Peer), String> {
    let e = |what: &'static str| move |e: bip324::Error| format!("plain handshake: {what}: {e:?}");
    let hs = new_handshake(lseed, initiator, magic)?;
    let mut key = [0u8; 64];
    let hs = hs.send_key(None, &mut key).map_err(e("send_key"))?;
    let their = remote_ell(rseed);
    if their[..4] == magic {
        return Err("HARNESS:remote key starts with the magic".into());
    }
    let hs = hs.receive_key(their).map_err(e("receive_key"))?;
    let mut ver = vec![0u8; Handshake::<ReceivedKey>::send_version_len(None)];
    let hs = hs.send_version(&mut ver, None).map_err(e("send_version"))?;
    let (ei, er) = if initiator { (&key, &their) } else { (&their, &key) };
    let secrets = Secrets::derive(ei, er, &secret(lseed), initiator, magic);
    let (mut tx, mut rx) = secrets.dirs(!initiator);
    let (term, lterm) = secrets.terms(!initiator);
    ensure!(ver.len() == 36 && ver[..16] == lterm, "plain handshake: unexpected terminator/version {}", crate::model::hex(&ver));
    ensure!(rx.open(&ver[16..], &[]) == Some((0, vec![])), "plain handshake: version packet is not valid");
    let stream = PeerHs::plain().tail(&term, &mut tx);
    let mut hs = match hs.receive_garbage(&stream).map_err(e("receive_garbage"))? {
        GarbageResult::FoundGarbage { handshake, consumed_bytes: 16 } => handshake,
        _ => return Err("plain handshake: terminator not found at once".into()),
    };
    let n = hs.decrypt_packet_len(stream[16..19].try_into().unwrap()).map_err(e("decrypt_packet_len"))?;
    ensure!(n == 17, "plain handshake: version packet length {n}");
    let mut body = stream[19..].to_vec();
    match hs.receive_version(&mut body).map_err(e("receive_version"))? {
        VersionResult::Complete { cipher } => {
            ensure!(cipher.id() == &secrets.session_id, "plain handshake: session id differs from the specification");
            Ok((cipher, Peer { secrets, tx, rx }))
        }
        VersionResult::Decoy(_) => Err("plain handshake: version packet taken for a decoy".into()),
    }
}

/// What the crate offers only with the standard library, as a user without it would write it.
#[cfg(not(feature = "std"))]
pub trait EncryptToVec {
    fn encrypt_to_vec(&mut self, plaintext: &[u8], t: PacketType, aad: Option<&[u8]>) -> Vec<u8>;
}
#[cfg(not(feature = "std"))]
impl EncryptToVec for OutboundCipher {
    fn encrypt_to_vec(&mut self, plaintext: &[u8], t: PacketType, aad: Option<&[u8]>) -> Vec<u8> {
        let mut out = vec![0; OutboundCipher::encryption_buffer_len(plaintext.len())];
        self.encrypt(plaintext, &mut out, t, aad).expect("fits");
        out
    }
}
#[cfg(not(feature = "std"))]
pub trait DecryptToVec {
    fn decrypt_to_vec(&mut self, body: &[u8], aad: Option<&[u8]>) -> Result<(PacketType, Vec<u8>), Error>;
}
#[cfg(not(feature = "std"))]
impl DecryptToVec for InboundCipher {
    fn decrypt_to_vec(&mut self, body: &[u8], aad: Option<&[u8]>) -> Result<(PacketType, Vec<u8>), Error> {
        let mut out = vec![0; body.len().saturating_sub(16)];
        let t = self.decrypt(body, &mut out, aad)?;
        Ok((t, out))
    }
}
