//! Independent executable reference of the BIP-324 specification: SHA-256, HMAC, HKDF,
//! ChaCha20, Poly1305 and the two forward-secure ciphers, written from the specifications.
//! Only the elliptic-curve arithmetic itself (x-only ECDH over ElligatorSwift points) is
//! taken from libsecp256k1, which is a dependency and not the code under test.

use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty, ElligatorSwiftSharedSecret};
use secp256k1::SecretKey;

// ---------------------------------------------------------------- SHA-256
const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19,
    ];
    let mut msg = data.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for block in msg.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(block[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    for p in parts {
        inner.extend_from_slice(p);
    }
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&sha256(&inner));
    sha256(&outer)
}

/// HKDF-Extract then HKDF-Expand to exactly one block (32 bytes).
pub fn hkdf32(salt: &[u8], ikm: &[u8], info: &[u8]) -> [u8; 32] {
    let prk = hmac(salt, &[ikm]);
    hmac(&prk, &[info, &[1u8]])
}

pub fn tagged_sha256(tag: &[u8], data: &[u8]) -> [u8; 32] {
    let t = sha256(tag);
    let mut m = Vec::with_capacity(64 + data.len());
    m.extend_from_slice(&t);
    m.extend_from_slice(&t);
    m.extend_from_slice(data);
    sha256(&m)
}

// ---------------------------------------------------------------- ChaCha20
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}

pub fn chacha_block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut init = [0u32; 16];
    init[0] = 0x61707865;
    init[1] = 0x3320646e;
    init[2] = 0x79622d32;
    init[3] = 0x6b206574;
    for i in 0..8 {
        init[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    init[12] = counter;
    for i in 0..3 {
        init[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut s = init;
    for _ in 0..10 {
        qr(&mut s, 0, 4, 8, 12);
        qr(&mut s, 1, 5, 9, 13);
        qr(&mut s, 2, 6, 10, 14);
        qr(&mut s, 3, 7, 11, 15);
        qr(&mut s, 0, 5, 10, 15);
        qr(&mut s, 1, 6, 11, 12);
        qr(&mut s, 2, 7, 8, 13);
        qr(&mut s, 3, 4, 9, 14);
    }
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    out
}

fn chacha_xor(key: &[u8; 32], mut counter: u32, nonce: &[u8; 12], data: &mut [u8]) {
    for chunk in data.chunks_mut(64) {
        let ks = chacha_block(key, counter, nonce);
        for (b, k) in chunk.iter_mut().zip(ks.iter()) {
            *b ^= k;
        }
        counter = counter.wrapping_add(1);
    }
}

// ---------------------------------------------------------------- Poly1305
struct Poly {
    r: [u64; 5],
    s: [u64; 5],
    h: [u64; 5],
    pad: [u8; 16],
}
impl Poly {
    fn new(key: &[u8; 32]) -> Self {
        let le = |i: usize| u32::from_le_bytes(key[i..i + 4].try_into().unwrap()) as u64;
        let r = [
            le(0) & 0x3ffffff,
            (le(3) >> 2) & 0x3ffff03,
            (le(6) >> 4) & 0x3ffc0ff,
            (le(9) >> 6) & 0x3f03fff,
            (le(12) >> 8) & 0x00fffff,
        ];
        let s = [0, r[1] * 5, r[2] * 5, r[3] * 5, r[4] * 5];
        Poly { r, s, h: [0; 5], pad: key[16..32].try_into().unwrap() }
    }
    fn block(&mut self, b: &[u8; 17]) {
        let le = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as u64;
        let h = &mut self.h;
        h[0] += le(0) & 0x3ffffff;
        h[1] += (le(3) >> 2) & 0x3ffffff;
        h[2] += (le(6) >> 4) & 0x3ffffff;
        h[3] += (le(9) >> 6) & 0x3ffffff;
        h[4] += (le(12) >> 8) | ((b[16] as u64) << 24);
        let (r, s) = (&self.r, &self.s);
        let d0 = h[0] * r[0] + h[1] * s[4] + h[2] * s[3] + h[3] * s[2] + h[4] * s[1];
        let mut d1 = h[0] * r[1] + h[1] * r[0] + h[2] * s[4] + h[3] * s[3] + h[4] * s[2];
        let mut d2 = h[0] * r[2] + h[1] * r[1] + h[2] * r[0] + h[3] * s[4] + h[4] * s[3];
        let mut d3 = h[0] * r[3] + h[1] * r[2] + h[2] * r[1] + h[3] * r[0] + h[4] * s[4];
        let mut d4 = h[0] * r[4] + h[1] * r[3] + h[2] * r[2] + h[3] * r[1] + h[4] * r[0];
        d1 += d0 >> 26;
        h[0] = d0 & 0x3ffffff;
        d2 += d1 >> 26;
        h[1] = d1 & 0x3ffffff;
        d3 += d2 >> 26;
        h[2] = d2 & 0x3ffffff;
        d4 += d3 >> 26;
        h[3] = d3 & 0x3ffffff;
        h[0] += (d4 >> 26) * 5;
        h[4] = d4 & 0x3ffffff;
        h[1] += h[0] >> 26;
        h[0] &= 0x3ffffff;
    }
    /// Absorb data zero-padded to a multiple of 16 (as the AEAD construction does).
    fn padded(&mut self, data: &[u8]) {
        for c in data.chunks(16) {
            let mut b = [0u8; 17];
            b[..c.len()].copy_from_slice(c);
            b[16] = 1;
            self.block(&b);
        }
    }
    fn tag(mut self) -> [u8; 16] {
        let h = &mut self.h;
        for _ in 0..2 {
            for i in 0..4 {
                h[i + 1] += h[i] >> 26;
                h[i] &= 0x3ffffff;
            }
            h[0] += (h[4] >> 26) * 5;
            h[4] &= 0x3ffffff;
        }
        h[1] += h[0] >> 26;
        h[0] &= 0x3ffffff;
        // h + 5 - 2^130 : if non-negative, h >= p.
        let mut g = [0u64; 5];
        let mut c = 5u64;
        for i in 0..5 {
            let t = h[i] + c;
            g[i] = t & 0x3ffffff;
            c = t >> 26;
        }
        if c != 0 {
            *h = g;
        }
        let lo = (h[0] as u128) | ((h[1] as u128) << 26) | ((h[2] as u128) << 52)
            | ((h[3] as u128) << 78) | ((h[4] as u128) << 104);
        lo.wrapping_add(u128::from_le_bytes(self.pad)).to_le_bytes()
    }
}

/// Plain RFC 8439 Poly1305 over an unpadded message (used by the self test only).
pub fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    let mut p = Poly::new(key);
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        p.block(&b);
    }
    p.tag()
}

fn aead_tag(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk: [u8; 32] = chacha_block(key, 0, nonce)[..32].try_into().unwrap();
    let mut p = Poly::new(&otk);
    p.padded(aad);
    p.padded(ct);
    let mut l = [0u8; 16];
    l[..8].copy_from_slice(&(aad.len() as u64).to_le_bytes());
    l[8..].copy_from_slice(&(ct.len() as u64).to_le_bytes());
    p.padded(&l);
    p.tag()
}

pub fn aead_encrypt(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut ct = pt.to_vec();
    chacha_xor(key, 1, nonce, &mut ct);
    let tag = aead_tag(key, nonce, aad, &ct);
    ct.extend_from_slice(&tag);
    ct
}

pub fn aead_decrypt(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 {
        return None;
    }
    let (body, tag) = ct.split_at(ct.len() - 16);
    if aead_tag(key, nonce, aad, body) != tag {
        return None;
    }
    let mut pt = body.to_vec();
    chacha_xor(key, 1, nonce, &mut pt);
    Some(pt)
}

// ---------------------------------------------------------------- BIP-324 ciphers
pub const REKEY: u64 = 224;

/// FSChaCha20: one continuous keystream per key epoch, read sequentially.
#[derive(Clone)]
pub struct FsLen {
    key: [u8; 32],
    epoch: u64,
    in_epoch: u64,
    ks: Vec<u8>,
    pos: usize,
    block: u32,
}
impl FsLen {
    pub fn new(key: [u8; 32]) -> Self {
        FsLen { key, epoch: 0, in_epoch: 0, ks: Vec::new(), pos: 0, block: 0 }
    }
    fn take(&mut self, out: &mut [u8]) {
        let mut nonce = [0u8; 12];
        nonce[4..].copy_from_slice(&self.epoch.to_le_bytes());
        for o in out {
            if self.pos == self.ks.len() {
                self.ks = chacha_block(&self.key, self.block, &nonce).to_vec();
                self.block += 1;
                self.pos = 0;
            }
            *o = self.ks[self.pos];
            self.pos += 1;
        }
    }
    pub fn key(&self) -> [u8; 32] {
        self.key
    }
    pub fn crypt(&mut self, b: [u8; 3]) -> [u8; 3] {
        let mut k = [0u8; 3];
        self.take(&mut k);
        let out = [b[0] ^ k[0], b[1] ^ k[1], b[2] ^ k[2]];
        self.in_epoch += 1;
        if self.in_epoch == REKEY {
            let mut nk = [0u8; 32];
            self.take(&mut nk);
            self.key = nk;
            self.epoch += 1;
            self.in_epoch = 0;
            self.ks.clear();
            self.pos = 0;
            self.block = 0;
        }
        out
    }
}

impl FsLen {
    /// Moves on by `n` lengths without producing them.
    pub fn skip(&mut self, mut n: u64) {
        while n > 0 {
            let step = n.min(REKEY - self.in_epoch);
            n -= step;
            let mut nonce = [0u8; 12];
            nonce[4..].copy_from_slice(&self.epoch.to_le_bytes());
            if self.in_epoch + step == REKEY {
                // 672 bytes of lengths, then the 32 bytes of the next key.
                let last = chacha_block(&self.key, 10, &nonce);
                self.key.copy_from_slice(&last[32..]);
                self.epoch += 1;
                self.in_epoch = 0;
                self.ks.clear();
                self.pos = 0;
                self.block = 0;
            } else {
                self.in_epoch += step;
                let at = self.in_epoch as usize * 3;
                self.block = (at / 64) as u32 + 1;
                self.ks = chacha_block(&self.key, self.block - 1, &nonce).to_vec();
                self.pos = at % 64;
            }
        }
    }
}

/// FSChaCha20Poly1305.
#[derive(Clone)]
pub struct FsAead {
    key: [u8; 32],
    epoch: u64,
    in_epoch: u64,
}
impl FsAead {
    pub fn new(key: [u8; 32]) -> Self {
        FsAead { key, epoch: 0, in_epoch: 0 }
    }
    fn nonce(&self, low: u32) -> [u8; 12] {
        let mut n = [0u8; 12];
        n[..4].copy_from_slice(&low.to_le_bytes());
        n[4..].copy_from_slice(&self.epoch.to_le_bytes());
        n
    }
    fn advance(&mut self) {
        self.in_epoch += 1;
        if self.in_epoch == REKEY {
            let ct = aead_encrypt(&self.key, &self.nonce(0xFFFF_FFFF), b"", &[0u8; 32]);
            self.key.copy_from_slice(&ct[..32]);
            self.epoch += 1;
            self.in_epoch = 0;
        }
    }
    pub fn key(&self) -> [u8; 32] {
        self.key
    }
    /// Moves on by `n` packets without producing them.
    pub fn skip(&mut self, mut n: u64) {
        while n > 0 {
            let step = n.min(REKEY - self.in_epoch);
            n -= step;
            self.in_epoch += step - 1;
            self.advance();
        }
    }
    pub fn encrypt(&mut self, aad: &[u8], pt: &[u8]) -> Vec<u8> {
        let ct = aead_encrypt(&self.key, &self.nonce(self.in_epoch as u32), aad, pt);
        self.advance();
        ct
    }
    /// Does not advance when authentication fails.
    pub fn decrypt(&mut self, aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
        let pt = aead_decrypt(&self.key, &self.nonce(self.in_epoch as u32), aad, ct)?;
        self.advance();
        Some(pt)
    }
    /// Whether the next packet is the last one under the current key.
    #[allow(dead_code)]
    pub fn at_boundary(&self) -> bool {
        self.in_epoch == REKEY - 1
    }
}

/// One direction of a session.
#[derive(Clone)]
pub struct Dir {
    pub len: FsLen,
    pub aead: FsAead,
}
impl Dir {
    pub fn new(l: [u8; 32], p: [u8; 32]) -> Self {
        Dir { len: FsLen::new(l), aead: FsAead::new(p) }
    }
    /// Moves on by `n` packets.
    pub fn skip(&mut self, n: u64) {
        self.len.skip(n);
        self.aead.skip(n);
    }
    /// A whole packet: encrypted length, encrypted header and contents, tag.
    pub fn seal(&mut self, header: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let l = (contents.len() as u32).to_le_bytes();
        let mut out = self.len.crypt([l[0], l[1], l[2]]).to_vec();
        let mut pt = Vec::with_capacity(1 + contents.len());
        pt.push(header);
        pt.extend_from_slice(contents);
        out.extend(self.aead.encrypt(aad, &pt));
        out
    }
    /// Opens a whole packet; Some((header, contents)) if it is authentic and well-formed.
    /// Takes the next packet off a byte string: None if incomplete, Err if not authentic.
    pub fn take(&mut self, buf: &[u8], aad: &[u8]) -> Option<Result<(u8, Vec<u8>, usize), ()>> {
        let l = self.len.crypt(buf.get(..3)?.try_into().unwrap());
        let n = l[0] as usize | (l[1] as usize) << 8 | (l[2] as usize) << 16;
        let body = buf.get(3..3 + n + 17)?;
        Some(match self.aead.decrypt(aad, body) {
            Some(p) => Ok((p[0], p[1..].to_vec(), n + 20)),
            None => Err(()),
        })
    }
    pub fn open(&mut self, packet: &[u8], aad: &[u8]) -> Option<(u8, Vec<u8>)> {
        if packet.len() < 20 {
            return None;
        }
        let l = self.len.crypt([packet[0], packet[1], packet[2]]);
        let n = u32::from_le_bytes([l[0], l[1], l[2], 0]) as usize;
        if packet.len() != n + 20 {
            return None;
        }
        let pt = self.aead.decrypt(aad, &packet[3..])?;
        Some((pt[0], pt[1..].to_vec()))
    }
}

/// Secrets of a connection as the specification derives them.
#[derive(Clone)]
pub struct Secrets {
    /// What everything else is derived from.
    pub ecdh: [u8; 32],
    pub prk: [u8; 32],
    pub session_id: [u8; 32],
    pub init_l: [u8; 32],
    pub init_p: [u8; 32],
    pub resp_l: [u8; 32],
    pub resp_p: [u8; 32],
    pub init_term: [u8; 16],
    pub resp_term: [u8; 16],
}
impl Secrets {
    pub fn derive(
        ell_init: &[u8; 64],
        ell_resp: &[u8; 64],
        my_sk: &SecretKey,
        i_am_initiator: bool,
        magic: [u8; 4],
    ) -> Secrets {
        let mut x = [0u8; 32];
        ElligatorSwift::shared_secret_with_hasher(
            ElligatorSwift::from_array(*ell_init),
            ElligatorSwift::from_array(*ell_resp),
            *my_sk,
            if i_am_initiator { ElligatorSwiftParty::A } else { ElligatorSwiftParty::B },
            |point, _, _| {
                x = point;
                ElligatorSwiftSharedSecret::from_secret_bytes(point)
            },
        );
        let mut pre = Vec::new();
        pre.extend_from_slice(ell_init);
        pre.extend_from_slice(ell_resp);
        pre.extend_from_slice(&x);
        let ecdh = tagged_sha256(b"bip324_ellswift_xonly_ecdh", &pre);
        let mut salt = b"bitcoin_v2_shared_secret".to_vec();
        salt.extend_from_slice(&magic);
        let e = |info: &[u8]| hkdf32(&salt, &ecdh, info);
        let g = e(b"garbage_terminators");
        Secrets {
            ecdh,
            prk: hmac(&salt, &[&ecdh]),
            session_id: e(b"session_id"),
            init_l: e(b"initiator_L"),
            init_p: e(b"initiator_P"),
            resp_l: e(b"responder_L"),
            resp_p: e(b"responder_P"),
            init_term: g[..16].try_into().unwrap(),
            resp_term: g[16..].try_into().unwrap(),
        }
    }
    /// (send, receive) directions for a party.
    pub fn dirs(&self, initiator: bool) -> (Dir, Dir) {
        let i = Dir::new(self.init_l, self.init_p);
        let r = Dir::new(self.resp_l, self.resp_p);
        if initiator { (i, r) } else { (r, i) }
    }
    /// (own, remote) garbage terminators for a party.
    pub fn terms(&self, initiator: bool) -> ([u8; 16], [u8; 16]) {
        if initiator { (self.init_term, self.resp_term) } else { (self.resp_term, self.init_term) }
    }
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Known-answer tests of the model itself (RFC 8439, FIPS 180, RFC 5869, BIP-324 vectors).
pub fn self_test() -> Result<(), String> {
    let eq = |name: &str, got: &[u8], want: &str| {
        if hex(got) == want { Ok(()) } else { Err(format!("model self-test {name}: {}", hex(got))) }
    };
    eq("sha256", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    eq("sha256-2", &sha256(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"),
       "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1")?;
    // RFC 5869 test case 1 (first 32 bytes of OKM).
    eq("hkdf", &hkdf32(&unhex("000102030405060708090a0b0c"), &[0x0b; 22], &unhex("f0f1f2f3f4f5f6f7f8f9")),
       "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf")?;
    // RFC 8439 2.5.2
    let k: [u8; 32] = unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b").try_into().unwrap();
    eq("poly1305", &poly1305(&k, b"Cryptographic Forum Research Group"), "a8061dc1305136c6c22b8baf0c0127a9")?;
    // RFC 8439 2.8.2
    let key: [u8; 32] = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f").try_into().unwrap();
    let nonce: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = aead_encrypt(&key, &nonce, &unhex("50515253c0c1c2c3c4c5c6c7"), pt);
    eq("aead tag", &ct[ct.len() - 16..], "1ae10b594f09e26a7e902ecbd0600691")?;
    eq("aead ct", &ct[..16], "d31a8d34648e60db7b86afbc53ef7ec2")?;
    // BIP-324 packet encoding vectors.
    let arr64 = |s: &str| -> [u8; 64] { unhex(s).try_into().unwrap() };
    let sk = SecretKey::from_slice(&unhex("6f312890ec83bbb26798abaadd574684a53e74ccef7953b790fcc29409080246")).unwrap();
    let s = Secrets::derive(
        &arr64("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f0000000000000000000000000000000000000000000000000000000000000000"),
        &arr64("a8785af31c029efc82fa9fc677d7118031358d7c6a25b5779a9b900e5ccd94aac97eb36a3c5dbcdb2ca5843cc4c2fe0aaa46d10eb3d233a81c3dde476da00eef"),
        &sk, false, [0xF9, 0xBE, 0xB4, 0xD9]);
    eq("vector 2 id", &s.session_id, "b0490e26111cb2d55bbff2ace00f7f644f64006539abb4e7513f05107bb10608")?;
    let (mut tx, _) = s.dirs(false);
    for _ in 0..999 {
        tx.seal(0, &[], &[]);
    }
    eq("vector 2 packet", &tx.seal(0, &unhex("3eb1d4e98035cfd8eeb29bac969ed3824a"), &[]),
       "d78adbcba0eebfb15cfbd8142c84dc729d233d0dc11b1d851e46a114122b8d5b96b7d59317")?;
    let sk = SecretKey::from_slice(&unhex("61062ea5071d800bbfd59e2e8b53d47d194b095ae5a4df04936b49772ef0d4d7")).unwrap();
    let s = Secrets::derive(
        &arr64("ec0adff257bbfe500c188c80b4fdd640f6b45a482bbc15fc7cef5931deff0aa186f6eb9bba7b85dc4dcc28b28722de1e3d9108b985e2967045668f66098e475b"),
        &arr64("a4a94dfce69b4a2a0a099313d10f9f7e7d649d60501c9e1d274c300e0d89aafaffffffffffffffffffffffffffffffffffffffffffffffffffffffff8faf88d5"),
        &sk, true, [0xF9, 0xBE, 0xB4, 0xD9]);
    // Skipping is the same as producing.
    for n in [0u64, 1, 2, 21, 22, 223, 224, 225, 447, 448, 449, 1000, 5001] {
        let (mut a, mut b) = (s.dirs(true).0, s.dirs(true).0);
        for base in [0u64, 3, 224] {
            a.skip(n + base);
            for _ in 0..n + base {
                b.seal(0, &[], &[]);
            }
            if a.seal(0, b"x", &[]) != b.seal(0, b"x", &[]) {
                return Err(format!("model self-test: skipping {n}"));
            }
        }
    }
    let (mut tx, _) = s.dirs(true);
    tx.seal(0, &[], &[]);
    eq("vector 1 packet", &tx.seal(0, &[0x8e], &[]), "7530d2a18720162ac09c25329a60d75adf36eda3c3")?;
    Ok(())
}
