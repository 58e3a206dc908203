//! An independent implementation of Noise_NX_25519_ChaChaPoly_BLAKE2s, written from the
//! Noise specification and RFC 7539/7693. It shares no code with the library under test
//! (X25519 comes from curve25519-dalek, the library uses HACL*).

use curve25519_dalek::constants::X25519_BASEPOINT;
use curve25519_dalek::montgomery::MontgomeryPoint;
use curve25519_dalek::scalar::Scalar;

pub type K = [u8; 32];

// ---------------------------------------------------------------- ChaCha20-Poly1305
fn quarter(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn w32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
fn block(key: &K, nonce: &[u8; 12], ctr: u32) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = w32(&key[4 * i..]);
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = w32(&nonce[4 * i..]);
    }
    let init = s;
    for _ in 0..10 {
        quarter(&mut s, 0, 4, 8, 12);
        quarter(&mut s, 1, 5, 9, 13);
        quarter(&mut s, 2, 6, 10, 14);
        quarter(&mut s, 3, 7, 11, 15);
        quarter(&mut s, 0, 5, 10, 15);
        quarter(&mut s, 1, 6, 11, 12);
        quarter(&mut s, 2, 7, 8, 13);
        quarter(&mut s, 3, 4, 9, 14);
    }
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
    }
    o
}
fn stream(key: &K, nonce: &[u8; 12], data: &mut [u8]) {
    for (i, c) in data.chunks_mut(64).enumerate() {
        let b = block(key, nonce, 1 + i as u32);
        for (x, y) in c.iter_mut().zip(b.iter()) {
            *x ^= y;
        }
    }
}
fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    // 26-bit limbs
    let le = |b: &[u8], i: usize| w32(&b[i..]) as u64;
    let r = [
        le(key, 0) & 0x3ffffff,
        (le(key, 3) >> 2) & 0x3ffff03,
        (le(key, 6) >> 4) & 0x3ffc0ff,
        (le(key, 9) >> 6) & 0x3f03fff,
        (le(key, 12) >> 8) & 0x00fffff,
    ];
    let mut h = [0u64; 5];
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        h[0] += le(&b, 0) & 0x3ffffff;
        h[1] += (le(&b, 3) >> 2) & 0x3ffffff;
        h[2] += (le(&b, 6) >> 4) & 0x3ffffff;
        h[3] += (le(&b, 9) >> 6) & 0x3ffffff;
        h[4] += (le(&b, 12) >> 8) | ((b[16] as u64) << 24);
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                let m = h[i] * r[j];
                if i + j < 5 {
                    d[i + j] += m;
                } else {
                    d[i + j - 5] += m * 5;
                }
            }
        }
        let mut carry = 0;
        for i in 0..5 {
            d[i] += carry;
            carry = d[i] >> 26;
            h[i] = d[i] & 0x3ffffff;
        }
        h[0] += carry * 5;
        h[1] += h[0] >> 26;
        h[0] &= 0x3ffffff;
    }
    for _ in 0..2 {
        let mut carry = 0;
        for x in h.iter_mut() {
            *x += carry;
            carry = *x >> 26;
            *x &= 0x3ffffff;
        }
        h[0] += carry * 5;
    }
    let mut carry = 0;
    for x in h.iter_mut() {
        *x += carry;
        carry = *x >> 26;
        *x &= 0x3ffffff;
    }
    h[0] += carry * 5;
    // subtract p if h >= p
    let mut g = h;
    let mut c = 5u64;
    for x in g.iter_mut() {
        *x += c;
        c = *x >> 26;
        *x &= 0x3ffffff;
    }
    if c > 0 {
        h = g;
    }
    let v: u128 = h[0] as u128 | (h[1] as u128) << 26 | (h[2] as u128) << 52 | (h[3] as u128) << 78 | ((h[4] as u128) << 104);
    let mut s = [0u8; 16];
    s.copy_from_slice(&key[16..32]);
    v.wrapping_add(u128::from_le_bytes(s)).to_le_bytes()
}
fn mac(key: &K, nonce: &[u8; 12], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let k = block(key, nonce, 0);
    let mut m = Vec::with_capacity(ct.len() + ad.len() + 48);
    for part in [ad, ct] {
        m.extend_from_slice(part);
        while m.len() % 16 != 0 {
            m.push(0);
        }
    }
    m.extend_from_slice(&(ad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&k[..32], &m)
}
pub fn nonce(n: u64) -> [u8; 12] {
    let mut o = [0u8; 12];
    o[4..].copy_from_slice(&n.to_le_bytes());
    o
}
fn seal_raw(key: &K, nonce: &[u8; 12], ad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut v = pt.to_vec();
    stream(key, nonce, &mut v);
    let t = mac(key, nonce, ad, &v);
    v.extend_from_slice(&t);
    v
}
pub fn seal(key: &K, n: u64, ad: &[u8], pt: &[u8]) -> Vec<u8> {
    seal_raw(key, &nonce(n), ad, pt)
}
pub fn open(key: &K, n: u64, ad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    if ct.len() < 16 {
        return None;
    }
    let (c, t) = ct.split_at(ct.len() - 16);
    if mac(key, &nonce(n), ad, c) != t {
        return None;
    }
    let mut v = c.to_vec();
    stream(key, &nonce(n), &mut v);
    Some(v)
}
pub fn rekey(k: &K) -> K {
    let v = seal(k, u64::MAX, &[], &[0; 32]);
    let mut o = [0; 32];
    o.copy_from_slice(&v[..32]);
    o
}

// ---------------------------------------------------------------- BLAKE2s, HMAC, HKDF
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
pub fn blake2s(data: &[u8]) -> K {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 32;
    let nblocks = data.len().div_ceil(64).max(1);
    for bi in 0..nblocks {
        let start = bi * 64;
        let end = (start + 64).min(data.len());
        let mut b = [0u8; 64];
        b[..end - start].copy_from_slice(&data[start..end]);
        let mut m = [0u32; 16];
        for i in 0..16 {
            m[i] = w32(&b[4 * i..]);
        }
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= end as u64 as u32;
        v[13] ^= (end as u64 >> 32) as u32;
        if bi + 1 == nblocks {
            v[14] = !v[14];
        }
        for s in SIGMA.iter() {
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(12);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(8);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(7);
            };
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
fn hmac(key: &[u8], data: &[u8]) -> K {
    let mut k = [0u8; 64];
    k[..key.len()].copy_from_slice(key);
    let i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    blake2s(&cat(&[&o, &blake2s(&cat(&[&i, data]))]))
}
fn hkdf2(ck: &K, ikm: &[u8]) -> (K, K) {
    let t = hmac(ck, ikm);
    let a = hmac(&t, &[1]);
    let b = hmac(&t, &cat(&[&a, &[2]]));
    (a, b)
}

// ---------------------------------------------------------------- X25519
fn clamp(k: &K) -> Scalar {
    let mut k = *k;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    Scalar::from_bits(k)
}
pub fn dh(sk: &K, pk: &K) -> K {
    (clamp(sk) * MontgomeryPoint(*pk)).0
}
pub fn public(sk: &K) -> K {
    (clamp(sk) * X25519_BASEPOINT).0
}

/// The encodings refused as public keys: the value, read as a 255-bit or as a 256-bit
/// little-endian number, is congruent mod p to the u-coordinate of a small-order point.
pub fn small_order_encodings() -> Vec<K> {
    let p = {
        let mut p = [0xffu8; 32];
        p[0] = 0xed;
        p[31] = 0x7f;
        p
    };
    let add = |a: &K, b: &K| -> Option<K> {
        let mut o = [0u8; 32];
        let mut c = 0u16;
        for i in 0..32 {
            c += a[i] as u16 + b[i] as u16;
            o[i] = c as u8;
            c >>= 8;
        }
        if c == 0 { Some(o) } else { None }
    };
    let x1: K = hexk("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800");
    let x2: K = hexk("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157");
    let mut one = [0u8; 32];
    one[0] = 1;
    let mut pm1 = p;
    pm1[0] -= 1;
    let mut out = vec![];
    for base in [[0u8; 32], one, x1, x2, pm1] {
        let mut v = Some(base);
        while let Some(x) = v {
            out.push(x);
            v = add(&x, &p);
        }
    }
    // 255-bit reading: every encoding below 2^255, with the top bit set
    for x in out.clone() {
        if x[31] & 0x80 == 0 {
            let mut y = x;
            y[31] |= 0x80;
            out.push(y);
        }
    }
    out.sort();
    out.dedup();
    out
}
pub fn hexk(s: &str) -> K {
    let v = unhex(s);
    let mut o = [0; 32];
    o.copy_from_slice(&v);
    o
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// ---------------------------------------------------------------- the NX handshake
#[derive(Clone)]
pub struct Cipher {
    pub k: Option<K>,
    pub n: u64,
}
impl Cipher {
    pub fn enc(&mut self, pt: &[u8]) -> Option<Vec<u8>> {
        let k = self.k?;
        if self.n == u64::MAX {
            return None;
        }
        let c = seal(&k, self.n, &[], pt);
        self.n += 1;
        Some(c)
    }
    pub fn dec(&mut self, ct: &[u8]) -> Option<Vec<u8>> {
        let k = self.k?;
        if self.n == u64::MAX {
            return None;
        }
        let p = open(&k, self.n, &[], ct)?;
        self.n += 1;
        Some(p)
    }
    pub fn rekey(&mut self) {
        self.k = self.k.map(|k| rekey(&k));
    }
}

#[derive(Clone)]
pub struct Ref {
    pub initiator: bool,
    pub h: K,
    ck: K,
    k: K,
    n: u64,
    s: K,
    e: K,
    re: K,
    pub rs: K,
    /// number of handshake messages processed
    pub step: u32,
    pub c1: Cipher,
    pub c2: Cipher,
    /// every secret value the handshake went through
    pub secrets: Vec<(&'static str, K)>,
}
impl Ref {
    pub fn new(initiator: bool, prologue: &[u8], s: K, e: K) -> Ref {
        let h = blake2s(b"Noise_NX_25519_ChaChaPoly_BLAKE2s");
        let none = Cipher { k: None, n: 0 };
        let mut r = Ref { initiator, h, ck: h, k: [0; 32], n: 0, s, e, re: [0; 32], rs: [0; 32], step: 0, c1: none.clone(), c2: none, secrets: vec![] };
        r.mix_hash(prologue);
        r
    }
    fn mix_hash(&mut self, d: &[u8]) {
        self.h = blake2s(&cat(&[&self.h, d]));
    }
    fn mix_key(&mut self, ikm: &K) {
        let (ck, k) = hkdf2(&self.ck, ikm);
        self.ck = ck;
        self.k = k;
        self.n = 0;
        self.secrets.push(("the Diffie-Hellman result", *ikm));
        self.secrets.push(("the chaining key", ck));
        self.secrets.push(("the handshake cipher key", k));
    }
    fn enc_hash(&mut self, pt: &[u8]) -> Vec<u8> {
        let c = seal(&self.k, self.n, &self.h, pt);
        self.n += 1;
        self.mix_hash(&c);
        c
    }
    fn dec_hash(&mut self, ct: &[u8]) -> Option<Vec<u8>> {
        let p = open(&self.k, self.n, &self.h, ct)?;
        self.n += 1;
        self.mix_hash(ct);
        Some(p)
    }
    fn split(&mut self) {
        let (a, b) = hkdf2(&self.ck, &[]);
        self.c1 = Cipher { k: Some(a), n: 0 };
        self.c2 = Cipher { k: Some(b), n: 0 };
    }
    pub fn established(&self) -> bool {
        self.c1.k.is_some()
    }
    pub fn write_a(&mut self, payload: &[u8]) -> Vec<u8> {
        let e = public(&self.e);
        self.mix_hash(&e);
        self.mix_hash(payload);
        self.step = 1;
        cat(&[&e, payload])
    }
    pub fn read_a(&mut self, m: &[u8]) -> Option<Vec<u8>> {
        if m.len() < 32 {
            return None;
        }
        self.re.copy_from_slice(&m[..32]);
        let re = self.re;
        self.mix_hash(&re);
        self.mix_hash(&m[32..]);
        self.step = 1;
        Some(m[32..].to_vec())
    }
    pub fn write_b(&mut self, payload: &[u8]) -> Vec<u8> {
        let s = public(&self.s);
        self.write_b_with(&s, payload)
    }
    /// Message B announcing `spub` (used by malicious responders).
    pub fn write_b_with(&mut self, spub: &[u8], payload: &[u8]) -> Vec<u8> {
        let e = public(&self.e);
        self.mix_hash(&e);
        let ee = dh(&self.e, &self.re);
        self.mix_key(&ee);
        let c = self.enc_hash(spub);
        let es = dh(&self.s, &self.re);
        self.mix_key(&es);
        let p = self.enc_hash(payload);
        self.split();
        self.step = 2;
        cat(&[&e, &c, &p])
    }
    /// Message B with every secret and key chosen freely; es None means the real one.
    pub fn write_b_raw(&mut self, epub: &K, ee: &K, spub: &K, es: Option<&K>, payload: &[u8]) -> Vec<u8> {
        self.mix_hash(epub);
        self.mix_key(ee);
        let c = self.enc_hash(spub);
        let es = es.copied().unwrap_or_else(|| dh(&self.s, &self.re));
        self.mix_key(&es);
        let p = self.enc_hash(payload);
        self.split();
        self.step = 2;
        cat(&[epub, &c, &p])
    }
    /// Message B that leaves out the secret of the static key.
    pub fn write_b_skip(&mut self, spub: &[u8], restart: bool, payload: &[u8]) -> Vec<u8> {
        let e = public(&self.e);
        self.mix_hash(&e);
        let ee = dh(&self.e, &self.re);
        self.mix_key(&ee);
        let c = self.enc_hash(spub);
        if restart {
            self.n = 0;
        }
        let p = self.enc_hash(payload);
        self.split();
        self.step = 2;
        cat(&[&e, &c, &p])
    }
    /// A reply that is refused part of the way: cut in the static key (0), with a damaged static
    /// key (1) or a damaged payload (2). Follows a reader that keeps what it mixed in so far.
    pub fn write_b_refused(&mut self, how: usize, payload: &[u8]) -> Vec<u8> {
        let e = public(&self.e);
        self.mix_hash(&e);
        let ee = dh(&self.e, &self.re);
        self.mix_key(&ee);
        let spub = public(&self.s);
        if how < 2 {
            let mut c = seal(&self.k, self.n, &self.h, &spub);
            if how == 0 {
                c.truncate(20);
                return cat(&[&e, &c]);
            }
            c[40] ^= 1;
            return cat(&[&e, &c, &vec![7; payload.len() + 16]]);
        }
        let c = self.enc_hash(&spub);
        let es = dh(&self.s, &self.re);
        self.mix_key(&es);
        let mut p = seal(&self.k, self.n, &self.h, payload);
        let l = p.len();
        p[l - 1] ^= 1;
        cat(&[&e, &c, &p])
    }
    /// Message B cut after the encrypted static key (no payload token at all).
    pub fn write_b_no_payload(&mut self, spub: &[u8]) -> Vec<u8> {
        let e = public(&self.e);
        self.mix_hash(&e);
        let ee = dh(&self.e, &self.re);
        self.mix_key(&ee);
        let c = self.enc_hash(spub);
        cat(&[&e, &c])
    }
    pub fn read_b(&mut self, m: &[u8]) -> Option<Vec<u8>> {
        if m.len() < 96 {
            return None;
        }
        self.re.copy_from_slice(&m[..32]);
        let re = self.re;
        self.mix_hash(&re);
        let ee = dh(&self.e, &re);
        self.mix_key(&ee);
        let s = self.dec_hash(&m[32..80])?;
        self.rs.copy_from_slice(&s);
        let es = dh(&self.e, &self.rs.clone());
        self.mix_key(&es);
        let p = self.dec_hash(&m[80..])?;
        self.split();
        self.step = 2;
        Some(p)
    }
    pub fn send(&mut self, pt: &[u8]) -> Option<Vec<u8>> {
        if self.initiator { self.c1.enc(pt) } else { self.c2.enc(pt) }
    }
    pub fn recv(&mut self, ct: &[u8]) -> Option<Vec<u8>> {
        if self.initiator { self.c2.dec(ct) } else { self.c1.dec(ct) }
    }
}

/// Published vectors, so that a wrong reference is noticed before it judges anything.
pub fn selftest() {
    // RFC 7693 appendix B
    assert_eq!(blake2s(b"abc").to_vec(), unhex("508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982"));
    assert_eq!(blake2s(b"").to_vec(), unhex("69217a3079908094e11121d042354a7c1f55b6482ca1a51e1b250dfd1ed0eef9"));
    // RFC 7539 2.8.2
    let key: K = {
        let mut k = [0; 32];
        for i in 0..32 {
            k[i] = 0x80 + i as u8;
        }
        k
    };
    let mut n = [0u8; 12];
    n.copy_from_slice(&unhex("070000004041424344454647"));
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let c = seal_raw(&key, &n, &unhex("50515253c0c1c2c3c4c5c6c7"), pt);
    assert_eq!(c[..16].to_vec(), unhex("d31a8d34648e60db7b86afbc53ef7ec2"));
    assert_eq!(c[c.len() - 16..].to_vec(), unhex("1ae10b594f09e26a7e902ecbd0600691"));
    // RFC 7539 2.5.2
    assert_eq!(
        poly1305(&unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"), b"Cryptographic Forum Research Group").to_vec(),
        unhex("a8061dc1305136c6c22b8baf0c0127a9")
    );
    // RFC 7748 6.1
    let a = hexk("77076d0a7318a57d3c16c17251b26645df4e3a9e5e9b2c1e3d4f5a6b7c8d9e0f");
    let b = hexk("5dab087e624a8a4b79e17f8b83800ee66f3bb1292618b6fd1c2f8b27ff88e0eb");
    assert_eq!(dh(&a, &public(&b)), dh(&b, &public(&a)));
    assert_eq!(public(&b).to_vec(), unhex("de9edb7d7b7dc1b4d35b61c2ece435373f8343c85b78674dadfc7e146f882b4f"));
    assert_eq!(
        dh(&hexk("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), &hexk("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")).to_vec(),
        unhex("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
    );
    assert_eq!(small_order_encodings().len(), 19);
    for k in small_order_encodings() {
        // each listed encoding gives a zero secret under the 255-bit reading, or is one
        // of the five whose 256-bit reading is small order
        let z = dh(&b, &k) == [0; 32];
        let mut m = k;
        m[31] &= 0x7f;
        assert!(z || m != k);
    }
    // the two roles of the reference agree
    let mut i = Ref::new(true, b"p", a, b);
    let mut r = Ref::new(false, b"p", hexk("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), a);
    let m = i.write_a(b"hello");
    assert_eq!(r.read_a(&m).unwrap(), b"hello");
    let m = r.write_b(b"world");
    assert_eq!(i.read_b(&m).unwrap(), b"world");
    assert!(i.h == r.h && i.c1.k == r.c1.k && i.c2.k == r.c2.k);
    let m = i.send(b"x").unwrap();
    assert_eq!(r.recv(&m).unwrap(), b"x");
}
