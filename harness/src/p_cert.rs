//! C26-C28: certificates and timestamps.
use crate::clock;
use crate::engine::*;
use crate::{ensure, fail};
use ed25519_dalek::{Keypair as AuthKeys, PublicKey as AuthPub, SecretKey, Signature, Signer, Verifier};
use noiseexplorer_nx::types::{Keypair, PrivateKey, PublicKey};
use std::convert::TryFrom;
use std::time::{Duration, SystemTime};
use stratumv2::codec::{deserialize, serialize};
use stratumv2::network::NoiseConfig;
use stratumv2::noise::{new_noise_initiator, new_noise_responder, CertificateFormat, SignatureNoiseMessage, SignedCertificate};
use stratumv2::types::unix_timestamp::{system_unix_time_to_u32, unix_u32_now};

/// Base58 (bitcoin alphabet), written here so that the check does not use the library's.
pub fn base58(b: &[u8]) -> String {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut d: Vec<u32> = vec![];
    for x in b {
        let mut c = *x as u32;
        for y in d.iter_mut() {
            c += *y << 8;
            *y = c % 58;
            c /= 58;
        }
        while c > 0 {
            d.push(c % 58);
            c /= 58;
        }
    }
    let mut s: String = b.iter().take_while(|x| **x == 0).map(|_| '1').collect();
    s.extend(d.iter().rev().map(|x| A[*x as usize] as char));
    s
}
pub fn auth(seed: &[u8; 32]) -> AuthKeys {
    let secret = SecretKey::from_bytes(seed).unwrap();
    let public = AuthPub::from(&secret);
    AuthKeys { secret, public }
}
pub fn gen_auth(c: &mut Case) -> AuthKeys {
    let seed = c.s.key32();
    if c.s.one_in(40) {
        // a public key whose first byte is zero (leading '1' in base58)
        let mut s = seed;
        for i in 0..4000u32 {
            s[..4].copy_from_slice(&i.to_le_bytes());
            let k = auth(&s);
            if k.public.to_bytes()[0] == 0 {
                return k;
            }
        }
    }
    auth(&seed)
}
pub fn static_key(k: [u8; 32]) -> Keypair {
    Keypair::from_private_key(PrivateKey::from_bytes(k)).unwrap_or_else(|_| Keypair::default())
}
/// Any static public key: usually that of a pair, sometimes any accepted 32 bytes or one that
/// shares bytes with the authority's key.
fn gen_static_pub(c: &mut Case, a: &AuthKeys) -> PublicKey {
    let own = static_key(c.s.key32()).get_public_key();
    let k = match c.s.below(8) {
        0 => c.s.arr32(),
        1 => c.s.key32(),
        2 => a.public.to_bytes(),
        3 => {
            let n = c.s.below(33);
            let mut k = own.as_bytes();
            k[..n].copy_from_slice(&a.public.to_bytes()[..n]);
            k
        }
        4 => {
            let mut k = own.as_bytes();
            k[31] |= 0x80;
            k
        }
        _ => return own,
    };
    PublicKey::from_bytes(k).unwrap_or(own)
}
pub fn signed_bytes(version: u16, from: u32, to: u32, key: &[u8; 32]) -> Vec<u8> {
    let mut v = version.to_le_bytes().to_vec();
    v.extend_from_slice(&from.to_le_bytes());
    v.extend_from_slice(&to.to_le_bytes());
    v.extend_from_slice(key);
    v
}
/// A time around the interval (or anywhere).
fn gen_now(c: &mut Case, from: u32, to: u32) -> u32 {
    let (f, t) = (from as u64, to as u64);
    c.s.draw(0, u32::MAX as u64, |r| match r.next() % 8 {
        0 => f,
        1 => f.saturating_sub(1),
        2 => f + 1,
        3 => t,
        4 => t.saturating_sub(1),
        5 => t + 1,
        6 if f < t => r.range(f, t),
        _ => biased(r, 0, u32::MAX as u64),
    }) as u32
}
pub fn gen_interval(c: &mut Case) -> (u32, u32) {
    let f = c.s.int(0, u32::MAX as u64) as u32;
    let t = match c.s.weighted(&[5, 1, 1, 1]) {
        0 => (f as u64 + 1 + c.s.int(0, u32::MAX as u64)).min(u32::MAX as u64) as u32,
        1 => f,
        2 => f.saturating_sub(1),
        _ => c.s.int(0, u32::MAX as u64) as u32,
    };
    (f, t)
}
/// A time inside the interval, if there is one.
pub fn inside(c: &mut Case, from: u32, to: u32) -> Option<u32> {
    if from < to { Some(c.s.draw(from as u64, to as u64 - 1, |r| biased(r, from as u64, to as u64 - 1)) as u32) } else { None }
}
pub fn verify_at(now: i64, nanos: i64, key: &str, sk: &PublicKey, m: &SignatureNoiseMessage) -> Result<(), String> {
    let f = CertificateFormat::new(key, sk, m).map_err(|e| format!("new: {}", e))?;
    clock::at(now, nanos, || f.verify()).map_err(|e| format!("verify: {}", e))
}

// ---------------------------------------------------------------- C26
struct Cert {
    auth: AuthKeys,
    sk: PublicKey,
    m: SignatureNoiseMessage,
}
fn gen_cert(c: &mut Case, from: u32, to: u32) -> Cert {
    let a = gen_auth(c);
    let sk = gen_static_pub(c, &a);
    let version = c.s.int(0, 0xffff) as u16;
    let sig = a.sign(&signed_bytes(version, from, to, &sk.as_bytes()));
    Cert { auth: a, sk, m: SignatureNoiseMessage { version, valid_from: from, not_valid_after: to, signature: sig } }
}
fn c26_times(c: &mut Case) -> Res {
    let (from, to) = gen_interval(c);
    let x = gen_cert(c, from, to);
    let now = gen_now(c, from, to);
    let nanos = c.s.int(0, 999_999_999) as i64;
    c.show(|| format!("version {} from {} to {} checked at {}.{:09}", x.m.version, from, to, now, nanos));
    c.nontrivial = from < to;
    let want = from <= now && now < to;
    c.hit(if want { "valid" } else if now < from { "not yet valid" } else { "expired" });
    let got = verify_at(now as i64, nanos, &base58(&x.auth.public.to_bytes()), &x.sk, &x.m);
    ensure!(got.is_ok() == want, "from {} to {} at {}.{:09}: {:?}", from, to, now, nanos, got);
    Ok(())
}
/// Times that no 32-bit timestamp represents never verify.
fn c26_clock(c: &mut Case) -> Res {
    let (from, to) = gen_interval(c);
    let x = gen_cert(c, from, to);
    let off = c.s.int(0, 1 << 40) as i64;
    let inner = inside(c, from, to).unwrap_or(0) as i64;
    let now = match c.s.below(4) {
        0 => (1i64 << 32) + off,
        1 => (1i64 << 32) + inner,
        2 => -1 - off,
        _ => (1i64 << 32) * (1 + c.s.below(100) as i64) + inner,
    };
    c.show(|| format!("from {} to {} checked at {}", from, to, now));
    c.nontrivial = from < to;
    let got = verify_at(now, 0, &base58(&x.auth.public.to_bytes()), &x.sk, &x.m);
    ensure!(got.is_err(), "from {} to {} verifies at {} s", from, to, now);
    Ok(())
}
fn c26_changes(c: &mut Case) -> Res {
    let (from, to) = gen_interval(c);
    let now = match inside(c, from, to) {
        Some(n) => n,
        None => return Err(Stop::Discard("empty interval")),
    };
    let x = gen_cert(c, from, to);
    let key = base58(&x.auth.public.to_bytes());
    let sk = x.sk;
    ensure!(verify_at(now as i64, 0, &key, &sk, &x.m).is_ok(), "the unchanged certificate does not verify: version {} from {} to {} at {}: {:?}", x.m.version, from, to, now, verify_at(now as i64, 0, &key, &sk, &x.m));
    c.nontrivial = true;
    let mut m = x.m.clone();
    let mut key2 = key.clone();
    let mut sk2 = sk;
    let what = match c.s.below(13) {
        11 | 12 => {
            // signatures put together from what an attacker knows
            let mut b = m.signature.to_bytes();
            let parts: Vec<[u8; 32]> = vec![x.auth.public.to_bytes(), sk.as_bytes(), [0; 32], {
                let mut o = [0; 32];
                o[0] = 1;
                o
            }, [0xff; 32], {
                let mut o = [0; 32];
                o.copy_from_slice(&b[..32]);
                o
            }, {
                let mut o = [0; 32];
                o.copy_from_slice(&b[32..]);
                o
            }, auth(&c.s.key32()).public.to_bytes(), {
                let mut o = [0; 32];
                o[..10].copy_from_slice(&signed_bytes(m.version, from, to, &sk.as_bytes())[..10]);
                o
            }];
            let (i, j) = (c.s.below(parts.len()), c.s.below(parts.len()));
            if c.s.coin() {
                b[..32].copy_from_slice(&parts[i]);
            }
            if c.s.coin() {
                b[32..].copy_from_slice(&parts[j]);
                b[63] &= 0x1f;
            }
            if b == m.signature.to_bytes() {
                return Err(Stop::Discard("no change"));
            }
            match Signature::try_from(&b[..]) {
                Ok(s) => m.signature = s,
                Err(_) => return Err(Stop::Discard("not a signature")),
            }
            "signature (composed)"
        }
        0 => {
            m.version ^= 1 << c.s.below(16);
            "version"
        }
        1 => {
            // another start that still covers now
            let f = c.s.draw(0, now as u64, |r| biased(r, 0, now as u64)) as u32;
            if f == m.valid_from {
                return Err(Stop::Discard("no change"));
            }
            m.valid_from = f;
            "start"
        }
        2 => {
            if now == u32::MAX {
                return Err(Stop::Discard("no change"));
            }
            let t = c.s.draw(now as u64 + 1, u32::MAX as u64, |r| biased(r, now as u64 + 1, u32::MAX as u64)) as u32;
            if t == m.not_valid_after {
                return Err(Stop::Discard("no change"));
            }
            m.not_valid_after = t;
            "end"
        }
        3 | 4 | 5 => {
            let mut b = m.signature.to_bytes();
            let p = c.s.below(512);
            b[p / 8] ^= 1 << (p % 8);
            match Signature::try_from(&b[..]) {
                Ok(s) => m.signature = s,
                Err(_) => {
                    // not even a signature: the message that carries it must be refused
                    let mut w = serialize(&x.m).map_err(|_| Stop::Discard("encoding failed"))?;
                    let at = w.len() - 64;
                    w[at..].copy_from_slice(&b);
                    ensure!(deserialize::<SignatureNoiseMessage>(&w).is_err(), "a malformed signature was decoded");
                    c.hit("malformed signature");
                    return Ok(());
                }
            }
            "signature bit"
        }
        6 => {
            // another authority's signature over the same bytes
            let o = auth(&c.s.key32());
            m.signature = o.sign(&signed_bytes(m.version, from, to, &sk.as_bytes()));
            "signer"
        }
        7 => {
            let o = auth(&c.s.key32());
            key2 = base58(&o.public.to_bytes());
            "authority key"
        }
        8 => {
            let mut k = sk.as_bytes();
            let p = c.s.below(256);
            k[p / 8] ^= 1 << (p % 8);
            match PublicKey::from_bytes(k) {
                Ok(k) => sk2 = k,
                Err(_) => return Err(Stop::Discard("no change")),
            }
            "static key bit"
        }
        9 => {
            sk2 = gen_static_pub(c, &x.auth);
            if sk2.as_bytes() == sk.as_bytes() {
                return Err(Stop::Discard("no change"));
            }
            "static key"
        }
        _ => {
            // the same authority signed something else
            let mut b = signed_bytes(m.version, from, to, &sk.as_bytes());
            match c.s.below(5) {
                0 => b.truncate(10),
                1 => b.drain(..2).for_each(|_| ()),
                2 => b.push(0),
                3 => b[2..10].rotate_left(4),
                _ => {
                    let p = c.s.below(b.len() * 8);
                    b[p / 8] ^= 1 << (p % 8);
                }
            }
            if b == signed_bytes(m.version, from, to, &sk.as_bytes()) {
                return Err(Stop::Discard("no change"));
            }
            m.signature = x.auth.sign(&b);
            "signed content"
        }
    };
    c.hit(what);
    c.show(|| format!("{} changed in certificate from {} to {} at {}", what, from, to, now));
    let got = verify_at(now as i64, 0, &key2, &sk2, &m);
    ensure!(got.is_err(), "the certificate verifies with its {} changed", what);
    // and the original still verifies
    ensure!(verify_at(now as i64, 0, &key, &sk, &x.m).is_ok(), "the unchanged certificate no longer verifies");
    Ok(())
}
/// Every bit of signature, fields, static key and authority key of one certificate.
fn c26_bits(c: &mut Case) -> Res {
    let n = c.s.uni(0, 80 + 512 + 256 + 256 - 1) as usize;
    let a = auth(&[7; 32]);
    let sk = static_key([8; 32]).get_public_key();
    let (v, from, to, now) = (0x1234u16, 0, u32::MAX, 0x7000_0000i64);
    let m0 = SignatureNoiseMessage { version: v, valid_from: from, not_valid_after: to, signature: a.sign(&signed_bytes(v, from, to, &sk.as_bytes())) };
    let key = base58(&a.public.to_bytes());
    ensure!(verify_at(now, 0, &key, &sk, &m0).is_ok(), "the unchanged certificate does not verify");
    c.nontrivial = true;
    let got = if n < 80 {
        let mut m = m0.clone();
        match n {
            0..=15 => m.version ^= 1 << n,
            16..=47 => m.valid_from ^= 1 << (n - 16),
            _ => m.not_valid_after ^= 1 << (n - 48),
        }
        verify_at(now, 0, &key, &sk, &m)
    } else if n < 80 + 512 {
        let mut m = m0.clone();
        let mut b = m.signature.to_bytes();
        b[(n - 80) / 8] ^= 1 << ((n - 80) % 8);
        match Signature::try_from(&b[..]) {
            Ok(s) => m.signature = s,
            Err(_) => return Ok(()),
        }
        verify_at(now, 0, &key, &sk, &m)
    } else if n < 80 + 512 + 256 {
        let mut k = sk.as_bytes();
        let p = n - 592;
        k[p / 8] ^= 1 << (p % 8);
        match PublicKey::from_bytes(k) {
            Ok(k) => verify_at(now, 0, &key, &k, &m0),
            Err(_) => return Ok(()),
        }
    } else {
        let mut k = a.public.to_bytes();
        let p = n - 848;
        k[p / 8] ^= 1 << (p % 8);
        verify_at(now, 0, &base58(&k), &sk, &m0)
    };
    ensure!(got.is_err(), "the certificate verifies with bit {} changed", n);
    Ok(())
}
/// The signature is malleable only if s is accepted modulo the group order.
fn c26_malleable(c: &mut Case) -> Res {
    let x = gen_cert(c, 5, 1000);
    const L: [u8; 32] = [0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10];
    let mut b = x.m.signature.to_bytes();
    let mut carry = 0u16;
    for i in 0..32 {
        carry += b[32 + i] as u16 + L[i] as u16;
        b[32 + i] = carry as u8;
        carry >>= 8;
    }
    c.nontrivial = true;
    c.show(|| format!("s + order: {}", hex(&b[32..])));
    let mut m = x.m.clone();
    match Signature::try_from(&b[..]) {
        Ok(s) => m.signature = s,
        Err(_) => return Ok(()),
    }
    ensure!(verify_at(10, 0, &base58(&x.auth.public.to_bytes()), &x.sk, &m).is_err(), "a second form of the signature verifies");
    Ok(())
}
fn c26_authority(c: &mut Case) -> Res {
    let x = gen_cert(c, 5, 1000);
    let pk = x.auth.public.to_bytes();
    let sk = x.sk;
    c.nontrivial = true;
    let good = base58(&pk);
    let text = match c.s.below(8) {
        0 => {
            let n = 1 + c.s.below(31);
            base58(&pk[..32 - n])
        }
        1 => {
            let mut b = pk.to_vec();
            let n = 1 + c.s.len(40);
            b.extend(c.s.bytes(n));
            base58(&b)
        }
        2 => {
            let mut b = vec![0u8; 1 + c.s.below(3)];
            b.extend_from_slice(&pk);
            base58(&b)
        }
        3 => {
            // characters outside the alphabet
            let bad = *c.s.pick(&['0', 'O', 'I', 'l', '+', '/', ' ', '\n', 'é', '\u{0}', '-', '\u{1F600}']);
            let mut v: Vec<char> = good.chars().collect();
            let p = c.s.below(v.len() + 1);
            if c.s.coin() || p == v.len() { v.insert(p, bad) } else { v[p] = bad }
            v.into_iter().collect()
        }
        4 => {
            // 32 bytes that are no point of the curve
            let mut k = c.s.key32();
            while AuthPub::from_bytes(&k).is_ok() {
                k[0] = k[0].wrapping_add(1);
            }
            base58(&k)
        }
        5 => String::new(),
        6 => {
            let mut t = good.clone();
            t.push_str(c.s.pick(&["1", "2", "z", "11"]));
            t
        }
        _ => {
            let n = c.s.len(80);
            c.s.string(n)
        }
    };
    c.show(|| format!("authority key {:?}", text));
    // decode with our own table to know whether this happens to be a valid key
    ensure!(text != good, "harness: unchanged key");
    let r = CertificateFormat::new(&text, &sk, &x.m);
    if let Ok(f) = r {
        // only a different, well-formed 32-byte key may be accepted here
        ensure!(decode58(&text).map(|b| b.len() == 32 && AuthPub::from_bytes(&b).is_ok()).unwrap_or(false), "malformed authority key {:?} accepted", text);
        ensure!(clock::at(10, 0, || f.verify()).is_err(), "the certificate verifies under authority key {:?}", text);
        c.hit("another well-formed key");
    }
    // the exact key is accepted
    ensure!(verify_at(10, 0, &good, &sk, &x.m).is_ok(), "authority key {:?} refused: {:?}", good, verify_at(10, 0, &good, &sk, &x.m));
    Ok(())
}
fn decode58(t: &str) -> Option<Vec<u8>> {
    const A: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut v: Vec<u32> = vec![];
    for ch in t.chars() {
        let mut c = A.find(ch)? as u32;
        for y in v.iter_mut() {
            c += *y * 58;
            *y = c & 255;
            c >>= 8;
        }
        while c > 0 {
            v.push(c & 255);
            c >>= 8;
        }
    }
    let mut o: Vec<u8> = t.chars().take_while(|c| *c == '1').map(|_| 0).collect();
    o.extend(v.iter().rev().map(|x| *x as u8));
    Some(o)
}

// ---------------------------------------------------------------- C27
fn issue(c: &mut Case) -> Res {
    let (from, to) = gen_interval(c);
    let version = c.s.int(0, 0xffff) as u16;
    let a = gen_auth(c);
    let sk = static_key(c.s.key32());
    let session = c.s.one_in(3);
    let pk = if session { sk.get_public_key() } else { gen_static_pub(c, &a) };
    c.show(|| format!("version {} from {} to {}", version, from, to));
    let cert = match SignedCertificate::new(version, from, to, &pk) {
        Ok(x) => {
            ensure!(from < to, "a certificate from {} to {} was created", from, to);
            x
        }
        Err(e) => {
            ensure!(from >= to, "a certificate from {} to {} was refused: {}", from, to, e);
            c.hit("refused");
            return Ok(());
        }
    };
    c.nontrivial = true;
    ensure!(cert.version == version && cert.valid_from == from && cert.not_valid_after == to && cert.public_key.as_bytes() == pk.as_bytes(), "the certificate holds other values");
    let want = signed_bytes(version, from, to, &pk.as_bytes());
    ensure!(serialize(&cert).ok() == Some(want.clone()), "the certificate is encoded differently");
    let m = match SignatureNoiseMessage::from_auth_key(&a, &cert) {
        Ok(m) => m,
        Err(e) => fail!("issuing failed: {}", e),
    };
    ensure!((m.version, m.valid_from, m.not_valid_after) == (version, from, to), "issued message holds {} {} {}", m.version, m.valid_from, m.not_valid_after);
    ensure!(a.public.verify(&want, &m.signature).is_ok(), "the issued signature does not cover version, interval and key");
    if c.s.one_in(4) {
        // the same certificate from another authority
        let b = gen_auth(c);
        if let Ok(o) = SignatureNoiseMessage::from_auth_key(&b, &cert) {
            ensure!(b.public.verify(&want, &o.signature).is_ok(), "the signature of a second authority does not cover version, interval and key");
        }
    }
    let m2 = SignatureNoiseMessage::new(&cert, m.signature);
    ensure!(m2 == m, "SignatureNoiseMessage::new gives {:?} instead of {:?}", m2, m);
    let w = match serialize(&m) {
        Ok(w) => w,
        Err(e) => fail!("encoding failed: {}", e),
    };
    let mut wire = want[..10].to_vec();
    wire.extend_from_slice(&m.signature.to_bytes());
    ensure!(w == wire, "issued message encoded as {}", hex(&w));
    match deserialize::<SignatureNoiseMessage>(&w) {
        Ok(d) => ensure!(d == m, "decoded as {:?}", d),
        Err(e) => fail!("issued message does not decode: {}", e),
    }
    let cfg = NoiseConfig::new(m.clone(), sk.clone());
    ensure!(cfg.sig_noise_msg == m && cfg.static_key.get_public_key().as_bytes() == sk.get_public_key().as_bytes(), "the configuration holds other values");
    // through an established session
    if session {
        let mut i = new_noise_initiator();
        let mut r = new_noise_responder(Some(cfg.static_key.clone()));
        let mut b = [0u8; 256];
        if i.send_message(&mut b).is_err() || r.recv_message(&mut b).is_err() || r.send_message(&mut b).is_err() || i.recv_message(&mut b).is_err() {
            return Err(Stop::Discard("handshake failed"));
        }
        let extra = c.s.len(300);
        let mut b = vec![0u8; w.len() + 16 + extra];
        b[..w.len()].copy_from_slice(&w);
        if r.send_message(&mut b).is_err() || i.recv_message(&mut b).is_err() {
            return Err(Stop::Discard("transport failed"));
        }
        let d = match deserialize::<SignatureNoiseMessage>(&b) {
            Ok(d) => d,
            Err(e) => fail!("the message sent does not decode: {}", e),
        };
        ensure!(d == m, "arrived as {:?}", d);
        let remote = match i.get_remote_static_public_key() {
            Some(k) => k,
            None => fail!("no remote key"),
        };
        let now = inside(c, from, to).unwrap_or(from);
        let r = verify_at(now as i64, 0, &base58(&a.public.to_bytes()), &remote, &d);
        ensure!(r.is_ok(), "the certificate received does not verify for the remote key at {}: {:?}", now, r);
        c.hit("through a session");
    }
    Ok(())
}
fn c27_interval(c: &mut Case) -> Res {
    let f = c.s.int(0, u32::MAX as u64) as u32;
    let t = c.s.draw(0, u32::MAX as u64, |r| match r.next() % 3 {
        0 => (f as u64 + r.next() % 5).saturating_sub(2),
        _ => biased(r, 0, u32::MAX as u64),
    }) as u32;
    let v = c.s.int(0, 0xffff) as u16;
    let pk = static_key([9; 32]).get_public_key();
    c.show(|| format!("from {} to {}", f, t));
    c.nontrivial = true;
    let r = SignedCertificate::new(v, f, t, &pk).is_ok();
    ensure!(r == (f < t), "certificate version {} from {} to {} created: {}", v, f, t, r);
    Ok(())
}

// ---------------------------------------------------------------- C28
fn expect_ts(secs: i128, nanos: u32) -> Option<u32> {
    let _ = nanos;
    if (0..=u32::MAX as i128).contains(&secs) { Some(secs as u32) } else { None }
}
fn gen_secs(c: &mut Case) -> i64 {
    let top = (i64::MAX >> 4) as u64;
    let neg = c.s.one_in(3);
    let v = c.s.draw(0, top, |r| match r.next() % 7 {
        0 => r.range(0, 5),
        1 => (1u64 << 32) - 3 + r.next() % 6,
        2 => r.range(0, u32::MAX as u64),
        3 => (1u64 << 32) * (r.next() % 1000) + r.next() % 4,
        // where a count of milli-, micro- or nanoseconds outgrows a common width
        4 => {
            let b = [31u32, 32, 53, 63, 64][(r.next() % 5) as usize];
            let u = [1u128, 1_000, 1_000_000, 1_000_000_000][(r.next() % 4) as usize];
            ((((r.next() % 4 + 1) as u128) << b) / u) as u64 + r.next() % 5
        }
        _ => biased(r, 0, top),
    }) as i64;
    if neg { -v } else { v }
}
fn c28_convert(c: &mut Case) -> Res {
    let s = gen_secs(c);
    let n = c.s.int(0, 999_999_999) as u32;
    // the time is s seconds (rounded down) plus n nanoseconds
    let t = if s >= 0 {
        SystemTime::UNIX_EPOCH.checked_add(Duration::new(s as u64, n))
    } else {
        SystemTime::UNIX_EPOCH.checked_sub(Duration::new(-s as u64, 0)).and_then(|t| t.checked_add(Duration::new(0, n)))
    };
    let t = match t {
        Some(t) => t,
        None => return Err(Stop::Discard("not a system time")),
    };
    c.show(|| format!("{} s + {} ns", s, n));
    c.nontrivial = true;
    let want = expect_ts(s as i128, n);
    c.hit(if want.is_some() { "representable" } else { "out of range" });
    let got = system_unix_time_to_u32(&t);
    match (want, got) {
        (Some(w), Ok(g)) => ensure!(w == g, "{} s + {} ns became {}", s, n, g),
        (None, Err(_)) => {}
        (w, g) => fail!("{} s + {} ns: {:?} instead of {:?}", s, n, g.map_err(|e| e.to_string()), w),
    }
    Ok(())
}
fn c28_now(c: &mut Case) -> Res {
    let s = gen_secs(c);
    let n = c.s.int(0, 999_999_999) as i64;
    c.show(|| format!("clock at {} s + {} ns", s, n));
    c.nontrivial = true;
    let want = expect_ts(s as i128, 0);
    let got = clock::at(s, n, unix_u32_now);
    match (want, got) {
        (Some(w), Ok(g)) => ensure!(w == g, "clock at {} s + {} ns: {}", s, n, g),
        (None, Err(_)) => {}
        (w, g) => fail!("clock at {} s + {} ns: {:?} instead of {:?}", s, n, g.map_err(|e| e.to_string()), w),
    }
    Ok(())
}
/// The clock moves between calls, also backwards; each reading is current.
fn c28_follow(c: &mut Case) -> Res {
    let n = 2 + c.s.below(10);
    c.nontrivial = true;
    let mut trace = vec![];
    for _ in 0..n {
        let s = gen_secs(c).unsigned_abs().min(u32::MAX as u64);
        trace.push(s);
        let g = clock::at(s as i64, 0, unix_u32_now);
        ensure!(g.as_ref().ok() == Some(&(s as u32)), "clock readings {:?}: {:?}", trace, g.map_err(|e| e.to_string()));
    }
    c.show(|| format!("{:?}", trace));
    Ok(())
}
/// The real clock.
fn c28_real(c: &mut Case) -> Res {
    let _ = c.s.uni(0, 9);
    c.nontrivial = true;
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let mut read = || unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_REALTIME as libc::c_long, &mut ts as *mut libc::timespec);
        ts.tv_sec
    };
    let a = read();
    let g = unix_u32_now();
    let b = read();
    match g {
        Ok(g) => ensure!(a <= b && (a..=b).contains(&(g as i64)) || a > b, "the clock is between {} and {}, reported {}", a, b, g),
        Err(e) => ensure!(!(0..=u32::MAX as i64).contains(&a), "no timestamp at {}: {}", a, e),
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "cases: certificates with generated authority, static key, version and interval, signed by an independent encoder, checked at generated times (interval ends and their neighbours favoured) and at times outside 32 bits; one change to any field, signature, key or signed content; every single bit of one certificate; malformed authority keys. Non-trivial: the interval is not empty.",
            assumptions: &["ed25519-dalek verifies signatures correctly", "the wall clock is read through clock_gettime, which the harness replaces"],
            subs: vec![
                all("every-bit", 80 + 512 + 256 + 256, c26_bits),
                sub("times", 40_000, 800_000, c26_times),
                sub("changes", 40_000, 800_000, c26_changes),
                sub("clock-range", 10_000, 150_000, c26_clock),
                sub("malleability", 2_000, 20_000, c26_malleable),
                sub("authority-text", 30_000, 500_000, c26_authority),
            ],
        },
        Prop {
            id: "C27",
            rule: "cases: generated authority, static key, version and interval (ordered, equal, reversed); the issued message is checked field by field, verified over independently encoded bytes and, in a third of the cases, sent through a session. Non-trivial: the certificate could be created.",
            assumptions: &["ed25519-dalek signs and verifies correctly"],
            subs: vec![sub("issue", 40_000, 800_000, issue), sub("intervals", 300_000, 6_000_000, c27_interval)],
        },
        Prop {
            id: "C28",
            rule: "cases: system times from about -2^59 to 2^59 seconds (epoch, 2^32 and its multiples favoured) with any nanoseconds; the current timestamp under a replaced and under the real clock. Every case is non-trivial.",
            assumptions: &["the wall clock is read through clock_gettime, which the harness replaces"],
            subs: vec![sub("convert", 400_000, 10_000_000, c28_convert), sub("now", 200_000, 5_000_000, c28_now), sub("follow", 20_000, 200_000, c28_follow), all("real-clock", 10, c28_real)],
        },
    ]
}
