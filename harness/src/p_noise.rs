//! C16-C25, C30: the Noise sessions and their keys.
use crate::engine::*;
use crate::noise_ref::{self as nr, Ref, K};
use crate::{ensure, fail};
use noiseexplorer_nx::error::NoiseError;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::collections::{HashMap, HashSet};
use std::str::FromStr;
use stratumv2::network::{new_channel_id, ConnectionEncryptor, Encryptor};
use stratumv2::noise::{generate_authority_keypair, new_noise_initiator, new_noise_responder, NoiseSession};

const MIN_A: usize = 32;
/// A first message with some payload.
const BIT_A: usize = 48;
const MIN_B: usize = 96;
const MAX: usize = 65535;

pub fn kp(k: &K) -> Keypair {
    Keypair::from_private_key(PrivateKey::from_bytes(*k)).unwrap_or_else(|_| Keypair::default())
}
/// A non-zero private key, mostly random, sometimes patterned.
pub fn gen_key(c: &mut Case) -> K {
    let k = if c.s.one_in(5) { c.s.arr32() } else { c.s.key32() };
    if k == [0; 32] { [1; 32] } else { k }
}
/// Four private keys: initiator static and ephemeral, responder static and ephemeral.
pub struct Keys {
    pub is: K,
    pub ie: K,
    pub rs: K,
    pub re: K,
}
fn gen_keys(c: &mut Case) -> Keys {
    let mut k = Keys { is: gen_key(c), ie: gen_key(c), rs: gen_key(c), re: gen_key(c) };
    if c.s.one_in(16) {
        // keys used twice
        match c.s.below(6) {
            0 => k.re = k.rs,
            1 => k.ie = k.is,
            2 => k.ie = k.rs,
            3 => k.re = k.is,
            4 => k.re = k.ie,
            _ => k.rs = k.is,
        }
    }
    k
}
pub fn rand_keys(c: &mut Case) -> Keys {
    let at = (c.s.tape().len() as u64).wrapping_mul(0xA24B_AED4_963E_E407);
    let mut r = Rng::new(c.s.uni(0, u64::MAX) ^ at);
    let mut k = || {
        let mut a = [0u8; 32];
        a.iter_mut().for_each(|x| *x = r.next() as u8);
        a
    };
    Keys { is: k(), ie: k(), rs: k(), re: k() }
}
pub fn gen_prologue(c: &mut Case) -> Vec<u8> {
    let n = match c.s.weighted(&[24, 23, 1]) {
        0 => 0,
        1 => c.s.len(400),
        _ => c.s.int(0, 100_000) as usize,
    };
    c.s.bytes(n)
}
pub fn session(init: bool, pro: &[u8], s: &K, e: Option<&K>) -> NoiseSession {
    let mut x = NoiseSession::init_session(init, pro, kp(s));
    if let Some(e) = e {
        x.set_ephemeral_keypair(kp(e));
    }
    x
}
pub fn pair(k: &Keys, pro: &[u8]) -> (NoiseSession, NoiseSession) {
    (session(true, pro, &k.is, Some(&k.ie)), session(false, pro, &k.rs, Some(&k.re)))
}
/// A handshake message size, small mostly.
fn gen_size(c: &mut Case, min: usize) -> usize {
    min + if c.s.one_in(12) { c.s.int(0, (MAX - min) as u64) as usize } else { c.s.len(700) }
}
/// The same, bounded so that most cases are cheap; sometimes of any size.
fn gen_size_to(c: &mut Case, min: usize, cap: usize) -> usize {
    if c.s.one_in(12) {
        c.s.int(min as u64, MAX as u64) as usize
    } else {
        gen_size(c, min).min(cap)
    }
}
pub fn buf(payload: &[u8], at: usize, len: usize) -> Vec<u8> {
    let mut b = vec![0u8; len];
    b[at..at + payload.len()].copy_from_slice(payload);
    b
}
pub fn es(e: &NoiseError) -> String {
    format!("{:?}", e)
}
/// Runs the honest handshake; Err text if any step is refused.
pub fn shake(i: &mut NoiseSession, r: &mut NoiseSession, a: usize, b: usize) -> Result<(Vec<u8>, Vec<u8>), String> {
    let mut m = vec![0u8; a];
    i.send_message(&mut m).map_err(|e| format!("first message refused by its sender: {}", es(&e)))?;
    let ma = m.clone();
    r.recv_message(&mut m).map_err(|e| format!("first message refused by the responder: {}", es(&e)))?;
    let mut m = vec![0u8; b];
    r.send_message(&mut m).map_err(|e| format!("reply refused by its sender: {}", es(&e)))?;
    let mb = m.clone();
    i.recv_message(&mut m).map_err(|e| format!("reply refused by the initiator: {}", es(&e)))?;
    Ok((ma, mb))
}
/// An established pair of library sessions; discards the case if the handshake fails
/// (which is another property's business).
fn established(c: &mut Case, k: &Keys, pro: &[u8]) -> Result<(NoiseSession, NoiseSession), Stop> {
    let (mut i, mut r) = pair(k, pro);
    let a = gen_size(c, MIN_A).min(2000);
    let b = gen_size(c, MIN_B).min(2000);
    match shake(&mut i, &mut r, a, b) {
        Ok(_) if i.is_transport() && r.is_transport() => Ok((i, r)),
        _ => Err(Stop::Discard("handshake failed")),
    }
}
fn opaque(x: &NoiseSession, who: &str, when: &str) -> Res {
    ensure!(!x.is_transport(), "{} established {}", who, when);
    ensure!(x.get_handshake_hash().is_none(), "{} reports a handshake hash {}", who, when);
    ensure!(x.get_remote_static_public_key().is_none(), "{} reports a remote key {}", who, when);
    Ok(())
}

// ---------------------------------------------------------------- C16
/// One message from one end to the other.
fn carry(from: &mut NoiseSession, to: &mut NoiseSession, pt: &[u8], what: &str) -> Res {
    let mut m = buf(pt, 0, pt.len() + 16);
    if let Err(e) = from.send_message(&mut m) {
        fail!("{}: sending {} bytes: {}", what, pt.len(), es(&e));
    }
    if pt.len() >= 8 {
        ensure!(m[..pt.len()] != *pt, "{}: the message was sent in clear", what);
    }
    if let Err(e) = to.recv_message(&mut m) {
        fail!("{}: receiving {} bytes: {}", what, pt.len(), es(&e));
    }
    ensure!(m[..pt.len()] == *pt, "{}: {} arrived as {}", what, hex(pt), hex(&m));
    Ok(())
}
fn c16_pair(c: &mut Case) -> Res {
    let k = gen_keys(c);
    let pro = gen_prologue(c);
    let (la, lb) = (gen_size(c, MIN_A), gen_size(c, MIN_B));
    let set = c.s.below(4);
    let pa = c.s.bytes(la - 32);
    let pb = c.s.bytes(lb - MIN_B);
    c.show(|| format!("prologue {} bytes, first message {} bytes, reply {} bytes, ephemerals fixed: {:02b}", pro.len(), la, lb, set));
    c.nontrivial = la > MIN_A || lb > MIN_B || !pro.is_empty();
    let mut i = session(true, &pro, &k.is, if set & 1 == 0 { Some(&k.ie) } else { None });
    let mut r = session(false, &pro, &k.rs, if set & 2 == 0 { Some(&k.re) } else { None });
    opaque(&i, "initiator", "before the handshake")?;
    opaque(&r, "responder", "before the handshake")?;
    let mut m = buf(&pa, 32, la);
    ensure!(i.send_message(&mut m).is_ok(), "sending the first message of {} bytes failed", la);
    ensure!(m[32..] == pa[..], "the first message's payload was altered");
    opaque(&i, "initiator", "after its first message")?;
    if let Err(e) = r.recv_message(&mut m) {
        fail!("first message of {} bytes refused: {}", la, es(&e));
    }
    ensure!(m[32..] == pa[..], "the first message's payload arrived altered");
    opaque(&r, "responder", "before its reply")?;
    let mut m = buf(&pb, 80, lb);
    if let Err(e) = r.send_message(&mut m) {
        fail!("reply of {} bytes refused by its sender: {}", lb, es(&e));
    }
    opaque(&i, "initiator", "before the reply")?;
    if let Err(e) = i.recv_message(&mut m) {
        fail!("reply of {} bytes refused: {}", lb, es(&e));
    }
    ensure!(m[80..80 + pb.len()] == pb[..], "the reply's payload arrived as {}", hex(&m[80..]));
    ensure!(i.is_transport() && r.is_transport(), "not both established: {} {}", i.is_transport(), r.is_transport());
    let (hi, hr) = (i.get_handshake_hash(), r.get_handshake_hash());
    ensure!(hi.is_some() && hi == hr, "handshake hashes differ: {:?} {:?}", hi, hr);
    let want = kp(&k.rs).get_public_key().as_bytes();
    let got = i.get_remote_static_public_key().map(|k| k.as_bytes());
    ensure!(got == Some(want), "the initiator reports remote key {:?} instead of {}", got.map(|g| hex(&g)), hex(&want));
    let n = 2 + c.s.below(6);
    for _ in 0..n {
        let top = if c.s.one_in(10) { MAX as u64 - 16 } else { 300 };
                let l = c.s.len(top);
        let pt = c.s.bytes(l);
        if c.s.coin() {
            carry(&mut i, &mut r, &pt, "initiator to responder")?;
        } else {
            carry(&mut r, &mut i, &pt, "responder to initiator")?;
        }
        ensure!(i.get_handshake_hash() == hi && r.get_handshake_hash() == hi, "handshake hash changed");
        ensure!(i.get_remote_static_public_key().map(|k| k.as_bytes()) == Some(want), "remote key changed");
    }
    carry(&mut i, &mut r, b"initiator", "initiator to responder")?;
    carry(&mut r, &mut i, b"responder", "responder to initiator")?;
    Ok(())
}
/// The library's own constructors and the connection wrapper.
fn c16_wrapper(c: &mut Case) -> Res {
    let given = c.s.coin().then(|| gen_key(c));
    let rounds = c.s.below(6);
    let raw = c.s.below(6);
    c.nontrivial = true;
    c.show(|| format!("static key given: {}, {} rounds, mode {}", given.is_some(), rounds, raw));
    let want = given.map(|k| kp(&k).get_public_key().as_bytes());
    if raw == 0 {
        let mut i = new_noise_initiator();
        let mut r = new_noise_responder(given.map(|k| kp(&k)));
        let (la, lb) = (gen_size(c, MIN_A), gen_size(c, MIN_B));
        if let Err(e) = shake(&mut i, &mut r, la, lb) {
            fail!("{}", e);
        }
        ensure!(i.is_transport() && r.is_transport() && i.get_handshake_hash() == r.get_handshake_hash(), "the two ends disagree");
        let got = i.get_remote_static_public_key().map(|k| k.as_bytes());
        ensure!(got.is_some() && got != Some([0; 32]) && (want.is_none() || got == want), "remote key {:?}", got);
        carry(&mut i, &mut r, b"to responder", "initiator to responder")?;
        carry(&mut r, &mut i, b"to initiator", "responder to initiator")?;
        return Ok(());
    }
    if raw == 1 {
        // a session of any message size against the wrapper, which answers in the buffer it was given
        let mut i = new_noise_initiator();
        let mut r = ConnectionEncryptor::new_inbound(given.map(|k| kp(&k)));
        let la = gen_size(c, MIN_B);
        let mut m = vec![0u8; la];
        ensure!(i.send_message(&mut m).is_ok(), "sending the first message of {} bytes failed", la);
        let mut y = match r.recv_handshake(&mut m) {
            Ok(y) => y,
            Err(e) => fail!("first message of {} bytes refused by the wrapper: {}", la, e),
        };
        ensure!(r.is_handshake_complete(), "the wrapper is not complete after its reply");
        if let Err(e) = i.recv_message(&mut y) {
            fail!("the wrapper's reply to {} bytes refused: {}", la, es(&e));
        }
        let got = i.get_remote_static_public_key().map(|k| k.as_bytes());
        ensure!(got.is_some() && got != Some([0; 32]) && (want.is_none() || got == want), "remote key {:?}", got);
        for _ in 0..rounds {
            // what the session sends is answered with a transport message
            let l = 16 + c.s.len(MAX as u64 - 16);
            let mut m = vec![0u8; l];
            ensure!(i.send_message(&mut m).is_ok(), "sending {} bytes failed", l);
            match r.recv_handshake(&mut m) {
                Ok(mut y) => ensure!(i.recv_message(&mut y).is_ok(), "bytes returned by the wrapper refused"),
                Err(e) => fail!("{} bytes refused by the wrapper: {}", l, e),
            }
        }
        return Ok(());
    }
    if raw == 2 {
        let mut i = ConnectionEncryptor::new_outbound();
        let mut r = new_noise_responder(given.map(|k| kp(&k)));
        let mut x = match i.init_handshake() {
            Ok(x) => x,
            Err(e) => fail!("init_handshake: {}", e),
        };
        if let Err(e) = r.recv_message(&mut x) {
            fail!("the wrapper's first message of {} bytes refused: {}", x.len(), es(&e));
        }
        let lb = gen_size(c, MIN_B);
        let mut y = vec![0u8; lb];
        ensure!(r.send_message(&mut y).is_ok(), "reply of {} bytes refused by its sender", lb);
        let mut z = match i.recv_handshake(&mut y) {
            Ok(z) => z,
            Err(e) => fail!("reply of {} bytes refused by the wrapper: {}", lb, e),
        };
        ensure!(i.is_handshake_complete(), "the wrapper is not complete after the reply");
        let got = i.get_remote_pubkey().map(|k| k.as_bytes());
        ensure!(got.is_some() && got != Some([0; 32]) && (want.is_none() || got == want), "remote key {:?}", got);
        for _ in 0..rounds {
            if let Err(e) = r.recv_message(&mut z) {
                fail!("bytes returned by the wrapper refused: {}", es(&e));
            }
            let l = 16 + c.s.len(MAX as u64 - 16);
            let mut m = vec![0u8; l];
            ensure!(r.send_message(&mut m).is_ok(), "sending {} bytes failed", l);
            z = match i.recv_handshake(&mut m) {
                Ok(z) => z,
                Err(e) => fail!("{} bytes refused by the wrapper: {}", l, e),
            };
        }
        return Ok(());
    }
    let mut i = ConnectionEncryptor::new_outbound();
    let mut r = ConnectionEncryptor::new_inbound(given.map(|k| kp(&k)));
    ensure!(!i.is_handshake_complete() && !r.is_handshake_complete(), "complete before the handshake");
    ensure!(i.get_remote_pubkey().is_none() && r.get_remote_pubkey().is_none(), "a remote key before the handshake");
    let mut x = match i.init_handshake() {
        Ok(x) => x,
        Err(e) => fail!("init_handshake: {}", e),
    };
    ensure!(!i.is_handshake_complete() && i.get_remote_pubkey().is_none(), "complete after the first message");
    let mut y = match r.recv_handshake(&mut x) {
        Ok(y) => y,
        Err(e) => fail!("first message refused: {}", e),
    };
    ensure!(!i.is_handshake_complete() && i.get_remote_pubkey().is_none(), "complete before the reply");
    let mut z = match i.recv_handshake(&mut y) {
        Ok(z) => z,
        Err(e) => fail!("reply refused: {}", e),
    };
    ensure!(i.is_handshake_complete() && r.is_handshake_complete(), "not complete after the handshake");
    let got = i.get_remote_pubkey().map(|k| k.as_bytes());
    ensure!(got.is_some() && got != Some([0; 32]) && (want.is_none() || got == want), "remote key {:?} instead of {:?}", got, want);
    // what each end returns is meant for the other
    for _ in 0..rounds {
        z = match r.recv_handshake(&mut z) {
            Ok(z) => z,
            Err(e) => fail!("bytes returned by the initiator refused by the responder: {}", e),
        };
        z = match i.recv_handshake(&mut z) {
            Ok(z) => z,
            Err(e) => fail!("bytes returned by the responder refused by the initiator: {}", e),
        };
        ensure!(i.get_remote_pubkey().map(|k| k.as_bytes()) == got, "remote key changed");
    }
    Ok(())
}
/// Every handshake message size (both messages), transport size likewise.
fn c16_sizes(c: &mut Case) -> Res {
    let n = c.s.uni(0, C16_SIZES.len() as u64 + 599) as usize;
    let extra = if n < 600 { n } else { C16_SIZES[n - 600] };
    let k = Keys { is: [7; 32], ie: [9; 32], rs: [11; 32], re: [13; 32] };
    let (mut i, mut r) = pair(&k, b"sizes");
    c.nontrivial = true;
    c.show(|| format!("{} bytes beyond the smallest", extra));
    let (a, b) = ((MIN_A + extra).min(MAX), (MIN_B + extra).min(MAX));
    if let Err(e) = shake(&mut i, &mut r, a, b) {
        fail!("sizes {} and {}: {}", a, b, e);
    }
    ensure!(i.get_handshake_hash().is_some() && i.get_handshake_hash() == r.get_handshake_hash(), "hashes differ at sizes {} {}", a, b);
    let pt: Vec<u8> = (0..extra.min(MAX - 16)).map(|x| (x % 251) as u8).collect();
    carry(&mut i, &mut r, &pt, "initiator to responder")?;
    carry(&mut r, &mut i, &pt, "responder to initiator")
}
const C16_SIZES: [usize; 14] = [1000, 1024, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 60000, MAX - MIN_B - 1, MAX - MIN_B, MAX - MIN_A, MAX];

// ---------------------------------------------------------------- C17
/// Some change to a message; never returns the message itself.
/// Other authentication bytes made of the genuine ones, which a comparison of anything
/// less than all bytes in place may confuse with them.
fn retag(c: &mut Case, t: &mut [u8]) -> &'static str {
    let old = t.to_vec();
    let (a, b) = (c.s.below(16), c.s.below(16));
    let b = if a == b { (b + 1) % 16 } else { b };
    let x = c.s.uni(1, 255) as u8;
    let what = match c.s.below(10) {
        0 => {
            t.rotate_left(1 + a % 15);
            "tag rotated"
        }
        1 => {
            t.reverse();
            "tag reversed"
        }
        2 => {
            let w = [2, 4, 8][a % 3];
            t.chunks_mut(w).for_each(|k| k.reverse());
            "tag words byte-swapped"
        }
        3 => {
            t.swap(a, b);
            "two tag bytes exchanged"
        }
        4 => {
            t[a] ^= x;
            t[b] ^= x;
            "two tag bytes changed alike"
        }
        5 => {
            t[a] = t[a].wrapping_add(x);
            t[b] = t[b].wrapping_sub(x);
            "two tag bytes changed contrarily"
        }
        6 => {
            t.iter_mut().for_each(|y| *y = !*y);
            "tag inverted"
        }
        7 => {
            let y = if a % 2 == 0 { 0 } else { 0xff };
            t.iter_mut().for_each(|z| *z = y);
            "constant tag"
        }
        8 => {
            // any part kept
            let (l, h) = (a.min(b), a.max(b));
            for z in t.iter_mut().take(h).skip(l) {
                *z ^= x;
            }
            "part of the tag changed"
        }
        _ => {
            let w = [1usize, 2, 4, 8][b % 4];
            let n = 16 / w;
            let (p, q) = (a % n, (a + 1 + b) % n);
            for z in 0..w {
                t.swap(p * w + z, q * w + z);
            }
            "two tag words exchanged"
        }
    };
    if t[..] == old[..] {
        t[a] ^= x;
    }
    what
}
fn tamper(c: &mut Case, m: &[u8], other: &[u8]) -> (Vec<u8>, &'static str) {
    let mut t = m.to_vec();
    let how = match c.s.weighted(&[8, 3, 3, 2, 2, 2, 2, 2, 1, 3]) {
        0 => {
            let p = c.s.int(0, t.len() as u64 * 8 - 1) as usize;
            t[p / 8] ^= 1 << (p % 8);
            "one bit flipped"
        }
        1 => {
            let p = c.s.int(0, t.len() as u64 - 1) as usize;
            t[p] = t[p].wrapping_add(1 + c.s.uni(0, 254) as u8);
            "one byte changed"
        }
        2 => {
            let n = c.s.int(1, t.len() as u64) as usize;
            t.truncate(t.len() - n);
            "truncated"
        }
        3 => {
            let n = 1 + c.s.len(64);
            let b = c.s.bytes(n);
            t.extend_from_slice(&b);
            "extended"
        }
        4 => {
            let a = c.s.below(t.len());
            t.remove(a);
            "one byte removed"
        }
        5 => {
            let a = c.s.below(t.len() + 1);
            t.insert(a, c.s.uni(0, 255) as u8);
            "one byte inserted"
        }
        6 => {
            let a = c.s.below(t.len());
            let b = c.s.below(t.len());
            t.swap(a, b);
            "two bytes exchanged"
        }
        7 => {
            // splice with the same message of another session
            let a = c.s.below(t.len() + 1);
            let b = a + c.s.below(t.len() - a + 1);
            for x in a..b.min(other.len()) {
                t[x] = other[x];
            }
            "part replaced from another session"
        }
        9 if t.len() >= 16 => {
            // the last authentication bytes, or those of the static key in a reply
            let n = t.len();
            let at = if n >= MIN_B && c.s.one_in(3) { 64 } else { n - 16 };
            retag(c, &mut t[at..at + 16])
        }
        _ => {
            t = other.to_vec();
            "replaced by another session's message"
        }
    };
    if t == m {
        let l = t.len() - 1;
        t[l] ^= 1;
    }
    (t, how)
}
fn failed_client(c: &mut Case, i: &mut NoiseSession, r: &mut NoiseSession, rpub: &K, genuine: &[u8], what: &str) -> Res {
    opaque(i, "initiator", what)?;
    let after = c.s.below(4);
    if after == 0 {
        let mut x = vec![1u8; 40];
        ensure!(i.send_message(&mut x).is_err(), "initiator sends messages {}", what);
        opaque(i, "initiator", what)?;
    }
    if after <= 2 && !genuine.is_empty() {
        let mut g = genuine.to_vec();
        if i.recv_message(&mut g).is_ok() && i.is_transport() {
            ensure!(r.is_transport(), "initiator established alone {}", what);
            ensure!(i.get_handshake_hash() == r.get_handshake_hash(), "established with different hashes {}, then the genuine reply", what);
            let got = i.get_remote_static_public_key().map(|k| k.as_bytes());
            ensure!(got == Some(*rpub), "established with remote key {:?} {}, then the genuine reply", got, what);
            carry(i, r, b"after a retry", "after a retry")?;
            carry(r, i, b"after a retry", "after a retry")?;
            c.hit("genuine reply accepted after a refused one");
        } else {
            opaque(i, "initiator", what)?;
        }
    }
    if !i.is_transport() {
        let mut x = vec![1u8; 40];
        ensure!(i.send_message(&mut x).is_err(), "initiator sends messages {}", what);
        let mut x = vec![1u8; 40];
        ensure!(i.recv_message(&mut x).is_err(), "initiator accepts garbage {}", what);
        opaque(i, "initiator", what)?;
    }
    Ok(())
}
fn c17_tamper(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let k2 = rand_keys(c);
    let pro = gen_prologue(c);
    let (la, lb) = (gen_size_to(c, MIN_A, 4000), gen_size_to(c, MIN_B, 4000));
    // a second, independent run provides substitute messages
    let (mut i2, mut r2) = pair(&k2, &pro);
    let (oa, ob) = match shake(&mut i2, &mut r2, la, lb) {
        Ok(x) => x,
        Err(_) => return Err(Stop::Discard("handshake failed")),
    };
    let (mut i, mut r) = pair(&k, &pro);
    let rpub = kp(&k.rs).get_public_key().as_bytes();
    let pa = c.s.bytes(la - MIN_A);
    let mut m = buf(&pa, MIN_A, la);
    if i.send_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let sent = m.clone();
    c.nontrivial = true;
    let which = c.s.below(3);
    if which == 0 {
        // the first message is altered
        let (mut t, how) = tamper(c, &m, &oa);
        c.show(|| format!("first message of {} bytes, {} ({} bytes)", la, how, t.len()));
        c.hit(&format!("first message: {}", how));
        if r.recv_message(&mut t).is_err() {
            c.hit("refused by the responder");
            return opaque(&r, "responder", "after refusing a message").and_then(|_| opaque(&i, "initiator", "without a reply"));
        }
        let mut b = vec![0u8; lb];
        if r.send_message(&mut b).is_err() {
            return opaque(&i, "initiator", "without a reply");
        }
        let mut g = b.clone();
        ensure!(i.recv_message(&mut g).is_err(), "initiator accepted the reply to an altered first message ({})", how);
        return failed_client(c, &mut i, &mut r, &rpub, &b, "after the reply to an altered first message");
    }
    if r.recv_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let pb = c.s.bytes(lb - MIN_B);
    let mut b = buf(&pb, 80, lb);
    if r.send_message(&mut b).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let (t, how) = match c.s.below(14) {
        // the initiator's own message or key sent back to it
        0 => {
            let mut t = sent.clone();
            if c.s.coin() {
                t.resize(lb, 0);
            }
            (t, "the first message sent back")
        }
        1 => {
            let mut t = b.clone();
            t[..32].copy_from_slice(&sent[..32]);
            if c.s.coin() {
                t[32..64].copy_from_slice(&rpub);
            }
            (t, "the initiator's own ephemeral in the reply")
        }
        _ => tamper(c, &b, &ob),
    };
    c.show(|| format!("reply of {} bytes, {} ({} bytes)", lb, how, t.len()));
    c.hit(&format!("reply: {}", how));
    let mut g = t.clone();
    ensure!(i.recv_message(&mut g).is_err(), "initiator accepted an altered reply ({})", how);
    if which == 2 {
        // several bad attempts in a row
        for _ in 0..c.s.below(4) {
            let (t, _) = tamper(c, &b, &ob);
            let mut g = t.clone();
            ensure!(i.recv_message(&mut g).is_err(), "initiator accepted an altered reply ({})", how);
        }
    }
    failed_client(c, &mut i, &mut r, &rpub, &b, "after an altered reply")
}
fn c17_prologue(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let p1 = gen_prologue(c);
    let p2 = match c.s.below(4) {
        0 => {
            let mut p = p1.clone();
            p.push(c.s.uni(0, 255) as u8);
            p
        }
        1 if !p1.is_empty() => p1[..p1.len() - 1].to_vec(),
        2 if !p1.is_empty() => {
            let mut p = p1.clone();
            let a = c.s.int(0, p.len() as u64 * 8 - 1) as usize;
            p[a / 8] ^= 1 << (a % 8);
            p
        }
        _ => gen_prologue(c),
    };
    if p1 == p2 {
        return Err(Stop::Discard("same prologue"));
    }
    c.show(|| format!("prologues {} and {}", hex(&p1), hex(&p2)));
    c.nontrivial = true;
    let mut i = session(true, &p1, &k.is, Some(&k.ie));
    let mut r = session(false, &p2, &k.rs, Some(&k.re));
    let (la, lb) = (gen_size_to(c, MIN_A, 2000), gen_size_to(c, MIN_B, 2000));
    let mut m = vec![0u8; la];
    let ok = i.send_message(&mut m).is_ok() && r.recv_message(&mut m).is_ok();
    let mut b = vec![0u8; lb];
    if !ok || r.send_message(&mut b).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let mut g = b.clone();
    ensure!(i.recv_message(&mut g).is_err(), "established with different prologues {} and {}", hex(&p1), hex(&p2));
    let rpub = kp(&k.rs).get_public_key().as_bytes();
    failed_client(c, &mut i, &mut r, &rpub, &b, "with different prologues")
}
/// Every single bit of the smallest handshake messages.
fn c17_bits(c: &mut Case) -> Res {
    let n = c.s.uni(0, C17_BITS - 1) as usize;
    let k = Keys { is: [21; 32], ie: [22; 32], rs: [23; 32], re: [24; 32] };
    let (mut i, mut r) = pair(&k, b"");
    let mut m = vec![0u8; BIT_A];
    if i.send_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    c.nontrivial = true;
    if n < BIT_A * 8 {
        m[n / 8] ^= 1 << (n % 8);
    }
    let ra = r.recv_message(&mut m);
    if ra.is_err() {
        ensure!(n < BIT_A * 8, "unaltered first message refused");
        return opaque(&i, "initiator", "without a reply");
    }
    let mut b = vec![0u8; MIN_B];
    if r.send_message(&mut b).is_err() {
        return opaque(&i, "initiator", "without a reply");
    }
    if n >= BIT_A * 8 {
        let p = n - BIT_A * 8;
        b[p / 8] ^= 1 << (p % 8);
    }
    ensure!(i.recv_message(&mut b).is_err(), "established although bit {} of the {} was flipped", n % (BIT_A * 8), if n < BIT_A * 8 { "first message" } else { "reply" });
    opaque(&i, "initiator", "after an altered handshake")
}
const C17_BITS: u64 = ((BIT_A + MIN_B) * 8) as u64;

/// Prologues far longer than a message, alike but for one byte at the end, the middle or the start.
fn c17_long_prologues(c: &mut Case) -> Res {
    let n = c.s.uni(0, C17_LONG - 1);
    let (len, place) = (long_prologue_len(n / 3), n % 3);
    let k = Keys { is: [71; 32], ie: [72; 32], rs: [73; 32], re: [74; 32] };
    let p1 = vec![0x5au8; len];
    let mut p2 = p1.clone();
    match place {
        0 => p2[len - 1] ^= 1,
        1 => p2[len / 2] ^= 1,
        _ => p2.push(0x5a),
    }
    c.show(|| format!("prologues of {} and {} bytes", p1.len(), p2.len()));
    c.nontrivial = true;
    let mut i = session(true, &p1, &k.is, Some(&k.ie));
    let mut r = session(false, &p2, &k.rs, Some(&k.re));
    let mut m = vec![0u8; MIN_A];
    if i.send_message(&mut m).is_err() || r.recv_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let mut b = vec![0u8; MIN_B];
    if r.send_message(&mut b).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    ensure!(i.recv_message(&mut b).is_err(), "established with prologues of {} and {} bytes that differ {}", p1.len(), p2.len(), ["in the last byte", "in the middle", "by a byte more"][place as usize]);
    opaque(&i, "initiator", "with different prologues")
}
/// 2^k and its neighbours, for k up to 24.
fn long_prologue_len(n: u64) -> usize {
    let k = 5 + n / 3;
    ((1u64 << k) + n % 3 - 1) as usize
}
const C17_LONG: u64 = 20 * 3 * 3;

fn c17_wrapper(c: &mut Case) -> Res {
    let mut i = ConnectionEncryptor::new_outbound();
    let mut r = ConnectionEncryptor::new_inbound(None);
    let mut x = i.init_handshake().map_err(|_| Stop::Discard("handshake failed"))?;
    c.nontrivial = true;
    let which = c.s.coin();
    let other = vec![3u8; x.len()];
    if which {
        let (t, how) = tamper(c, &x, &other);
        c.show(|| format!("first message {}", how));
        x = t;
    }
    let y = match r.recv_handshake(&mut x) {
        Ok(y) => y,
        Err(e) => {
            ensure!(which, "first message refused: {}", e);
            return Ok(());
        }
    };
    let mut y2 = y.clone();
    if !which {
        let (t, how) = tamper(c, &y, &other);
        c.show(|| format!("reply {}", how));
        y2 = t;
    }
    ensure!(i.recv_handshake(&mut y2).is_err(), "altered handshake accepted by the wrapper");
    ensure!(!i.is_handshake_complete() && i.get_remote_pubkey().is_none(), "wrapper complete after an altered handshake");
    Ok(())
}

// ---------------------------------------------------------------- C18
#[cfg(verif_hooks)]
fn set_counters(x: &mut NoiseSession, n1: u64, n2: u64) -> bool {
    x.verif_set_nonces(n1, n2);
    true
}
#[cfg(not(verif_hooks))]
fn set_counters(_: &mut NoiseSession, _: u64, _: u64) -> bool {
    false
}
fn c18_interop(c: &mut Case) -> Res {
    let k = gen_keys(c);
    let pro = gen_prologue(c);
    let (la, lb) = (gen_size(c, MIN_A), gen_size(c, MIN_B));
    let pa = c.s.bytes(la - 32);
    let pb = c.s.bytes(lb - MIN_B);
    let lib_inits = c.s.coin();
    c.show(|| format!("library is the {}, prologue {} bytes, sizes {} and {}", if lib_inits { "initiator" } else { "responder" }, pro.len(), la, lb));
    let mut lib;
    let mut re;
    if lib_inits {
        lib = session(true, &pro, &k.is, Some(&k.ie));
        re = Ref::new(false, &pro, k.rs, k.re);
        let mut shadow = Ref::new(true, &pro, k.is, k.ie);
        let mut m = buf(&pa, 32, la);
        if let Err(e) = lib.send_message(&mut m) {
            fail!("first message of {} bytes not sent: {}", la, es(&e));
        }
        let want = shadow.write_a(&pa);
        ensure!(m == want, "first message {} instead of {}", hex(&m), hex(&want));
        re.read_a(&m);
        let mut b = re.write_b(&pb);
        if let Err(e) = lib.recv_message(&mut b) {
            fail!("reply of {} bytes refused: {}", lb, es(&e));
        }
        ensure!(b[80..80 + pb.len()] == pb[..], "reply payload {}", hex(&b[80..]));
        let got = lib.get_remote_static_public_key().map(|x| x.as_bytes());
        ensure!(got == Some(nr::public(&k.rs)), "remote key {:?}", got);
    } else {
        lib = session(false, &pro, &k.rs, Some(&k.re));
        re = Ref::new(true, &pro, k.is, k.ie);
        let mut shadow = Ref::new(false, &pro, k.rs, k.re);
        let m = re.write_a(&pa);
        let mut g = m.clone();
        if let Err(e) = lib.recv_message(&mut g) {
            fail!("first message of {} bytes refused: {}", la, es(&e));
        }
        ensure!(g[32..] == pa[..], "first message payload {}", hex(&g[32..]));
        shadow.read_a(&m);
        let mut b = buf(&pb, 80, lb);
        if let Err(e) = lib.send_message(&mut b) {
            fail!("reply of {} bytes not sent: {}", lb, es(&e));
        }
        let want = shadow.write_b(&pb);
        ensure!(b == want, "reply {} instead of {}", hex(&b), hex(&want));
        match re.read_b(&b) {
            Some(p) => ensure!(p == pb, "reply payload differs"),
            None => fail!("the reply does not open"),
        }
    }
    ensure!(lib.is_transport(), "not established");
    ensure!(lib.get_handshake_hash() == Some(re.h), "handshake hash {:?} instead of {}", lib.get_handshake_hash().map(|h| hex(&h)), hex(&re.h));
    let n = c.s.len(14);
    let mut rekeys = 0;
    let mut trace = vec![];
    for _ in 0..n {
        match c.s.weighted(&[4, 4, 2, 2, 2]) {
            0 => {
                let top = if c.s.one_in(12) { MAX as u64 - 16 } else { 300 };
                let l = c.s.len(top);
                let pt = c.s.bytes(l);
                trace.push(format!("library sends {}", l));
                let mut m = buf(&pt, 0, l + 16);
                let r = lib.send_message(&mut m);
                // the reference is the other end, so take its receiving cipher
                let mut tx = if lib_inits { re.c1.clone() } else { re.c2.clone() };
                match (r, tx.enc(&pt)) {
                    (Ok(()), Some(w)) => ensure!(m == w, "{:?}: message {} instead of {}", trace, hex(&m), hex(&w)),
                    (Err(NoiseError::ExhaustedNonceError), None) => {}
                    (r, w) => fail!("{:?}: {:?} but the reference {}", trace, r.map_err(|e| es(&e)), if w.is_some() { "sends" } else { "refuses" }),
                }
                if lib_inits {
                    re.c1 = tx
                } else {
                    re.c2 = tx
                }
            }
            1 => {
                let top = if c.s.one_in(12) { MAX as u64 - 16 } else { 300 };
                let l = c.s.len(top);
                let pt = c.s.bytes(l);
                trace.push(format!("library receives {}", l));
                match re.send(&pt) {
                    Some(mut m) => match lib.recv_message(&mut m) {
                        Ok(()) => ensure!(m[..l] == pt[..], "{:?}: {} received as {}", trace, hex(&pt), hex(&m)),
                        Err(e) => fail!("{:?}: message of {} bytes refused: {}", trace, l, es(&e)),
                    },
                    None => {
                        let mut m = vec![0u8; l + 16];
                        ensure!(lib.recv_message(&mut m).is_err(), "{:?}: received beyond the last counter", trace);
                    }
                }
            }
            2 => {
                trace.push("rekey initiator-to-responder".into());
                lib.rekey_local_cipherstate();
                re.c1.rekey();
                rekeys += 1;
            }
            3 => {
                trace.push("rekey responder-to-initiator".into());
                lib.rekey_remote_cipherstate();
                re.c2.rekey();
                rekeys += 1;
            }
            _ => {
                let (a, b) = (c.s.int(0, u64::MAX), c.s.int(0, u64::MAX));
                if set_counters(&mut lib, a, b) {
                    re.c1.n = a;
                    re.c2.n = b;
                    trace.push(format!("counters {} {}", a, b));
                }
            }
        }
    }
    c.show(|| format!("{:?}", trace));
    if rekeys > 0 {
        c.hit("with rekey");
    }
    c.nontrivial = n > 0;
    Ok(())
}

/// Prologues of 2^k-1, 2^k and 2^k+1 bytes: the handshake hash equals the reference's.
fn c18_long_prologues(c: &mut Case) -> Res {
    let n = c.s.uni(0, 59);
    let len = long_prologue_len(n);
    let k = Keys { is: [71; 32], ie: [72; 32], rs: [73; 32], re: [74; 32] };
    let pro: Vec<u8> = (0..len).map(|x| (x * 7 + (x >> 8) * 13 + (x >> 16) * 5) as u8).collect();
    c.show(|| format!("a prologue of {} bytes", len));
    c.nontrivial = true;
    let mut lib = session(true, &pro, &k.is, Some(&k.ie));
    let mut re = Ref::new(false, &pro, k.rs, k.re);
    let mut m = vec![0u8; MIN_A];
    if lib.send_message(&mut m).is_err() {
        fail!("first message not sent with a prologue of {} bytes", len);
    }
    re.read_a(&m);
    let mut b = re.write_b(&[]);
    if let Err(e) = lib.recv_message(&mut b) {
        fail!("with a prologue of {} bytes the reply is refused: {}", len, es(&e));
    }
    ensure!(lib.get_handshake_hash() == Some(re.h), "with a prologue of {} bytes: handshake hash {:?} instead of {}", len, lib.get_handshake_hash().map(|h| hex(&h)), hex(&re.h));
    Ok(())
}
/// One session whose directions are rekeyed tens of thousands of times, with messages at chosen
/// points, byte for byte against the reference.
fn c18_many_rekeys(c: &mut Case) -> Res {
    many_rekeys(c, true)
}
const MANY_REKEYS: u64 = 16;
/// Both ends rekey a direction again and again; messages are numbered on, arrive once and in
/// order, and are what the reference makes of the same history.
fn many_rekeys(c: &mut Case, exact: bool) -> Res {
    let n = c.s.uni(0, MANY_REKEYS - 1);
    let which = n & 3; // 1: initiator to responder, 2: responder to initiator, 3: both, 0: in turn
    let per_step = n >> 2 & 1 == 1; // a message after every rekey, or next to powers of two only
    let before = if n >> 3 == 1 { 300 } else { 3 };
    let total: u64 = if per_step { 20_000 } else { 70_000 };
    let k = Keys { is: [75; 32], ie: [76; 32], rs: [77; 32], re: [78; 32] };
    let (mut i, mut r) = pair(&k, b"p");
    let mut shadow = Ref::new(true, b"p", k.is, k.ie);
    let mut m = vec![0u8; MIN_A];
    if i.send_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    shadow.write_a(&[]);
    let mut b = vec![0u8; MIN_B];
    if r.recv_message(&mut m).is_err() || r.send_message(&mut b).is_err() || shadow.read_b(&b).is_none() || i.recv_message(&mut b).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    c.nontrivial = true;
    c.show(|| format!("{} rekeys of {}, messages {}", total, ["the directions in turn", "initiator to responder", "responder to initiator", "both directions"][which as usize], if per_step { "after each" } else { "next to powers of two" }));
    let mut first: [Option<Vec<u8>>; 2] = [None, None];
    let mut sent = [0u64; 2];
    let mut talk = |i: &mut NoiseSession, r: &mut NoiseSession, shadow: &mut Ref, d: usize, done: u64| -> Res {
        let pt = [done as u8, (done >> 8) as u8, d as u8];
        let mut m = [0u8; 19];
        m[..3].copy_from_slice(&pt);
        let (a, b) = if d == 0 { (&mut *i, &mut *r) } else { (&mut *r, &mut *i) };
        if let Err(e) = a.send_message(&mut m) {
            fail!("after {} rekeys and {} messages: not sent: {}", done, sent[d], es(&e));
        }
        if exact {
            let w = if d == 0 { shadow.c1.enc(&pt) } else { shadow.c2.enc(&pt) };
            ensure!(w.as_deref() == Some(&m[..]), "after {} rekeys and {} messages: direction {}: message {} instead of {:?}", done, sent[d], d, hex(&m), w.map(|x| hex(&x)));
        }
        // what was delivered before any of this stays refused
        if let Some(old) = &first[d] {
            let mut o = old.clone();
            ensure!(b.recv_message(&mut o).is_err(), "after {} rekeys and {} messages: direction {}: the first message is accepted again", done, sent[d], d);
        }
        // as does a message that skips one or repeats a number under the present key
        if !exact {
            let (key, num) = if d == 0 { (shadow.c1.k, sent[d]) } else { (shadow.c2.k, sent[d]) };
            for wrong in [num + 1, num.wrapping_sub(1), 0] {
                if wrong == num {
                    continue;
                }
                let mut o = nr::seal(&key.unwrap_or([0; 32]), wrong, &[], b"xyz");
                ensure!(b.recv_message(&mut o).is_err(), "after {} rekeys and {} messages: direction {}: number {} is accepted", done, sent[d], d, wrong);
            }
        }
        let keep = m.to_vec();
        if let Err(e) = b.recv_message(&mut m) {
            fail!("after {} rekeys and {} messages: direction {}: refused: {}", done, sent[d], d, es(&e));
        }
        ensure!(m[..3] == pt, "after {} rekeys: direction {}: arrived as {}", done, d, hex(&m[..3]));
        if first[d].is_none() {
            first[d] = Some(keep);
        }
        sent[d] += 1;
        Ok(())
    };
    for _ in 0..before {
        talk(&mut i, &mut r, &mut shadow, 0, 0)?;
        talk(&mut i, &mut r, &mut shadow, 1, 0)?;
    }
    for done in 1..=total {
        let (one, two) = match which {
            0 => (done & 1 == 0, done & 1 == 1),
            x => (x & 1 == 1, x & 2 == 2),
        };
        if one {
            i.rekey_local_cipherstate();
            r.rekey_local_cipherstate();
            shadow.c1.rekey();
        }
        if two {
            i.rekey_remote_cipherstate();
            r.rekey_remote_cipherstate();
            shadow.c2.rekey();
        }
        if per_step || done.is_power_of_two() || (done - 1).is_power_of_two() || (done + 1).is_power_of_two() || done % 1000 == 0 || done == total {
            talk(&mut i, &mut r, &mut shadow, 0, done)?;
            talk(&mut i, &mut r, &mut shadow, 1, done)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
struct Dir {
    sent: Vec<(Vec<u8>, Vec<u8>)>, // plaintext, message
    next: usize,
}
fn c19_history(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let k2 = rand_keys(c);
    let (mut i, mut r) = established(c, &k, b"")?;
    let (mut oi, mut or_) = established(c, &k2, b"")?;
    // far-off counters, reached through the verification hook
    let mut exhausted = [u64::MAX, u64::MAX];
    if c.s.one_in(3) {
        let (a, b) = (c.s.int(0, u64::MAX), c.s.int(0, u64::MAX));
        if set_counters(&mut i, a, b) && set_counters(&mut r, a, b) {
            exhausted = [u64::MAX - a, u64::MAX - b];
            c.hit("far counters");
        }
    }
    let mut dirs = [Dir { sent: vec![], next: 0 }, Dir { sent: vec![], next: 0 }];
    let mut streams: HashMap<Vec<u8>, String> = HashMap::new();
    let n = 1 + c.s.len(40);
    let mut trace: Vec<String> = vec![];
    let (mut good, mut bad) = (0, 0);
    for _ in 0..n {
        let d = c.s.below(2);
        match c.s.weighted(&[5, 5, 5, 1]) {
            0 => {
                let l = match c.s.below(8) {
                    0 => 0,
                    1 if c.s.one_in(3) => c.s.int(0, MAX as u64 - 16) as usize,
                    1 => c.s.below(MAX - 15),
                    _ => c.s.len(200),
                };
                let mut g = Rng::new(c.s.uni(0, u64::MAX));
                let pt: Vec<u8> = (0..l).map(|_| g.next() as u8).collect();
                let mut m = pt.clone();
                // the placeholder for the authentication bytes may hold anything
                m.extend_from_slice(&[c.s.uni(0, 1) as u8 * 0xaa; 16]);
                trace.push(format!("d{} send {}", d, l));
                let s = if d == 0 { &mut i } else { &mut r };
                match s.send_message(&mut m) {
                    Ok(()) => {
                        ensure!((dirs[d].sent.len() as u64) < exhausted[d], "{:?}: a message was sent with the counter exhausted", trace);
                        if l >= 16 {
                            let ks: Vec<u8> = m[..16].iter().zip(&pt).map(|(a, b)| a ^ b).collect();
                            let id = format!("direction {} message {}", d, dirs[d].sent.len());
                            ensure!(ks != [0u8; 16], "{:?}: the message was sent in clear", trace);
                            if let Some(o) = streams.insert(ks, id.clone()) {
                                fail!("{:?}: {} and {} were encrypted with the same key and counter", trace, id, o);
                            }
                        }
                        dirs[d].sent.push((pt, m));
                    }
                    Err(e) => {
                        ensure!(dirs[d].sent.len() as u64 >= exhausted[d], "{:?}: sending {} bytes refused: {}", trace, l, es(&e));
                        ensure!(matches!(e, NoiseError::ExhaustedNonceError), "{:?}: exhaustion reported as {}", trace, es(&e));
                        if l >= 8 {
                            ensure!(m[..l] == pt[..] || m[..l].iter().all(|x| *x == 0), "{:?}: refused message was encrypted", trace);
                        }
                        c.hit("counter exhausted");
                    }
                }
            }
            1 => {
                // deliver the next genuine message
                let x = dirs[d].next;
                if x >= dirs[d].sent.len() {
                    continue;
                }
                trace.push(format!("d{} deliver {}", d, x));
                let s = if d == 0 { &mut r } else { &mut i };
                let (pt, m) = &dirs[d].sent[x];
                let mut g = m.clone();
                if let Err(e) = s.recv_message(&mut g) {
                    fail!("{:?}: genuine message refused: {}", trace, es(&e));
                }
                let (body, tail) = g.split_at(pt.len());
                ensure!(body == &pt[..], "{:?}: {} arrived as {}", trace, hex(pt), hex(body));
                ensure!(tail.iter().all(|x| *x == 0), "{:?}: authentication bytes left in place: {}", trace, hex(tail));
                dirs[d].next += 1;
                good += 1;
            }
            2 => {
                // something that is not the next genuine message
                let next = dirs[d].next;
                let (t, how) = forge(c, &dirs, d, &mut oi, &mut or_);
                if dirs[d].sent.get(next).map(|x| x.1 == t).unwrap_or(false) {
                    continue;
                }
                trace.push(format!("d{} {} ({} bytes)", d, how, t.len()));
                let s = if d == 0 { &mut r } else { &mut i };
                let before = s.get_message_count();
                let mut g = t.clone();
                ensure!(s.recv_message(&mut g).is_err(), "{:?}: accepted {}", trace, how);
                ensure!(s.get_message_count() == before, "{:?}: the message count changed", trace);
                for (pt, _) in dirs.iter().flat_map(|d| d.sent.iter()) {
                    let l = pt.len().min(g.len());
                    if l >= 8 {
                        ensure!(g[..8] != pt[..8] && g[l - 8..l] != pt[l - 8..l], "{:?}: the refused message was decrypted", trace);
                    }
                }
                c.hit(how);
                bad += 1;
            }
            _ => {
                // sizes outside the limits
                let l = if c.s.coin() { c.s.below(16) } else { MAX + 1 + c.s.below(20) };
                trace.push(format!("d{} size {}", d, l));
                let s = if d == 0 { &mut i } else { &mut r };
                let mut g = vec![5u8; l];
                let res = if c.s.coin() { s.send_message(&mut g) } else { s.recv_message(&mut g) };
                ensure!(res.is_err(), "{:?}: accepted", trace);
                ensure!(g.iter().all(|x| *x == 5), "{:?}: refused buffer modified", trace);
            }
        }
    }
    // everything still undelivered arrives
    for d in 0..2 {
        while dirs[d].next < dirs[d].sent.len() {
            let s = if d == 0 { &mut r } else { &mut i };
            let (pt, m) = &dirs[d].sent[dirs[d].next];
            let mut g = m.clone();
            if let Err(e) = s.recv_message(&mut g) {
                fail!("{:?}: then message {} of direction {} refused: {}", trace, dirs[d].next, d, es(&e));
            }
            ensure!(g[..pt.len()] == pt[..], "{:?}: then message {} of direction {} differs", trace, dirs[d].next, d);
            dirs[d].next += 1;
            good += 1;
        }
    }
    c.show(|| trace.join(", "));
    c.nontrivial = good > 0 && bad > 0;
    Ok(())
}
/// Bytes that an attacker who saw everything could deliver in direction d.
fn forge(c: &mut Case, dirs: &[Dir; 2], d: usize, oi: &mut NoiseSession, or_: &mut NoiseSession) -> (Vec<u8>, &'static str) {
    let mut pool: Vec<Vec<u8>> = dirs[d].sent.iter().map(|x| x.1.clone()).collect();
    match c.s.below(9) {
        0 if dirs[d].next > 0 => {
            let x = c.s.below(dirs[d].next);
            (pool.swap_remove(x), "a replayed message")
        }
        1 if dirs[d].next > 0 => (pool.swap_remove(dirs[d].next - 1), "the last message again"),
        2 if pool.len() > dirs[d].next + 1 => {
            let x = dirs[d].next + 1 + c.s.below(pool.len() - dirs[d].next - 1);
            (pool.swap_remove(x), "a later message")
        }
        3 if !dirs[1 - d].sent.is_empty() => {
            let x = c.s.below(dirs[1 - d].sent.len());
            (dirs[1 - d].sent[x].1.clone(), "a reflected message")
        }
        4 => {
            let l = if c.s.one_in(8) { gen_any_size(c).min(MAX - 16) } else { c.s.len(100) };
            let mut m = vec![7u8; l + 16];
            let s = if d == 0 { oi } else { or_ };
            let _ = s.send_message(&mut m);
            (m, "another session's message")
        }
        5 | 6 | 7 if pool.len() > dirs[d].next => {
            let m = pool.swap_remove(dirs[d].next);
            let mut t = m.clone();
            match c.s.below(7) {
                5 => {
                    let n = t.len();
                    retag(c, &mut t[n - 16..]);
                }
                6 if t.len() > 17 => {
                    // parts of the content exchanged
                    let n = t.len() - 16;
                    let w = [1usize, 4, 16, 64][c.s.below(4)].min(n / 2).max(1);
                    let (a, b) = (c.s.below(n / w), c.s.below(n / w));
                    for z in 0..w {
                        t.swap(a * w + z, b * w + z);
                    }
                    if t == m {
                        t[a] ^= 1;
                    }
                }
                0 | 1 | 6 => {
                    let p = c.s.int(0, t.len() as u64 * 8 - 1) as usize;
                    t[p / 8] ^= 1 << (p % 8);
                }
                2 => {
                    // the authentication bytes
                    let p = t.len() - 1 - c.s.below(16);
                    t[p] ^= c.s.uni(1, 255) as u8;
                }
                3 => {
                    let n = 1 + c.s.below(t.len());
                    t.truncate(t.len() - n);
                }
                _ => {
                    let n = 1 + c.s.below(40);
                    let b = c.s.bytes(n);
                    t.extend_from_slice(&b);
                }
            }
            (t, "the next message altered")
        }
        _ => {
            let l = if c.s.one_in(4) { gen_any_size(c) } else { c.s.len(100) };
            (c.s.bytes(l), "made-up bytes")
        }
    }
}
/// Every bit and every truncation of one message, at several lengths.
fn c19_bits(c: &mut Case) -> Res {
    let n = c.s.uni(0, 63) as usize;
    let k = Keys { is: [31; 32], ie: [32; 32], rs: [33; 32], re: [34; 32] };
    let (mut i, mut r) = pair(&k, b"");
    if shake(&mut i, &mut r, MIN_A, MIN_B).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    c.nontrivial = true;
    let from_i = n % 2 == 0;
    let (tx, rx) = if from_i { (&mut i, &mut r) } else { (&mut r, &mut i) };
    let l = n / 2;
    let pt: Vec<u8> = (0..l).map(|x| 0x40 + x as u8).collect();
    let mut m = buf(&pt, 0, l + 16);
    if tx.send_message(&mut m).is_err() {
        fail!("sending {} bytes failed", l);
    }
    for b in 0..m.len() * 8 {
        let mut g = m.clone();
        g[b / 8] ^= 1 << (b % 8);
        ensure!(rx.recv_message(&mut g).is_err(), "bit {} of a message with {} bytes of content flipped: accepted", b, l);
    }
    for cut in 0..m.len() {
        let mut g = m[..cut].to_vec();
        ensure!(rx.recv_message(&mut g).is_err(), "message of {} bytes cut to {}: accepted", m.len(), cut);
    }
    let mut g = m.clone();
    ensure!(rx.recv_message(&mut g).is_ok(), "genuine message refused after {} altered ones", m.len() * 9);
    ensure!(g[..l] == pt[..] && g[l..].iter().all(|x| *x == 0), "arrived as {}", hex(&g));
    let mut g = m.clone();
    ensure!(rx.recv_message(&mut g).is_err(), "replay accepted");
    Ok(())
}
/// Long one-way histories: many messages, each delivered once.
fn c19_long(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let (mut i, mut r) = established(c, &k, b"")?;
    let n = 300 + c.s.below(if c.thorough { 20000 } else { 900 });
    let drop_back = c.s.coin();
    let mut seen = HashSet::new();
    c.nontrivial = true;
    c.show(|| format!("{} messages each way", n));
    for x in 0..n {
        for d in 0..2 {
            let (tx, rx) = if d == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
            let pt = [x as u8; 24];
            let mut m = buf(&pt, 0, 40);
            ensure!(tx.send_message(&mut m).is_ok(), "message {} not sent", x);
            let ks: Vec<u8> = m[..24].iter().map(|y| y ^ x as u8).collect();
            ensure!(seen.insert(ks), "message {} of direction {} reuses a key and counter", x, d);
            if d == 1 && drop_back {
                continue;
            }
            let keep = m.clone();
            ensure!(rx.recv_message(&mut m).is_ok(), "message {} of direction {} refused", x, d);
            ensure!(m[..24] == pt && m[24..] == [0u8; 16], "message {} of direction {} arrived as {}", x, d, hex(&m));
            if x % 64 == 0 {
                let mut g = keep;
                ensure!(rx.recv_message(&mut g).is_err(), "replay of message {} accepted", x);
            }
        }
    }
    Ok(())
}
/// Counters next to exhaustion (verification hook).
fn c19_exhaustion(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let (mut i, mut r) = established(c, &k, b"")?;
    let left = [c.s.below(5) as u64, c.s.below(5) as u64];
    if !set_counters(&mut i, u64::MAX - left[0], u64::MAX - left[1]) || !set_counters(&mut r, u64::MAX - left[0], u64::MAX - left[1]) {
        return Err(Stop::Discard("no hook"));
    }
    c.nontrivial = true;
    c.show(|| format!("{:?} messages left", left));
    let mut seen = HashSet::new();
    for d in 0..2 {
        for x in 0..left[d] + 4 {
            let (tx, rx) = if d == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
            let mut m = [0u8; 48];
            let res = tx.send_message(&mut m);
            if x < left[d] {
                ensure!(res.is_ok(), "{} left: message {} refused", left[d], x);
                ensure!(seen.insert(m[..32].to_vec()), "key and counter reused");
                let keep = m;
                ensure!(rx.recv_message(&mut m).is_ok() && m == [0u8; 48], "{} left: message {} not received", left[d], x);
                m = keep;
                ensure!(rx.recv_message(&mut m).is_err(), "replay accepted");
            } else {
                ensure!(matches!(res, Err(NoiseError::ExhaustedNonceError)), "{} left: message {}: {:?}", left[d], x, res.map_err(|e| es(&e)));
                ensure!(m == [0u8; 48], "refused message altered");
                ensure!(rx.recv_message(&mut m).is_err(), "received beyond exhaustion");
            }
            ensure!(i.is_transport() && r.is_transport() && i.get_handshake_hash().is_some(), "an exhausted session is no longer established");
        }
    }
    // a new key does not start the counter again
    if c.s.coin() {
        for s in [&mut i, &mut r] {
            s.rekey_local_cipherstate();
            s.rekey_remote_cipherstate();
        }
        let mut m = [0u8; 48];
        ensure!(i.send_message(&mut m).is_err() && r.send_message(&mut m).is_err(), "sent beyond exhaustion after a rekey");
    }
    Ok(())
}
/// Counters that differ in any one bit give unrelated messages, and one is not accepted for the other.
fn c19_counters(c: &mut Case) -> Res {
    let n = c.s.uni(0, 511) as usize;
    let (d, bit) = (n & 1, n >> 1 & 63);
    let base = [0u64, 1, 0x7fff_ffff_ffff_fffe, 0xaaaa_5555_0000_ffff][n >> 7];
    let (mut i, mut r) = pair(&Keys { is: [61; 32], ie: [62; 32], rs: [63; 32], re: [64; 32] }, b"");
    shake(&mut i, &mut r, 64, 128).map_err(|_| Stop::Discard("handshake failed"))?;
    let other = base ^ (1 << bit);
    if base == u64::MAX || other == u64::MAX || !set_counters(&mut i, base, base) {
        return Err(Stop::Discard("no hook"));
    }
    c.nontrivial = true;
    c.show(|| format!("direction {} counters {:#x} and {:#x}", d, base, other));
    let mut m = [[0u8; 64], [0u8; 64]];
    for x in 0..2 {
        let n = [base, other][x];
        set_counters(&mut i, n, n);
        set_counters(&mut r, n, n);
        let tx = if d == 0 { &mut i } else { &mut r };
        if let Err(e) = tx.send_message(&mut m[x]) {
            fail!("refused at counter {:#x}: {}", n, es(&e));
        }
    }
    ensure!(m[0][..16] != m[1][..16] && m[0][48..] != m[1][48..], "counters {:#x} and {:#x} encrypt alike", base, other);
    for x in 0..2 {
        let n = [base, other][x];
        set_counters(&mut i, n, n);
        set_counters(&mut r, n, n);
        let rx = if d == 0 { &mut r } else { &mut i };
        let mut w = m[1 - x];
        ensure!(rx.recv_message(&mut w).is_err(), "a message of counter {:#x} is accepted at {:#x}", [other, base][x], n);
        let mut w = m[x];
        ensure!(rx.recv_message(&mut w).is_ok() && w == [0u8; 64], "the message of counter {:#x} is not received", n);
    }
    Ok(())
}

// ---------------------------------------------------------------- C20
fn gen_any_size(c: &mut Case) -> usize {
    c.s.draw(0, 70000, |r| match r.next() % 8 {
        0 => r.range(0, 17),
        1 => [15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 79, 80, 81, 95, 96, 97, 112, 127, 128, 1024, 65534, 65535, 65536, 65537][(r.next() % 25) as usize],
        2 => r.range(16, 130),
        3 => r.range(65520, 65560),
        4 => r.range(0, 70000),
        5 => biased(r, 0, 70000),
        _ => r.range(0, 300),
    }) as usize
}
/// Any calls with any bytes on a pair of sessions.
fn c20_calls(c: &mut Case) -> Res {
    let k = gen_keys(c);
    let pro = gen_prologue(c);
    let (mut i, mut r) = pair(&k, &pro);
    if c.s.coin() {
        let _ = shake(&mut i, &mut r, MIN_A, MIN_B);
    }
    let n = 1 + c.s.len(20);
    let mut last: Vec<u8> = vec![];
    let mut trace = vec![];
    if c.s.one_in(5) {
        // close to the end of the counters
        let (x, y) = (u64::MAX - c.s.below(4) as u64, u64::MAX - c.s.below(4) as u64);
        if set_counters(&mut i, x, y) && set_counters(&mut r, x, y) {
            trace.push(format!("counters {:#x} {:#x}", x, y));
        }
    }
    for _ in 0..n {
        let who = c.s.below(2);
        let s = if who == 0 { &mut i } else { &mut r };
        let op = c.s.weighted(&[6, 6, 1, 1, 1, 1, 1]);
        match op {
            0 | 1 => {
                let mut m = if c.s.one_in(3) && !last.is_empty() {
                    let mut m = last.clone();
                    if c.s.coin() {
                        let l = gen_any_size(c);
                        m.resize(l, 0);
                    }
                    m
                } else {
                    let l = gen_any_size(c);
                    c.s.bytes(l)
                };
                let keep = m.clone();
                let (t0, c0, h0) = (s.is_transport(), s.get_message_count(), s.get_handshake_hash());
                let res = if op == 0 { s.send_message(&mut m) } else { s.recv_message(&mut m) };
                trace.push(format!("{} {} {} -> {}", who, if op == 0 { "send" } else { "recv" }, m.len(), match &res { Ok(()) => "ok".into(), Err(e) => es(e) }));
                if m.len() < 16 || m.len() > MAX {
                    ensure!(matches!(res, Err(NoiseError::UnsupportedMessageLengthError)), "{:?}: size {} not refused as unsupported", trace, m.len());
                    ensure!(m == keep, "{:?}: refused buffer modified", trace);
                }
                if res.is_err() {
                    ensure!((t0, c0, h0) == (s.is_transport(), s.get_message_count(), s.get_handshake_hash()), "{:?}: a refused call changed the session", trace);
                }
                if op == 0 && res.is_ok() {
                    last = m;
                }
            }
            2 => {
                s.rekey_local_cipherstate();
                trace.push(format!("{} rekey local", who));
            }
            3 => {
                s.rekey_remote_cipherstate();
                trace.push(format!("{} rekey remote", who));
            }
            4 => {
                s.clear_local_cipherstate();
                trace.push(format!("{} clear local", who));
            }
            5 => {
                s.clear_remote_cipherstate();
                trace.push(format!("{} clear remote", who));
            }
            _ => {
                let e = if c.s.coin() { Keypair::new_empty() } else { kp(&gen_key(c)) };
                s.set_ephemeral_keypair(e);
                trace.push(format!("{} ephemeral", who));
            }
        }
        let s = if who == 0 { &i } else { &r };
        let _ = (s.get_handshake_hash(), s.get_remote_static_public_key(), s.get_message_count(), s.is_transport());
    }
    c.show(|| trace.join(", "));
    c.nontrivial = n >= 2;
    if c.s.coin() {
        i.end_session();
        r.end_session();
    }
    Ok(())
}
/// Replies of a responder that knows the keys but breaks the format.
fn c20_malicious(c: &mut Case) -> Res {
    let k = gen_keys(c);
    let wrap = c.s.one_in(4);
    let pro = if wrap { vec![] } else { gen_prologue(c) };
    let mut re = Ref::new(false, &pro, k.rs, k.re);
    let mut lib = session(true, &pro, &k.is, None);
    let mut enc = ConnectionEncryptor::new_outbound();
    let la = MIN_A + c.s.len(60);
    let mut m = vec![0u8; la];
    if wrap {
        m = enc.init_handshake().map_err(|_| Stop::Discard("handshake failed"))?;
    } else if lib.send_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    re.read_a(&m);
    let mode = c.s.below(6);
    let payload_len = gen_any_size(c).min(MAX);
    let payload = c.s.bytes(payload_len);
    let mut b = match mode {
        0 => re.write_b(&payload),
        1 => {
            // the static key field has the wrong length
            let l = c.s.len(100);
            let s = c.s.bytes(l);
            re.write_b_with(&s, &payload)
        }
        2 => {
            let mut x = re.write_b_no_payload(&nr::public(&k.rs));
            let l = c.s.below(20);
            x.extend(c.s.bytes(l));
            x
        }
        3 => {
            let mut x = re.write_b(&payload);
            let l = c.s.below(x.len() + 1);
            x.truncate(l);
            x
        }
        4 => {
            let mut x = re.write_b(&payload);
            let l = c.s.len(40);
            x.extend(c.s.bytes(l));
            x
        }
        _ => {
            let s = *c.s.pick(&nr::small_order_encodings());
            re.write_b_with(&s, &payload)
        }
    };
    c.show(|| format!("malformed reply kind {} of {} bytes (payload {})", mode, b.len(), payload_len));
    c.hit(&format!("kind {}", mode));
    c.nontrivial = true;
    let keep = b.clone();
    let ok = if wrap { enc.recv_handshake(&mut b).is_ok() } else { lib.recv_message(&mut b).is_ok() };
    let valid = mode == 0 && keep.len() <= MAX;
    if valid && !wrap {
        ensure!(ok, "a valid reply of {} bytes was refused", keep.len());
    }
    // the session goes on answering whatever comes
    for _ in 0..3 {
        let l = gen_any_size(c);
        let mut x = vec![1u8; l];
        if wrap {
            let _ = enc.recv_handshake(&mut x);
        } else if c.s.coin() {
            let _ = lib.recv_message(&mut x);
        } else {
            let _ = lib.send_message(&mut x);
        }
    }
    Ok(())
}
/// Refused sizes leave an otherwise honest run undisturbed.
fn c20_sizes(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let (mut i, mut r) = pair(&k, b"");
    let mut odd = |c: &mut Case, s: &mut NoiseSession| -> Res {
        for _ in 0..c.s.below(3) {
            let l = if c.s.coin() { c.s.below(16) } else { MAX + 1 + c.s.below(3000) };
            let b = c.s.uni(0, 255) as u8;
            let mut m = vec![b; l];
            let send = c.s.coin();
            let res = if send { s.send_message(&mut m) } else { s.recv_message(&mut m) };
            ensure!(matches!(res, Err(NoiseError::UnsupportedMessageLengthError)), "size {} ({}): {:?}", l, if send { "send" } else { "recv" }, res.map_err(|e| es(&e)));
            ensure!(m.iter().all(|x| *x == b), "refused buffer of {} bytes modified", l);
        }
        Ok(())
    };
    c.nontrivial = true;
    let mut want = (0u128, 0u128);
    odd(c, &mut i)?;
    odd(c, &mut r)?;
    let mut m = vec![0u8; 64];
    let ok = i.send_message(&mut m).is_ok();
    odd(c, &mut i)?;
    odd(c, &mut r)?;
    let ok = ok && r.recv_message(&mut m).is_ok();
    odd(c, &mut i)?;
    odd(c, &mut r)?;
    let mut m = vec![0u8; 128];
    let ok = ok && r.send_message(&mut m).is_ok();
    odd(c, &mut i)?;
    odd(c, &mut r)?;
    let ok = ok && i.recv_message(&mut m).is_ok();
    ensure!(ok && i.is_transport() && r.is_transport(), "an honest handshake failed after refused sizes");
    want = (want.0 + 2, want.1 + 2);
    for x in 0..4u8 {
        odd(c, &mut i)?;
        odd(c, &mut r)?;
        let p = [x; 10];
        if x % 2 == 0 {
            carry(&mut i, &mut r, &p, "after refused sizes")?;
        } else {
            carry(&mut r, &mut i, &p, "after refused sizes")?;
        }
        want = (want.0 + 1, want.1 + 1);
    }
    ensure!((i.get_message_count(), r.get_message_count()) == want, "refused sizes were counted: {:?}", (i.get_message_count(), r.get_message_count()));
    Ok(())
}
/// All lengths 0..=200 and the neighbourhood of 65535 at each stage, both calls, both roles.
fn c20_every_length(c: &mut Case) -> Res {
    let x = c.s.uni(0, 260 * 4 - 1) as usize;
    let fill = [0x5au8, 0, 0xff, 1][x / 260];
    let x = x % 260;
    let l = if x < 220 { x } else { 65535 - 20 + (x - 220) };
    c.nontrivial = true;
    for stage in 0..4 {
        for role in 0..2 {
            for send in [false, true] {
                let k = Keys { is: [41; 32], ie: [42; 32], rs: [43; 32], re: [44; 32] };
                let (mut i, mut r) = pair(&k, b"");
                let mut a = vec![0u8; MIN_A];
                let mut b = vec![0u8; MIN_B];
                if stage >= 1 {
                    let _ = i.send_message(&mut a);
                    let _ = r.recv_message(&mut a);
                }
                if stage >= 2 {
                    let _ = r.send_message(&mut b);
                    let _ = i.recv_message(&mut b);
                }
                if stage == 3 {
                    i.clear_local_cipherstate();
                    r.clear_remote_cipherstate();
                }
                let s = if role == 0 { &mut i } else { &mut r };
                let mut m = vec![fill; l];
                let res = if send { s.send_message(&mut m) } else { s.recv_message(&mut m) };
                if !(16..=MAX).contains(&l) {
                    ensure!(matches!(res, Err(NoiseError::UnsupportedMessageLengthError)), "stage {} role {} send {} size {}: {:?}", stage, role, send, l, res.map_err(|e| es(&e)));
                }
                // and once more, in whatever state that left
                let mut m = vec![fill; l];
                let _ = if send { s.send_message(&mut m) } else { s.recv_message(&mut m) };
            }
        }
    }
    // the connection wrapper
    for stage in 0..3 {
        let mut i = ConnectionEncryptor::new_outbound();
        let mut r = ConnectionEncryptor::new_inbound(Some(kp(&[45; 32])));
        let mut y = vec![];
        if stage >= 1 {
            if let Ok(mut x) = i.init_handshake() {
                y = r.recv_handshake(&mut x).unwrap_or_default();
            }
        }
        if stage == 2 {
            let _ = i.recv_handshake(&mut y);
        }
        let mut m = vec![fill; l];
        let _ = i.recv_handshake(&mut m);
        let mut m = vec![fill; l];
        let _ = r.recv_handshake(&mut m);
        let _ = i.init_handshake();
        let _ = r.init_handshake();
    }
    Ok(())
}

// ---------------------------------------------------------------- C21
fn c21_turns(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let wrong = rand_keys(c);
    let (mut i, mut r) = pair(&k, b"");
    // model: how many handshake steps each side completed; transport counters per direction
    let mut step = [0u32, 0];
    let mut count = [0u128, 0];
    let (mut a, mut b): (Option<Vec<u8>>, Option<Vec<u8>>) = (None, None);
    let mut q: [Vec<Vec<u8>>; 2] = [vec![], vec![]];
    let n = 1 + c.s.len(24);
    let mut trace = vec![];
    let mut refused = 0;
    // the initiator was offered a reply that is not genuine: the attempt has failed, and a
    // genuine reply may or may not be accepted afterwards
    let mut poisoned = false;
    // a genuine message of some other session, to be offered out of turn
    let (mut oi, mut or_) = pair(&wrong, b"");
    let (oa, ob) = shake(&mut oi, &mut or_, 64, 128).map_err(|_| Stop::Discard("handshake failed"))?;
    for _ in 0..n {
        let who = c.s.below(2);
        let send = c.s.coin();
        let s = if who == 0 { &mut i } else { &mut r };
        // is a call of this sort in turn?
        let in_turn = match (who, step[who]) {
            (0, 0) | (1, 1) => send,
            (0, 1) | (1, 0) => !send,
            _ => true,
        };
        let name = format!("{} {}", if who == 0 { "initiator" } else { "responder" }, if send { "sends" } else { "receives" });
        trace.push(name.clone());
        let fault = c.s.one_in(4);
        if fault && (step[who] < 2 || !send || c.s.coin()) && !(step[who] < 2 && !in_turn) {
            // a call in turn that has to be refused: no size to work with, or nothing genuine
            // a first message whose key is one that every side has to refuse
            let mut small = false;
            let l = match (send, step[who], c.s.below(3)) {
                (_, _, 0) => c.s.below(16),
                (_, _, 1) => MAX + 1 + { let far = c.s.one_in(8); c.s.len(if far { 70_000 } else { 300 }) },
                (false, 0, _) if c.s.coin() => {
                    small = true;
                    gen_any_size(c).clamp(MIN_A, MAX)
                }
                (true, 0, _) | (false, 0, _) => c.s.below(MIN_A),
                (true, 1, _) => c.s.below(MIN_B),
                (false, _, _) if c.s.one_in(4) => gen_any_size(c),
                (false, _, _) => 16 + c.s.len(300),
                (true, _, _) => c.s.below(16),
            };
            trace.push(format!("(refused, {} bytes)", l));
            let mut m = c.s.bytes(l);
            if small {
                let bad = nr::small_order_encodings();
                let x = c.s.below(bad.len());
                m[..32].copy_from_slice(&bad[x]);
            }
            let res = if send { s.send_message(&mut m) } else { s.recv_message(&mut m) };
            ensure!(res.is_err(), "{:?}: accepted", trace);
            refused += 1;
            if who == 0 && step[0] == 1 && l >= 16 && l <= MAX {
                poisoned = true;
            }
        } else if step[who] < 2 && !in_turn {
            let mut m = match c.s.below(5) {
                0 => oa.clone(),
                1 => b.clone().unwrap_or(ob.clone()),
                2 => a.clone().unwrap_or(vec![9; 128]),
                3 => vec![9u8; gen_any_size(c)],
                _ => vec![9u8; 16 + c.s.below(200)],
            };
            let res = if send { s.send_message(&mut m) } else { s.recv_message(&mut m) };
            ensure!(res.is_err(), "{:?}: a call out of turn succeeded", trace);
            refused += 1;
        } else if send {
            let l = match step[who] {
                0 => MIN_A,
                1 => MIN_B,
                _ => 16,
            } + c.s.len(60);
            let mut m = vec![0u8; l];
            if let Err(e) = s.send_message(&mut m) {
                fail!("{:?}: refused in turn: {}", trace, es(&e));
            }
            count[who] += 1;
            match step[who] {
                0 => {
                    a = Some(m);
                    step[who] = 1;
                }
                1 => {
                    b = Some(m);
                    step[who] = 2;
                }
                _ => q[who].push(m),
            }
        } else {
            // receive what the other side has sent, if anything
            let m = match (who, step[who]) {
                (1, 0) => a.clone(),
                (0, 1) => b.clone(),
                _ => {
                    let other = &mut q[1 - who];
                    if other.is_empty() { None } else { Some(other.remove(0)) }
                }
            };
            match m {
                Some(mut m) => {
                    match s.recv_message(&mut m) {
                        Ok(()) => {
                            count[who] += 1;
                            if step[who] < 2 {
                                step[who] += 1;
                            }
                        }
                        Err(_) if poisoned && who == 0 && step[0] == 1 => {}
                        Err(e) => fail!("{:?}: genuine message refused: {}", trace, es(&e)),
                    }
                }
                None => {
                    trace.pop();
                }
            }
        }
        for (x, s) in [&i, &r].iter().enumerate() {
            let who = ["initiator", "responder"][x];
            ensure!(s.is_transport() == (step[x] >= 2), "{:?}: {} established: {}", trace, who, s.is_transport());
            ensure!(s.get_message_count() == count[x], "{:?}: {} counts {} messages instead of {}", trace, who, s.get_message_count(), count[x]);
            ensure!(s.get_handshake_hash().is_some() == (step[x] >= 2), "{:?}: {} handshake hash", trace, who);
            if step[x] < 2 {
                ensure!(s.get_remote_static_public_key().is_none(), "{:?}: {} reports a remote key although not established", trace, who);
            }
        }
    }
    c.show(|| trace.join(", "));
    c.nontrivial = refused > 0;
    if poisoned && step[0] < 2 {
        c.hit("failed attempt");
        return Ok(());
    }
    // whatever happened, the rest of the exchange completes
    let mut m = match a {
        Some(m) => m,
        None => {
            let mut m = vec![0u8; 64];
            ensure!(i.send_message(&mut m).is_ok(), "{:?}: cannot continue with the first message", trace);
            m
        }
    };
    if step[1] == 0 {
        ensure!(r.recv_message(&mut m).is_ok(), "{:?}: the first message is no longer accepted", trace);
    }
    let mut m = match b {
        Some(m) => m,
        None => {
            let mut m = vec![0u8; 128];
            ensure!(r.send_message(&mut m).is_ok(), "{:?}: cannot continue with the reply", trace);
            m
        }
    };
    if step[0] < 2 {
        ensure!(i.recv_message(&mut m).is_ok(), "{:?}: the reply is no longer accepted", trace);
    }
    ensure!(i.is_transport() && r.is_transport() && i.get_handshake_hash() == r.get_handshake_hash(), "{:?}: the two ends do not agree", trace);
    for d in 0..2 {
        for mut m in q[d].drain(..) {
            let s = if d == 0 { &mut r } else { &mut i };
            ensure!(s.recv_message(&mut m).is_ok(), "{:?}: pending message refused", trace);
        }
    }
    carry(&mut i, &mut r, b"end", "at the end")?;
    carry(&mut r, &mut i, b"end", "at the end")?;
    if step == [2, 2] {
        c.hit("established on the way");
    }
    // established once, established for good
    let h = i.get_handshake_hash();
    for _ in 0..c.s.below(7) {
        let s = if c.s.coin() { &mut i } else { &mut r };
        let what = c.s.below(7);
        trace.push(format!("{}", ["clear local", "clear remote", "rekey local", "rekey remote", "ephemeral", "refused message", "counters at their end"][what]));
        match what {
            0 => s.clear_local_cipherstate(),
            1 => s.clear_remote_cipherstate(),
            2 => s.rekey_local_cipherstate(),
            3 => s.rekey_remote_cipherstate(),
            4 => s.set_ephemeral_keypair(Keypair::new_empty()),
            5 => {
                let l = gen_any_size(c);
                let _ = s.recv_message(&mut vec![7u8; l]);
            }
            _ => {
                if set_counters(s, u64::MAX, u64::MAX) {
                    ensure!(s.send_message(&mut [0u8; 32]).is_err(), "{:?}: sent beyond the last counter", trace);
                }
            }
        }
        for s in [&i, &r] {
            ensure!(s.is_transport() && s.get_handshake_hash() == h, "{:?}: no longer established", trace);
        }
        ensure!(i.get_remote_static_public_key().is_some(), "{:?}: no remote key any more", trace);
    }
    Ok(())
}
/// All sequences of up to seven send/receive calls on one side with arbitrary bytes: a side
/// that never saw a genuine counterpart is never established (initiator), and a responder
/// only after receive, then send.
fn c21_alone(c: &mut Case) -> Res {
    let n = c.s.uni(0, C21_SEQS - 1);
    let init = n & 1 == 0;
    let calls = (n >> 1) & 0x7f;
    let size = [16usize, 48, 96, 128][(n >> 8) as usize & 3];
    let k = Keys { is: [51; 32], ie: [52; 32], rs: [53; 32], re: [54; 32] };
    let (i, r) = pair(&k, b"");
    let mut s = if init { i } else { r };
    c.nontrivial = true;
    c.show(|| format!("initiator {}, calls {:07b}, {} bytes", init, calls, size));
    let mut got = 0u32; // the responder's progress
    let mut count = 0;
    for x in 0..7 {
        let send = calls >> x & 1 == 1;
        let mut m = vec![0x33u8; size];
        let res = if send { s.send_message(&mut m) } else { s.recv_message(&mut m) };
        if res.is_ok() {
            count += 1;
            if init {
                ensure!(send && x_first(&mut got), "initiator accepted call {} of {:07b} with made-up bytes", x, calls);
            } else {
                match got {
                    0 => ensure!(!send, "responder sent before receiving"),
                    1 => ensure!(send, "responder received twice"),
                    _ => ensure!(send, "responder accepted made-up bytes"),
                }
                got += 1;
            }
        }
        ensure!(s.is_transport() == (!init && got >= 2), "calls {:07b} up to {}: established {}", calls, x, s.is_transport());
        ensure!(s.get_message_count() == count, "calls {:07b} up to {}: count {} instead of {}", calls, x, s.get_message_count(), count);
    }
    Ok(())
}
fn x_first(got: &mut u32) -> bool {
    *got += 1;
    *got == 1
}
const C21_SEQS: u64 = 2 * 128 * 4;
const MANY: [u32; 4] = [200, 1_300, 9_000, 70_000];

/// However many calls are refused one after another, an established session goes on.
fn c19_refusals(c: &mut Case) -> Res {
    let n = c.s.uni(0, 8 * 4 - 1) as usize;
    let (mode, from_i, times) = (n % 8, n / 8 % 2 == 0, MANY[n / 8]);
    let k = Keys { is: [71; 32], ie: [72; 32], rs: [73; 32], re: [74; 32] };
    let (mut i, mut r) = pair(&k, b"");
    shake(&mut i, &mut r, MIN_A, MIN_B).map_err(|_| Stop::Discard("handshake failed"))?;
    c.nontrivial = true;
    let what = ["made-up bytes", "an altered message", "a replayed message", "too short a message", "too long a message", "its own messages", "sends too short", "sends too long"][mode];
    c.show(|| format!("{} times {}, offered to the {}", times, what, if from_i { "responder" } else { "initiator" }));
    let (tx, rx) = if from_i { (&mut i, &mut r) } else { (&mut r, &mut i) };
    carry(tx, rx, b"before", "before the refusals")?;
    let mut next = buf(b"the next message", 0, 32);
    ensure!(tx.send_message(&mut next).is_ok(), "sending failed");
    let mut own = buf(b"in return", 0, 40);
    ensure!(rx.send_message(&mut own).is_ok(), "sending failed");
    let mut old = buf(b"old", 0, 32);
    if mode == 2 {
        ensure!(tx.send_message(&mut old).is_ok(), "sending failed");
        let mut m = next.clone();
        ensure!(rx.recv_message(&mut m).is_ok(), "message not received");
        std::mem::swap(&mut next, &mut old);
    }
    let mut long = vec![7u8; 65536 + 16];
    let count = rx.get_message_count();
    for x in 0..times {
        let res = match mode {
            0 => rx.recv_message(&mut [x as u8; 33]),
            1 => {
                let mut m = next.clone();
                m[x as usize % 32] ^= 1 << (x / 32 % 8);
                rx.recv_message(&mut m)
            }
            2 => rx.recv_message(&mut old.clone()),
            3 => rx.recv_message(&mut [0u8; 15]),
            4 => rx.recv_message(&mut long),
            5 => rx.recv_message(&mut own.clone()),
            6 => rx.send_message(&mut [0u8; 15]),
            _ => rx.send_message(&mut long),
        };
        ensure!(res.is_err(), "refusal {} of {}: {} accepted", x, times, what);
    }
    ensure!(rx.is_transport() && rx.get_message_count() == count, "{} refusals later: established {}, {} messages counted instead of {}", times, rx.is_transport(), rx.get_message_count(), count);
    let mut m = next.clone();
    ensure!(rx.recv_message(&mut m).is_ok(), "genuine message refused after {} times {}", times, what);
    ensure!(m[16..] == [0u8; 16], "genuine message altered after {} times {}", times, what);
    ensure!(tx.recv_message(&mut own).is_ok(), "message in return refused after {} times {}", times, what);
    carry(tx, rx, b"after", "after the refusals")?;
    carry(rx, tx, b"after", "after the refusals")
}
/// However many calls are refused on the way, the handshake can be completed.
fn c21_refusals(c: &mut Case) -> Res {
    let n = c.s.uni(0, 4 * 4 - 1) as usize;
    let (mode, times) = (n % 4, MANY[n / 4]);
    let k = Keys { is: [75; 32], ie: [76; 32], rs: [77; 32], re: [78; 32] };
    let (mut i, mut r) = pair(&k, b"");
    c.nontrivial = true;
    let what = ["calls out of turn", "calls too short", "calls too long", "sends too short for the handshake"][mode];
    c.show(|| format!("{} times {} in every state", times, what));
    let mut long = vec![7u8; 65536 + 16];
    let mut refuse = |s: &mut NoiseSession, send_next: bool, need: usize| -> Res {
        let count = s.get_message_count();
        for x in 0..times {
            let res = match mode {
                0 if send_next => s.recv_message(&mut [1u8; 128]),
                0 => s.send_message(&mut [1u8; 128]),
                1 if send_next == (x % 2 == 0) => s.send_message(&mut [1u8; 15]),
                1 => s.recv_message(&mut [1u8; 15]),
                2 if send_next == (x % 2 == 0) => s.send_message(&mut long),
                2 => s.recv_message(&mut long),
                _ if send_next => s.send_message(&mut vec![1u8; 16 + x as usize % (need - 16)]),
                _ => return Ok(()),
            };
            ensure!(res.is_err(), "refusal {} of {}: {} accepted", x, times, what);
        }
        ensure!(!s.is_transport() && s.get_message_count() == count, "{} refusals later: established {}, {} messages counted instead of {}", times, s.is_transport(), s.get_message_count(), count);
        Ok(())
    };
    refuse(&mut i, true, MIN_A)?;
    refuse(&mut r, false, 0)?;
    let mut a = vec![0u8; 64];
    ensure!(i.send_message(&mut a).is_ok(), "the initiator cannot start after {} times {}", times, what);
    refuse(&mut i, false, 0)?;
    ensure!(r.recv_message(&mut a).is_ok(), "the responder refuses the first message after {} times {}", times, what);
    refuse(&mut r, true, MIN_B)?;
    let mut b = vec![0u8; 128];
    ensure!(r.send_message(&mut b).is_ok(), "the responder cannot reply after {} times {}", times, what);
    ensure!(i.recv_message(&mut b).is_ok() && i.is_transport() && r.is_transport(), "the initiator refuses the reply after {} times {}", times, what);
    ensure!(i.get_handshake_hash() == r.get_handshake_hash(), "the hashes differ after {} times {}", times, what);
    carry(&mut i, &mut r, b"end", "at the end")?;
    carry(&mut r, &mut i, b"end", "at the end")
}

/// Sessions that carry more messages than fit a 16-bit counter.
fn c21_long(c: &mut Case) -> Res {
    long_session(c, true)
}
fn c19_very_long(c: &mut Case) -> Res {
    long_session(c, false)
}
fn long_session(c: &mut Case, counts: bool) -> Res {
    let n = c.s.uni(0, 2);
    let (mut i, mut r) = pair(&Keys { is: [61; 32], ie: [62; 32], rs: [63; 32], re: [64; 32] }, b"");
    shake(&mut i, &mut r, 64, 128).map_err(|_| Stop::Discard("handshake failed"))?;
    c.nontrivial = true;
    // deeper when more is asked for: beyond 2^24 messages
    let total = if c.thorough { 17_000_000u32 } else { 1_100_000 };
    c.show(|| format!("{} messages, directions {}", total, ["initiator to responder", "responder to initiator", "alternating"][n as usize]));
    for x in 0..total {
        let (from, to) = match n {
            0 => (&mut i, &mut r),
            1 => (&mut r, &mut i),
            _ if x % 2 == 0 => (&mut i, &mut r),
            _ => (&mut r, &mut i),
        };
        let mut m = [0u8; 20];
        m[..4].copy_from_slice(&x.to_le_bytes());
        if let Err(e) = from.send_message(&mut m) {
            fail!("message {} not sent: {}", x, es(&e));
        }
        if let Err(e) = to.recv_message(&mut m) {
            fail!("message {} not received: {}", x, es(&e));
        }
        ensure!(m[..4] == x.to_le_bytes(), "message {} arrived as {}", x, hex(&m));
        for s in if counts { [Some(&i), Some(&r)] } else { [None, None] }.into_iter().flatten() {
            ensure!(s.is_transport(), "no longer established after {} messages", x + 1);
            ensure!(s.get_message_count() == u128::from(x) + 3, "{} messages counted after {}", s.get_message_count(), x + 3);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22
fn hexstr(k: &K, upper: bool) -> String {
    k.iter().map(|b| if upper { format!("{:02X}", b) } else { format!("{:02x}", b) }).collect()
}
fn refused_everywhere(c: &mut Case, bad: &K) -> Res {
    ensure!(PublicKey::from_bytes(*bad).is_err(), "from_bytes accepts {}", hex(bad));
    ensure!(PublicKey::from_str(&hexstr(bad, false)).is_err(), "from_str accepts {}", hex(bad));
    ensure!(PublicKey::from_str(&hexstr(bad, true)).is_err(), "from_str accepts {} in upper case", hex(bad));
    // and with any digit in either case
    let m = c.s.uni(0, u64::MAX);
    for m in [m, 0xaaaa_aaaa_aaaa_aaaa, !0xaaaa_aaaa_aaaa_aaaa, 0xffff_ffff, !0xffff_ffff] {
        let t: String = hexstr(bad, false).chars().enumerate().map(|(i, d)| if m >> i & 1 == 1 { d.to_ascii_uppercase() } else { d }).collect();
        ensure!(PublicKey::from_str(&t).is_err(), "from_str accepts {}", t);
    }
    let k = rand_keys(c);
    let pro = gen_prologue(c);
    // in a first message
    let mut r = session(false, &pro, &k.rs, Some(&k.re));
    let l = gen_size_to(c, MIN_A, 3000);
    let pa = c.s.bytes(l - 32);
    let mut m = bad.to_vec();
    m.extend_from_slice(&pa);
    ensure!(r.recv_message(&mut m).is_err(), "first message with key {} accepted", hex(bad));
    let mut m = vec![0u8; 200];
    let _ = r.send_message(&mut m);
    ensure!(!r.is_transport(), "responder established with key {}", hex(bad));
    let mut enc = ConnectionEncryptor::new_inbound(Some(kp(&k.rs)));
    let mut m = bad.to_vec();
    m.extend_from_slice(&pa);
    ensure!(enc.recv_handshake(&mut m).is_err() && !enc.is_handshake_complete(), "wrapper: first message with key {} accepted", hex(bad));
    // as the ephemeral key of a reply whose sender knows the constant secret
    for which in 0..2 {
        let mut i = session(true, &pro, &k.is, Some(&k.ie));
        let mut m = vec![0u8; 64];
        if i.send_message(&mut m).is_err() {
            return Err(Stop::Discard("handshake failed"));
        }
        let lb = gen_size_to(c, MIN_B, 3000);
        let pb = c.s.bytes(lb - MIN_B);
        let secret = nr::dh(&k.ie, bad);
        let mut re = Ref::new(false, &pro, k.rs, k.re);
        re.read_a(&m);
        let b = if which == 0 { re.write_b_raw(bad, &secret, &nr::public(&k.rs), None, &pb) } else { re.write_b_raw(&nr::public(&k.re), &nr::dh(&k.re, &nr::public(&k.ie)), bad, Some(&secret), &pb) };
        let mut g = b.clone();
        let ok = i.recv_message(&mut g).is_ok();
        ensure!(!ok && !i.is_transport() && i.get_remote_static_public_key().is_none(), "established with {} key {}", ["ephemeral", "static"][which], hex(bad));
        let mut g = b;
        let _ = i.recv_message(&mut g);
        ensure!(!i.is_transport(), "established with {} key {} on the second attempt", ["ephemeral", "static"][which], hex(bad));
    }
    Ok(())
}
fn c22_bad(c: &mut Case) -> Res {
    let list = nr::small_order_encodings();
    let n = c.s.uni(0, list.len() as u64 * 4 - 1) as usize;
    let bad = list[n % list.len()];
    c.show(|| hex(&bad));
    c.nontrivial = true;
    refused_everywhere(c, &bad)
}
fn c22_bad_random(c: &mut Case) -> Res {
    let list = nr::small_order_encodings();
    let bad = *c.s.pick(&list);
    c.show(|| hex(&bad));
    c.nontrivial = true;
    refused_everywhere(c, &bad)
}
fn check_good(k: &K) -> Res {
    match PublicKey::from_bytes(*k) {
        Ok(p) => ensure!(p.as_bytes() == *k, "key {} became {}", hex(k), hex(&p.as_bytes())),
        Err(_) => fail!("key {} refused", hex(k)),
    }
    match PublicKey::from_str(&hexstr(k, false)) {
        Ok(p) => ensure!(p.as_bytes() == *k, "text key {} became {}", hex(k), hex(&p.as_bytes())),
        Err(_) => fail!("text key {} refused", hex(k)),
    }
    Ok(())
}
fn c22_others(c: &mut Case) -> Res {
    let list = nr::small_order_encodings();
    let k = match c.s.weighted(&[3, 3, 2, 2]) {
        0 => c.s.key32(),
        1 => {
            let mut k = *c.s.pick(&list);
            for _ in 0..1 + c.s.below(2) {
                let p = c.s.below(256);
                k[p / 8] ^= 1 << (p % 8);
            }
            k
        }
        2 => c.s.arr32(),
        _ => {
            // near p and 2p, 0, 2^255
            let mut k = [0xffu8; 32];
            k[31] = if c.s.coin() { 0x7f } else { 0xff };
            if c.s.one_in(4) {
                k = [0; 32];
            }
            k[0] = c.s.uni(0, 255) as u8;
            k
        }
    };
    c.show(|| hex(&k));
    c.nontrivial = true;
    if list.contains(&k) {
        ensure!(PublicKey::from_bytes(k).is_err() && PublicKey::from_str(&hexstr(&k, false)).is_err(), "small-order key {} accepted", hex(&k));
        return Ok(());
    }
    check_good(&k)
}
/// Every key one bit away from a refused one, and every value of the lowest byte next to
/// 0, p, 2p and 2^255.
fn c22_neighbours(c: &mut Case) -> Res {
    let list = nr::small_order_encodings();
    let n = c.s.uni(0, C22_N - 1) as usize;
    let k = if n < 19 * 256 {
        let mut k = list[n / 256];
        k[n % 256 / 8] ^= 1 << (n % 8);
        k
    } else {
        let n = n - 19 * 256;
        let mut k = [[0u8; 32], [0xff; 32]][n / 512 % 2];
        k[31] = [0, 0x7f, 0x80, 0xff][(n / 256) % 2 + n / 512 % 2 * 2];
        if n / 512 % 2 == 1 {
            k[31] = [0x7f, 0xff][n / 256 % 2];
        } else {
            k[31] = [0, 0x80][n / 256 % 2];
        }
        k[0] = (n % 256) as u8;
        k
    };
    c.nontrivial = true;
    if list.contains(&k) {
        ensure!(PublicKey::from_bytes(k).is_err(), "small-order key {} accepted", hex(&k));
        return Ok(());
    }
    check_good(&k)
}
const C22_N: u64 = 19 * 256 + 1024;
/// A session with any acceptable key works.
fn c22_accept(c: &mut Case) -> Res {
    // x-coordinates of arbitrary strings: use them as the initiator's ephemeral
    let k = rand_keys(c);
    let list = nr::small_order_encodings();
    let mut e = if c.s.coin() { c.s.key32() } else { c.s.arr32() };
    if list.contains(&e) {
        e[5] ^= 0x40;
    }
    c.nontrivial = true;
    c.show(|| hex(&e));
    let mut r = session(false, b"", &k.rs, Some(&k.re));
    let mut m = e.to_vec();
    m.extend_from_slice(&[0u8; 16]);
    ensure!(r.recv_message(&mut m).is_ok(), "first message with key {} refused", hex(&e));
    let mut m = vec![0u8; 128];
    ensure!(r.send_message(&mut m).is_ok() && r.is_transport(), "reply to key {} refused", hex(&e));
    Ok(())
}

// ---------------------------------------------------------------- C23
fn c23_many_rekeys(c: &mut Case) -> Res {
    many_rekeys(c, false)
}
fn c23_history(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let (mut i, mut r) = established(c, &k, b"")?;
    // per direction and end: number of rekeys, cleared?; per direction: counters
    let mut gen = [[0u32; 2]; 2];
    let mut cleared = [[false; 2]; 2];
    let mut tx = [0u64; 2];
    let mut rx = [0u64; 2];
    let mut q: [Vec<(u32, u64, Vec<u8>)>; 2] = [vec![], vec![]];
    let n = 1 + c.s.len(40);
    let mut trace: Vec<String> = vec![];
    if c.s.one_in(4) {
        // long-lived sessions: counters next to powers of two
        let mut at = || (1u64 << c.s.below(64)).wrapping_sub(c.s.below(8) as u64).min(u64::MAX - 100);
        let (a, b) = (at(), at());
        if set_counters(&mut i, a, b) && set_counters(&mut r, a, b) {
            tx = [a, b];
            rx = [a, b];
            trace.push(format!("counters {} {}", a, b));
        }
    }
    let (mut keyops, mut moved) = (0, 0);
    let mut refused = 0;
    let ends = |d: usize| -> (usize, usize) { (d, 1 - d) }; // (sender end, receiver end)
    for _ in 0..n {
        let d = c.s.below(2);
        let (se, re) = ends(d);
        match c.s.weighted(&[6, 6, 2, 2, 1]) {
            0 => {
                let l = c.s.len(60);
                let mut m = vec![0x77u8; l + 16];
                let keep = m.clone();
                let s = if se == 0 { &mut i } else { &mut r };
                let res = s.send_message(&mut m);
                trace.push(format!("d{} send", d));
                if cleared[d][se] {
                    ensure!(res.is_err(), "{:?}: sent with a cleared key", trace);
                    ensure!(m == keep || m.iter().all(|x| *x == 0), "{:?}: encrypted with a cleared key", trace);
                    refused += 1;
                } else {
                    if let Err(e) = res {
                        fail!("{:?}: sending refused: {}", trace, es(&e));
                    }
                    q[d].push((gen[d][se], tx[d], m));
                    tx[d] += 1;
                }
            }
            1 => {
                if q[d].is_empty() {
                    continue;
                }
                let x = if c.s.one_in(4) { c.s.below(q[d].len()) } else { q[d].iter().position(|m| m.1 >= rx[d]).unwrap_or(0) };
                let (g, num, m) = q[d][x].clone();
                let s = if re == 0 { &mut i } else { &mut r };
                let mut b = m.clone();
                let res = s.recv_message(&mut b);
                trace.push(format!("d{} deliver {} (key {})", d, num, g));
                let want = !cleared[d][re] && g == gen[d][re] && num == rx[d];
                if want {
                    if let Err(e) = res {
                        fail!("{:?}: genuine message refused: {}", trace, es(&e));
                    }
                    ensure!(b[..b.len() - 16].iter().all(|x| *x == 0x77), "{:?}: arrived altered", trace);
                    rx[d] += 1;
                    moved += 1;
                } else {
                    ensure!(res.is_err(), "{:?}: accepted", trace);
                    refused += 1;
                }
            }
            2 => {
                // both ends rekey the same direction
                for s in [&mut i, &mut r] {
                    if d == 0 { s.rekey_local_cipherstate() } else { s.rekey_remote_cipherstate() }
                }
                gen[d][0] += 1;
                gen[d][1] += 1;
                trace.push(format!("d{} rekey both", d));
                keyops += 1;
            }
            3 => {
                let e = c.s.below(2);
                let s = if e == 0 { &mut i } else { &mut r };
                if d == 0 { s.rekey_local_cipherstate() } else { s.rekey_remote_cipherstate() }
                gen[d][e] += 1;
                trace.push(format!("d{} rekey end {}", d, e));
                keyops += 1;
            }
            _ => {
                let e = c.s.below(2);
                let s = if e == 0 { &mut i } else { &mut r };
                if d == 0 { s.clear_local_cipherstate() } else { s.clear_remote_cipherstate() }
                cleared[d][e] = true;
                trace.push(format!("d{} clear end {}", d, e));
                keyops += 1;
            }
        }
        ensure!(i.is_transport() && r.is_transport(), "{:?}: no longer established", trace);
    }
    // a cleared direction cannot be used with the all-zero key or any other guess
    for d in 0..2 {
        let (_, re) = ends(d);
        if cleared[d][re] {
            let zero = [0u8; 32];
            for key in [zero, nr::rekey(&zero)] {
                for num in [0, rx[d]] {
                    let mut m = nr::seal(&key, num, &[], b"forged");
                    let s = if re == 0 { &mut i } else { &mut r };
                    ensure!(s.recv_message(&mut m).is_err(), "{:?}: a message under a known key is accepted after clearing", trace);
                }
            }
        }
    }
    // both directions go on, each as the model says
    for d in 0..2 {
        let (se, re) = ends(d);
        let (a, b) = if se == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
        let mut m = vec![0x55u8; 30];
        let res = a.send_message(&mut m);
        ensure!(res.is_ok() != cleared[d][se], "{:?}: then direction {} sends: {}", trace, d, res.is_ok());
        if res.is_ok() {
            let want = !cleared[d][re] && gen[d][0] == gen[d][1] && tx[d] == rx[d];
            let got = b.recv_message(&mut m).is_ok();
            ensure!(got == want, "{:?}: then direction {} delivers: {} instead of {}", trace, d, got, want);
        }
    }
    c.show(|| trace.join(", "));
    c.nontrivial = keyops > 0 && moved > 0;
    if refused > 0 {
        c.hit("with refusals");
    }
    Ok(())
}
/// All short histories of key operations, exhaustively.
fn c23_all(c: &mut Case) -> Res {
    // 3 operations out of 8 (rekey/clear x direction x end), then traffic both ways
    let n = c.s.uni(0, 8 * 8 * 8 - 1);
    let k = Keys { is: [61; 32], ie: [62; 32], rs: [63; 32], re: [64; 32] };
    let (mut i, mut r) = pair(&k, b"");
    if shake(&mut i, &mut r, MIN_A, MIN_B).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    c.nontrivial = true;
    let mut gen = [[0u32; 2]; 2];
    let mut cleared = [[false; 2]; 2];
    let mut broken = [false; 2];
    for x in 0..3 {
        let op = (n >> (3 * x)) & 7;
        let (d, e, clear) = ((op & 1) as usize, (op >> 1 & 1) as usize, op >> 2 == 1);
        let s = if e == 0 { &mut i } else { &mut r };
        match (clear, d) {
            (false, 0) => s.rekey_local_cipherstate(),
            (false, _) => s.rekey_remote_cipherstate(),
            (true, 0) => s.clear_local_cipherstate(),
            (true, _) => s.clear_remote_cipherstate(),
        }
        if clear {
            cleared[d][e] = true;
        } else {
            gen[d][e] += 1;
        }
        for d in 0..2 {
            let (a, b) = if d == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
            let mut m = vec![0x55u8; 30];
            let res = a.send_message(&mut m).is_ok();
            ensure!(res != cleared[d][d], "operations {:09b} up to {}: direction {} sends: {}", n, x, d, res);
            if res {
                let want = !cleared[d][1 - d] && gen[d][0] == gen[d][1] && !broken[d];
                let got = b.recv_message(&mut m).is_ok();
                ensure!(got == want, "operations {:09b} up to {}: direction {} delivers: {} instead of {}", n, x, d, got, want);
                if !got {
                    broken[d] = true; // the counters no longer match
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24
fn raw<T>(x: &T) -> Vec<u8> {
    let p = x as *const T as *const u8;
    (0..std::mem::size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
}
/// Does any 8-byte window of the secret appear in the object?
fn holds(mem: &[u8], secret: &K) -> bool {
    secret.windows(8).any(|w| w.iter().any(|x| *x != 0) && mem.windows(8).any(|m| m == w))
}
/// Keys with no repeated structure, so that a match is not an accident.
fn c24_session(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let pro = gen_prologue(c);
    let (la, lb) = (gen_size(c, MIN_A).min(3000), gen_size(c, MIN_B).min(3000));
    let fixed = !c.s.one_in(4);
    c.nontrivial = true;
    // memory the sessions allocate and keep counts as part of them
    use crate::alloc::recorded;
    crate::alloc::forget();
    let mut i = recorded(0, || session(true, &pro, &k.is, if fixed { Some(&k.ie) } else { None }));
    let mut r = recorded(1, || session(false, &pro, &k.rs, if fixed { Some(&k.re) } else { None }));
    let whole = |s: &NoiseSession, e: usize| {
        let mut m = raw(s);
        crate::alloc::kept(e, &mut m);
        m
    };
    let pa = c.s.bytes(la - 32);
    let pb = c.s.bytes(lb - MIN_B);
    let mut m = buf(&pa, 32, la);
    let mut ok = recorded(0, || i.send_message(&mut m)).is_ok();
    ok = ok && recorded(1, || r.recv_message(&mut m)).is_ok();
    let mut b = buf(&pb, 80, lb);
    ok = ok && recorded(1, || r.send_message(&mut b)).is_ok();
    ok = ok && recorded(0, || i.recv_message(&mut b)).is_ok();
    if !ok {
        return Err(Stop::Discard("handshake failed"));
    }
    // what the handshake went through
    let mut re = Ref::new(false, &pro, k.rs, k.re);
    let mut secrets = vec![];
    let mut keys = [None, None];
    if fixed {
        let mut x = Ref::new(true, &pro, k.is, k.ie);
        let ma = x.write_a(&pa);
        re.read_a(&ma);
        re.write_b(&pb);
        secrets = re.secrets.clone();
        secrets.push(("the ephemeral private key", k.ie));
        secrets.push(("the ephemeral private key", k.re));
        keys = [re.c1.k, re.c2.k];
    }
    secrets.push(("the static private key", k.is));
    secrets.push(("the static private key", k.rs));
    let nops = if c.s.one_in(3) { c.s.below(14) } else { c.s.below(5) };
    let mut trace = vec![];
    for x in 0..=nops {
        for (n, who, s) in [(0, "initiator", &i), (1, "responder", &r)] {
            let mem = whole(s, n);
            for (what, sec) in &secrets {
                ensure!(!holds(&mem, sec), "{:?}: the established {} still holds {}", trace, who, what);
            }
        }
        if x == nops {
            break;
        }
        let e = c.s.below(2);
        let d = c.s.below(2);
        let s = if e == 0 { &mut i } else { &mut r };
        let old = keys[d];
        match c.s.below(3) {
            0 => {
                trace.push(format!("rekey {} at {}", d, e));
                recorded(e, || if d == 0 { s.rekey_local_cipherstate() } else { s.rekey_remote_cipherstate() });
                if let Some(o) = old {
                    ensure!(!holds(&whole(s, e), &o), "{:?}: the previous key is still there", trace);
                }
                // the other end still uses the old key: follow it too
                let s = if e == 0 { &mut r } else { &mut i };
                recorded(1 - e, || if d == 0 { s.rekey_local_cipherstate() } else { s.rekey_remote_cipherstate() });
                if let Some(o) = old {
                    ensure!(!holds(&whole(s, 1 - e), &o), "{:?}: the previous key is still there at the other end", trace);
                    secrets.push(("a previous transport key", o));
                    keys[d] = Some(nr::rekey(&o));
                }
            }
            1 => {
                trace.push(format!("clear {} at {}", d, e));
                recorded(e, || if d == 0 { s.clear_local_cipherstate() } else { s.clear_remote_cipherstate() });
                if let Some(o) = old {
                    ensure!(!holds(&whole(s, e), &o), "{:?}: the cleared key is still there", trace);
                }
            }
            _ => {
                let burst = if c.s.coin() { 1 } else { 1 + c.s.len(300) };
                trace.push(format!("{} messages from {}", burst, e));
                let (a, b) = if e == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
                for _ in 0..burst {
                    let mut m = vec![0u8; 40];
                    if recorded(e, || a.send_message(&mut m)).is_ok() {
                        let _ = recorded(1 - e, || b.recv_message(&mut m));
                    }
                }
            }
        }
    }
    c.show(|| format!("ephemerals fixed {}, {:?}", fixed, trace));
    Ok(())
}
fn c24_keypair(c: &mut Case) -> Res {
    let k = c.s.key32();
    let mut p = kp(&k);
    let pubk = p.get_public_key().as_bytes();
    c.nontrivial = true;
    c.show(|| hex(&k));
    let mut q = p.clone();
    p.clear();
    let mem = raw(&p);
    ensure!(!holds(&mem, &k), "a cleared key pair holds its private key");
    ensure!(!holds(&mem, &pubk), "a cleared key pair holds its public key");
    ensure!(p.is_empty(), "a cleared key pair is not empty");
    ensure!(p.get_public_key().as_bytes() == [0; 32], "a cleared key pair reports a public key");
    ensure!(q.get_public_key().as_bytes() == pubk, "clearing one key pair changed its copy");
    q.clear();
    let mut d = Keypair::default();
    let dp = d.get_public_key().as_bytes();
    d.clear();
    ensure!(d.is_empty() && !holds(&raw(&d), &dp), "a cleared generated key pair is not empty");
    Ok(())
}
fn c24_wrapper(c: &mut Case) -> Res {
    let k = c.s.key32();
    c.nontrivial = true;
    c.show(|| hex(&k));
    let mut i = ConnectionEncryptor::new_outbound();
    let mut r = ConnectionEncryptor::new_inbound(Some(kp(&k)));
    let mut x = i.init_handshake().map_err(|_| Stop::Discard("handshake failed"))?;
    let mut y = r.recv_handshake(&mut x).map_err(|_| Stop::Discard("handshake failed"))?;
    ensure!(!r.is_handshake_complete() || !holds(&raw(&r), &k), "the completed wrapper holds its static private key");
    let _ = i.recv_handshake(&mut y);
    ensure!(!holds(&raw(&r), &k), "the completed wrapper holds its static private key");
    Ok(())
}

// ---------------------------------------------------------------- C25
/// Private key of a key pair, if the object stores it plainly.
fn private_of(p: &Keypair) -> Option<K> {
    let mem = raw(p);
    if mem.len() != 64 {
        return None;
    }
    let pubk = p.get_public_key().as_bytes();
    for (a, b) in [(0, 32), (32, 0)] {
        let mut k = [0u8; 32];
        k.copy_from_slice(&mem[a..a + 32]);
        if mem[b..b + 32] == pubk && nr::public(&k) == pubk {
            return Some(k);
        }
    }
    None
}
/// One value from each source of randomness.
fn sample(kind: usize) -> K {
    sample_sized(kind, 64, 128)
}
/// The same with messages of a given size, where the size is free.
fn sample_sized(kind: usize, la: usize, lb: usize) -> K {
    match kind {
        7 => {
            // a session set up by hand with a fixed static key
            let mut s = NoiseSession::init_session(true, b"prologue", kp(&[5; 32]));
            let mut m = vec![0u8; la];
            let _ = s.send_message(&mut m);
            let mut k = [0; 32];
            k.copy_from_slice(&m[..32]);
            k
        }
        8 => {
            let mut r = NoiseSession::init_session(false, b"prologue", kp(&[6; 32]));
            let mut m = vec![9u8; la];
            let _ = r.recv_message(&mut m);
            let mut m = vec![0u8; lb];
            let _ = r.send_message(&mut m);
            let mut k = [0; 32];
            k.copy_from_slice(&m[..32]);
            k
        }
        0 => Keypair::default().get_public_key().as_bytes(),
        1 => {
            let mut s = new_noise_initiator();
            let mut m = vec![0u8; la];
            let _ = s.send_message(&mut m);
            let mut k = [0; 32];
            k.copy_from_slice(&m[..32]);
            k
        }
        2 => {
            // responder ephemeral
            let mut r = new_noise_responder(Some(kp(&[3; 32])));
            let mut m = vec![9u8; la];
            let _ = r.recv_message(&mut m);
            let mut m = vec![0u8; lb];
            let _ = r.send_message(&mut m);
            let mut k = [0; 32];
            k.copy_from_slice(&m[..32]);
            k
        }
        3 => {
            // default static key of a responder, as the initiator sees it
            let mut i = new_noise_initiator();
            let mut r = new_noise_responder(None);
            let _ = shake(&mut i, &mut r, 64, 128);
            i.get_remote_static_public_key().map(|k| k.as_bytes()).unwrap_or([0; 32])
        }
        4 => generate_authority_keypair().public.to_bytes(),
        5 => {
            let mut i = ConnectionEncryptor::new_outbound();
            let m = i.init_handshake().unwrap_or_default();
            let mut k = [0; 32];
            if m.len() >= 32 {
                k.copy_from_slice(&m[..32]);
            }
            k
        }
        _ => {
            let mut i = ConnectionEncryptor::new_outbound();
            let mut r = ConnectionEncryptor::new_inbound(None);
            if let Ok(mut x) = i.init_handshake() {
                if let Ok(mut y) = r.recv_handshake(&mut x) {
                    let _ = i.recv_handshake(&mut y);
                }
            }
            i.get_remote_pubkey().map(|k| k.as_bytes()).unwrap_or([0; 32])
        }
    }
}
pub const KINDS: usize = 9;
/// Used by the `samples` command: a fresh process with a frozen clock.
pub fn print_samples(n: usize, how: &str, before: usize) {
    crate::clock::freeze_forever(1_700_000_000);
    match how {
        "alike" => crate::clock::look_alike(),
        // what the process generates before it splits in two, and what both halves do afterwards
        "fork" => {
            // (an odd or even number of keys may be left in a generator's buffer)
            for _ in 0..before {
                let _ = (sample(0), new_channel_id());
            }
            let kept: Vec<K> = (0..KINDS).map(sample).collect();
            let id = new_channel_id();
            for k in &kept {
                println!("{}", hexstr(k, false));
            }
            println!("id {}", id);
            let _ = std::io::Write::flush(&mut std::io::stdout());
            let mut st = 0;
            unsafe {
                let p = libc::fork();
                if p > 0 {
                    libc::waitpid(p, &mut st, 0);
                }
            }
        }
        _ => {}
    }
    for kind in 0..KINDS {
        for _ in 0..n {
            println!("{}", hexstr(&sample(kind), false));
        }
    }
    for _ in 0..n {
        println!("id {}", new_channel_id());
    }
}
fn c25_fresh(c: &mut Case) -> Res {
    let threads = 1 + c.s.below(6);
    let per = 4 + c.s.below(60);
    let kinds: Vec<usize> = (0..3).map(|_| c.s.below(KINDS)).collect();
    let (la, lb) = (if c.s.coin() { gen_size(c, MIN_A).min(2000) } else { MIN_A }, if c.s.coin() { gen_size(c, MIN_B).min(2000) } else { MIN_B });
    c.show(|| format!("{} threads, {} values each of kinds {:?}, messages of {} and {} bytes", threads, per, kinds, la, lb));
    c.nontrivial = true;
    let all: Vec<Vec<(usize, K)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let kinds = kinds.clone();
                sc.spawn(move || {
                    crate::clock::at(1_700_000_000, 5, || (0..per).flat_map(|_| kinds.iter().map(|k| (*k, sample_sized(*k, la, lb))).collect::<Vec<_>>()).collect::<Vec<_>>())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut seen: HashMap<K, usize> = HashMap::new();
    for (kind, k) in all.into_iter().flatten() {
        ensure!(k != [0; 32], "kind {}: a zero key", kind);
        for x in [3u8, 5, 6] {
            ensure!(k != nr::public(&[x; 32]), "kind {}: the static key served as ephemeral key", kind);
        }
        if let Some(o) = seen.insert(k, kind) {
            fail!("the key {} was generated twice (kinds {} and {})", hex(&k), o, kind);
        }
    }
    Ok(())
}
/// So many values that a hidden seed of 32 bits shows (300000 draws from 2^32 collide
/// with probability above 1 - 3e-5, and from 2^128 or more with less than 1e-27).
fn c25_birthday(c: &mut Case) -> Res {
    let kind = [0usize, 1, 4][c.s.below(3)];
    let (threads, per) = (6usize, 50_000usize);
    c.nontrivial = true;
    c.show(|| format!("{} threads, {} values each of kind {}", threads, per, kind));
    let mut all: Vec<K> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|_| sc.spawn(move || (0..per).map(|_| sample(kind)).collect::<Vec<_>>())).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    all.sort_unstable();
    for w in all.windows(2) {
        ensure!(w[0] != w[1], "the key {} of kind {} was generated twice", hex(&w[0]), kind);
    }
    Ok(())
}
/// Other processes, with the same frozen clock, generate other values.
fn c25_processes(c: &mut Case) -> Res {
    let n = c.s.uni(0, 23);
    let how = ["plain", "alike", "fork"][n as usize % 3];
    let before = (n / 3).to_string();
    c.nontrivial = true;
    c.show(|| format!("three processes, {}", how));
    let exe = std::env::current_exe().map_err(|_| Stop::Discard("no executable"))?;
    let mut seen = HashSet::new();
    let mut ids: HashMap<u32, u32> = HashMap::new();
    for _ in 0..3 {
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["samples", "6", how, &before]);
        if how == "alike" {
            use std::os::unix::process::CommandExt;
            unsafe {
                cmd.pre_exec(|| {
                    // the same addresses in each, where that is allowed
                    libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
                    Ok(())
                });
            }
        }
        let o = cmd.output().map_err(|_| Stop::Discard("no process"))?;
        let t = String::from_utf8_lossy(&o.stdout).into_owned();
        let lines: Vec<&str> = t.lines().collect();
        let want = if how == "fork" { (KINDS + 1) * 13 } else { (KINDS + 1) * 6 };
        if lines.len() != want {
            return Err(Stop::Discard("no samples"));
        }
        for l in lines {
            if let Some(id) = l.strip_prefix("id ") {
                *ids.entry(id.parse().unwrap_or(0)).or_insert(0) += 1;
            } else {
                ensure!(seen.insert(l.to_string()), "the key {} was generated in two processes ({})", l, how);
            }
        }
    }
    // 18 or 39 identifiers: three or more coincidences do not happen by chance (p < 1e-20)
    let rep: u32 = ids.values().map(|v| v - 1).sum();
    ensure!(rep < 3, "{} channel identifiers repeat across processes ({})", rep, how);
    Ok(())
}
/// Rank over GF(2) of the differences of n keys: full rank unless bits are fixed or tied.
fn rank(keys: &[K], bits: &[usize]) -> usize {
    let mut rows: Vec<[u64; 4]> = keys
        .iter()
        .skip(1)
        .map(|k| {
            let mut r = [0u64; 4];
            for (i, b) in bits.iter().enumerate() {
                let v = (k[b / 8] ^ keys[0][b / 8]) >> (b % 8) & 1;
                r[i / 64] |= (v as u64) << (i % 64);
            }
            r
        })
        .collect();
    let mut rank = 0;
    for i in 0..bits.len() {
        if let Some(p) = (rank..rows.len()).find(|r| rows[*r][i / 64] >> (i % 64) & 1 == 1) {
            rows.swap(rank, p);
            let pr = rows[rank];
            for (x, row) in rows.iter_mut().enumerate() {
                if x != rank && row[i / 64] >> (i % 64) & 1 == 1 {
                    for w in 0..4 {
                        row[w] ^= pr[w];
                    }
                }
            }
            rank += 1;
        }
    }
    rank
}
fn c25_private(c: &mut Case) -> Res {
    let n = 640;
    let _ = c.s.uni(0, u64::MAX);
    c.nontrivial = true;
    let kind = c.s.below(2);
    let keys: Vec<K> = if kind == 0 {
        (0..n).filter_map(|_| private_of(&Keypair::default())).collect()
    } else {
        (0..n).map(|_| generate_authority_keypair().secret.to_bytes()).collect()
    };
    if keys.len() < n {
        return Err(Stop::Discard("private keys are not visible"));
    }
    c.show(|| format!("{} private keys of kind {}", n, kind));
    // X25519 fixes bits 0, 1, 2, 254 and 255
    let bits: Vec<usize> = if kind == 0 { (3..254).collect() } else { (0..256).collect() };
    // 640 random vectors miss full rank with probability below 2^-380
    let r = rank(&keys, &bits);
    ensure!(r == bits.len(), "private keys of kind {} vary in only {} of {} independent bits", kind, r, bits.len());
    for b in bits {
        let ones = keys.iter().filter(|k| k[b / 8] >> (b % 8) & 1 == 1).count();
        // 640 coin flips: mean 320, sigma 12.6; 10 sigma
        ensure!((194..=446).contains(&ones), "bit {} of private keys of kind {} is set {} times in {}", b, kind, ones, n);
    }
    Ok(())
}
fn c25_ids(c: &mut Case) -> Res {
    let n = 200_000usize;
    let threads = 1 + c.s.below(4);
    let _ = c.s.uni(0, u64::MAX);
    c.nontrivial = true;
    c.show(|| format!("{} identifiers from {} threads", n, threads));
    let v: Vec<u32> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads).map(|_| sc.spawn(move || (0..n / threads).map(|_| new_channel_id()).collect::<Vec<u32>>())).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    let n = v.len();
    let mut s = v.clone();
    s.sort_unstable();
    let rep = s.windows(2).filter(|w| w[0] == w[1]).count();
    // expected 4.7 repetitions (Poisson); 40 has probability below 1e-20
    ensure!(rep < 40, "{} of {} channel identifiers repeat", rep, n);
    for b in 0..32 {
        let ones = v.iter().filter(|x| *x >> b & 1 == 1).count() as f64;
        let sigma = (n as f64).sqrt() / 2.0;
        ensure!((ones - n as f64 / 2.0).abs() < 10.0 * sigma, "bit {} of channel identifiers is set {} times in {}", b, ones, n);
    }
    // 256 equal ranges and 256 residues
    for (what, f) in [("range", (|x: u32| (x >> 24) as usize) as fn(u32) -> usize), ("residue", |x| x as usize & 255), ("middle", |x| (x >> 12) as usize & 255)] {
        let mut h = [0usize; 256];
        v.iter().for_each(|x| h[f(*x)] += 1);
        let m = n as f64 / 256.0;
        for (i, x) in h.iter().enumerate() {
            ensure!((*x as f64 - m).abs() < 10.0 * m.sqrt(), "{} {} of channel identifiers occurs {} times instead of about {:.0}", what, i, x, m);
        }
    }
    // no bits are tied: random identifiers miss full rank with probability below 2^-500
    let keys: Vec<K> = v
        .iter()
        .take(600)
        .map(|x| {
            let mut k = [0; 32];
            k[..4].copy_from_slice(&x.to_le_bytes());
            k
        })
        .collect();
    let r = rank(&keys, &(0..32).collect::<Vec<_>>());
    ensure!(r == 32, "channel identifiers vary in only {} of 32 independent bits", r);
    // consecutive identifiers are not tied
    let mut d: HashMap<u32, usize> = HashMap::new();
    v.windows(2).for_each(|w| *d.entry(w[1].wrapping_sub(w[0])).or_insert(0) += 1);
    let top = d.values().max().copied().unwrap_or(0);
    ensure!(top < 20, "{} of {} channel identifiers follow their predecessor at the same distance", top, n);
    Ok(())
}

// ---------------------------------------------------------------- C30
fn key_text(c: &mut Case) -> String {
    let k = if c.s.one_in(3) { c.s.arr32() } else { c.s.key32() };
    let mut t: Vec<char> = hexstr(&k, false).chars().collect();
    match c.s.below(3) {
        0 => {}
        1 => t.iter_mut().for_each(|x| *x = x.to_ascii_uppercase()),
        _ => {
            let mut r = Rng::new(c.s.uni(0, u64::MAX));
            t.iter_mut().for_each(|x| {
                if r.one_in(2) {
                    *x = x.to_ascii_uppercase()
                }
            });
        }
    }
    let odd = |c: &mut Case| -> char { *c.s.pick(&['g', 'G', ' ', '\n', '0', 'a', 'F', '-', '+', 'x', '\u{0}', 'é', '٣', '０', '/', ':', '@', '`', '.', '_', '\u{1F600}']) };
    match c.s.weighted(&[6, 2, 2, 2, 2, 1, 1, 1]) {
        0 => {}
        1 => {
            let x = c.s.below(t.len());
            t[x] = odd(c);
        }
        2 => {
            let x = c.s.below(t.len() + 1);
            let ch = odd(c);
            t.insert(x, ch);
        }
        3 => {
            let n = 1 + c.s.below(64);
            t.truncate(64 - n);
        }
        4 => {
            let n = 1 + c.s.len(70);
            for x in 0..n {
                let ch = t[x % 64];
                t.push(ch);
            }
        }
        5 => {
            let s: String = t.iter().collect();
            return format!("{}{}{}", ["0x", " ", "", "0X", "\u{feff}"][c.s.below(5)], s, ["", " ", "\n", "\0"][c.s.below(4)]);
        }
        6 => {
            // 64 bytes but not 64 characters
            t.truncate(62);
            t.push('é');
        }
        _ => {
            let n = c.s.len(130);
            return c.s.string(n);
        }
    }
    t.into_iter().collect()
}
fn parse_ref(t: &str) -> Option<K> {
    let b = t.as_bytes();
    if b.len() != 64 {
        return None;
    }
    let mut k = [0u8; 32];
    for (i, x) in b.iter().enumerate() {
        let v = match x {
            b'0'..=b'9' => x - b'0',
            b'a'..=b'f' => x - b'a' + 10,
            b'A'..=b'F' => x - b'A' + 10,
            _ => return None,
        };
        k[i / 2] = k[i / 2] << 4 | v;
    }
    Some(k)
}
fn c30_text(c: &mut Case) -> Res {
    let t = key_text(c);
    let want = parse_ref(&t);
    c.show(|| format!("{:?}", t));
    c.nontrivial = true;
    c.hit(if want.is_some() { "well-formed" } else { "malformed" });
    let fits = |m: &[u8], k: &K| m.len() != 32 || m == k;
    match (Key::from_str(&t), want) {
        (Ok(x), Some(k)) => ensure!(fits(&raw(&x), &k) && x.is_empty() == (k == [0; 32]), "Key {:?} holds {}", t, hex(&raw(&x))),
        (Err(_), None) => {}
        (r, _) => fail!("Key {:?} accepted: {}", t, r.is_ok()),
    }
    match (Psk::from_str(&t), want) {
        (Ok(x), Some(k)) => ensure!(fits(&raw(&x), &k) && x.is_empty() == (k == [0; 32]), "Psk {:?} holds {}", t, hex(&raw(&x))),
        (Err(_), None) => {}
        (r, _) => fail!("Psk {:?} accepted: {}", t, r.is_ok()),
    }
    match (PrivateKey::from_str(&t), want) {
        (Ok(x), Some(k)) => {
            ensure!(x == PrivateKey::from_bytes(k) && x.is_empty() == (k == [0; 32]), "PrivateKey {:?} differs from its bytes", t);
            if k != [0; 32] {
                let p = x.generate_public_key().map(|p| p.as_bytes()).ok();
                ensure!(p == Some(nr::public(&k)), "PrivateKey {:?} has public key {:?}", t, p);
            }
        }
        (Err(_), None) => {}
        (r, _) => fail!("PrivateKey {:?} accepted: {}", t, r.is_ok()),
    }
    let want = want.filter(|k| !nr::small_order_encodings().contains(k));
    match (PublicKey::from_str(&t), want) {
        (Ok(x), Some(k)) => ensure!(x.as_bytes() == k, "PublicKey {:?} holds {}", t, hex(&x.as_bytes())),
        (Err(_), None) => {}
        (r, _) => fail!("PublicKey {:?} accepted: {}", t, r.is_ok()),
    }
    Ok(())
}
fn key_facts(k: &K) -> Res {
    let zero = *k == [0; 32];
    let p = PrivateKey::from_bytes(*k);
    ensure!(p.is_empty() == zero, "private key {} empty: {}", hex(k), p.is_empty());
    ensure!(Key::from_bytes(*k).is_empty() == zero, "key {} empty: {}", hex(k), !zero);
    ensure!(Psk::from_bytes(*k).is_empty() == zero, "psk {} empty: {}", hex(k), !zero);
    let pubk = nr::public(k);
    ensure!(Key::generate_public_key(k).as_bytes() == pubk, "Key::generate_public_key({}) differs from X25519", hex(k));
    match p.generate_public_key() {
        Ok(x) => ensure!(!zero && x.as_bytes() == pubk && !x.is_empty(), "public key of {} is {}", hex(k), hex(&x.as_bytes())),
        Err(_) => ensure!(zero, "no public key for {}", hex(k)),
    }
    for (what, r) in [("from_key", Keypair::from_key(p.clone())), ("from_private_key", Keypair::from_private_key(p.clone()))] {
        match r {
            Ok(x) => {
                ensure!(!zero, "{}: a key pair from the zero key", what);
                ensure!(x.get_public_key().as_bytes() == pubk, "{}({}) has public key {}", what, hex(k), hex(&x.get_public_key().as_bytes()));
                ensure!(!x.is_empty(), "{}({}) is empty", what, hex(k));
                ensure!(x == x.clone(), "a key pair differs from itself");
            }
            Err(_) => ensure!(zero, "{}({}) refused", what, hex(k)),
        }
    }
    Ok(())
}
fn c30_derive(c: &mut Case) -> Res {
    let k = match c.s.below(4) {
        0 => c.s.arr32(),
        1 => {
            let mut k = [0u8; 32];
            let b = c.s.below(256);
            k[b / 8] = 1 << (b % 8);
            k
        }
        _ => c.s.key32(),
    };
    c.show(|| hex(&k));
    c.nontrivial = true;
    key_facts(&k)?;
    // equality
    let mut o = k;
    if !c.s.one_in(4) {
        let b = c.s.below(256);
        o[b / 8] ^= 1 << (b % 8);
    }
    let same = o == k;
    ensure!((PrivateKey::from_bytes(k) == PrivateKey::from_bytes(o)) == same, "private keys {} and {} equal: {}", hex(&k), hex(&o), !same);
    if let (Ok(a), Ok(b)) = (PublicKey::from_bytes(k), PublicKey::from_bytes(o)) {
        ensure!((a == b) == same, "public keys {} and {} equal: {}", hex(&k), hex(&o), !same);
    }
    if let (Ok(a), Ok(b)) = (Keypair::from_key(PrivateKey::from_bytes(k)), Keypair::from_key(PrivateKey::from_bytes(o))) {
        ensure!((a == b) == same, "key pairs of {} and {} equal: {}", hex(&k), hex(&o), !same);
    }
    Ok(())
}
fn c30_bits(c: &mut Case) -> Res {
    let n = c.s.uni(0, 512) as usize;
    c.nontrivial = true;
    let mut k = if n >= 256 { [0xffu8; 32] } else { [0; 32] };
    if n < 512 {
        k[n % 256 / 8] ^= 1 << (n % 8);
    } else {
        k = [0; 32];
    }
    key_facts(&k)?;
    ensure!(PrivateKey::empty().is_empty() && PublicKey::empty().is_empty() && Keypair::new_empty().is_empty() && Key::new().is_empty() && Psk::default().is_empty(), "empty keys are not empty");
    ensure!(PrivateKey::empty() == PrivateKey::from_bytes([0; 32]), "empty private keys differ");
    if n < 512 {
        ensure!(PrivateKey::empty() != PrivateKey::from_bytes(k), "a non-zero private key equals the empty one");
        if let Ok(p) = PublicKey::from_bytes(k) {
            ensure!(p != PublicKey::empty() && !p.is_empty(), "a non-zero public key equals the empty one");
        }
    }
    Ok(())
}
/// A generated key pair's halves belong together.
fn c30_generated(c: &mut Case) -> Res {
    let _ = c.s.uni(0, u64::MAX);
    c.nontrivial = true;
    let p = Keypair::default();
    ensure!(!p.is_empty() && !p.get_public_key().is_empty(), "a generated key pair is empty");
    // observable: as a responder's static key it completes a handshake with the reference
    let pubk = p.get_public_key().as_bytes();
    c.show(|| hex(&pubk));
    let e = c.s.key32();
    let mut r = NoiseSession::init_session(false, b"", p);
    let mut re = Ref::new(true, b"", [1; 32], e);
    let mut m = re.write_a(&[0u8; 16]);
    let mut b = vec![0u8; 96];
    if r.recv_message(&mut m).is_err() || r.send_message(&mut b).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    ensure!(re.read_b(&b).is_some() && re.rs == pubk, "a generated key pair's public key does not belong to its private key");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "cases: generated keys (random and patterned), prologues up to 400 bytes, handshake sizes 32/96..65535, generated or fixed ephemerals, up to 8 transport messages of up to 65519 bytes in any direction order; the library constructors and the connection wrapper; every size up to 600 over the minimum. Non-trivial: a payload or a prologue is present.",
            assumptions: &["X25519, ChaCha20-Poly1305 and BLAKE2s are cryptographically sound"],
            subs: vec![sub("honest", 12_000, 400_000, c16_pair), sub("wrapper", 6_000, 100_000, c16_wrapper), all("every-size", 600 + C16_SIZES.len() as u64, c16_sizes)],
        },
        Prop {
            id: "C17",
            rule: "cases: one generated alteration of the first message or the reply (bit, byte, truncation, extension, insertion, removal, exchange, splice or substitution from another session), repeated bad replies, then the genuine one; differing prologues, also of up to 16 MiB; every single bit of both smallest messages. Every case is non-trivial.",
            assumptions: &["a party that answers with its own keys is a legitimate responder for the purpose of this property (NX authenticates the key, the certificate authenticates its owner)"],
            subs: vec![all("every-bit", C17_BITS, c17_bits), sub("tampering", 14_000, 500_000, c17_tamper), all("long-prologues", C17_LONG, c17_long_prologues), sub("prologues", 6_000, 150_000, c17_prologue), sub("wrapper", 4_000, 80_000, c17_wrapper)],
        },
        Prop {
            id: "C18",
            rule: "cases: generated keys, prologue, payloads, sizes and role; then up to 14 sends, receives, rekeys and (through the hook) counter settings, each compared byte for byte with an independent implementation of the specification; up to 70000 rekeys of one session; prologues of up to 16 MiB. Non-trivial: at least one transport operation follows the handshake.",
            assumptions: &["the reference implementation in harness/src/noise_ref.rs follows the Noise specification (checked against RFC vectors at every start)"],
            subs: vec![all("long-prologues", 60, c18_long_prologues), all("many-rekeys", MANY_REKEYS, c18_many_rekeys), sub("against-reference", 14_000, 500_000, c18_interop)],
        },
        Prop {
            id: "C19",
            rule: "cases: histories of up to 40 sends, in-order deliveries and forgeries (altered, cut, extended, replayed, reordered, reflected, cross-session, made up) in both directions against a queue model; up to 70000 refusals in a row; every bit and truncation of messages of 0..31 bytes; histories of hundreds and of 1100000 messages (17000000 in the thorough tier); counters next to 2^64-1; counters differing in any one bit. Non-trivial: the history contains both an accepted and a refused message.",
            assumptions: &["forging a Poly1305 tag by chance has negligible probability"],
            subs: vec![all("every-bit", 64, c19_bits), sub("histories", 9_000, 300_000, c19_history), sub("long", 60, 400, c19_long), sub("exhaustion", 1_500, 20_000, c19_exhaustion), all("counters", 512, c19_counters), all("very-long", 3, c19_very_long), all("many-refusals", 32, c19_refusals)],
        },
        Prop {
            id: "C20",
            rule: "cases: histories of up to 20 calls (send, receive, rekey, clear, set ephemeral, any bytes of 0..70000) in any state; authenticated but malformed replies; refused sizes inside honest runs; every length 0..219 and 65515..65554 at every stage. Non-trivial: at least two calls.",
            assumptions: &["memory corruption is noticed as a crash or by the checks on results"],
            subs: vec![all("every-length", 260 * 4, c20_every_length), sub("calls", 12_000, 500_000, c20_calls), sub("malicious-replies", 8_000, 250_000, c20_malicious), sub("refused-sizes", 5_000, 100_000, c20_sizes)],
        },
        Prop {
            id: "C21",
            rule: "cases: interleavings of up to 24 calls on both sides, in and out of turn, with refused calls (sizes, short buffers, made-up bytes) in between, against a step model, completed afterwards; up to 70000 refusals in a row in every state; all sequences of seven calls on one side with made-up bytes; sessions of 1100000 messages (17000000 in the thorough tier). Non-trivial: at least one refused call.",
            assumptions: &[],
            subs: vec![all("long", 3, c21_long), all("many-refusals", 16, c21_refusals), all("one-side", C21_SEQS, c21_alone), sub("interleavings", 12_000, 400_000, c21_turns)],
        },
        Prop {
            id: "C22",
            rule: "cases: all 19 refused encodings in every place a key is taken from (bytes, text, first message, reply's ephemeral and static key with a correctly authenticated reply); all one-bit neighbours of them; generated other keys. Every case is non-trivial.",
            assumptions: &[],
            subs: vec![all("every-small-order", 19 * 4, c22_bad), all("neighbours", C22_N, c22_neighbours), sub("refused", 3_000, 60_000, c22_bad_random), sub("others", 200_000, 5_000_000, c22_others), sub("accepted", 4_000, 80_000, c22_accept)],
        },
        Prop {
            id: "C23",
            rule: "cases: histories of up to 40 sends, deliveries, one- or two-sided rekeys and clears of either direction against a key-generation model; all histories of three key operations; up to 70000 rekeys of one session, with replayed, skipped and repeated numbers. Non-trivial: a key operation happened and a message was delivered.",
            assumptions: &["local and remote name the initiator-to-responder and responder-to-initiator direction at both ends, as the existing API does"],
            subs: vec![all("three-operations", 512, c23_all), all("many-rekeys", MANY_REKEYS, c23_many_rekeys), sub("histories", 9_000, 300_000, c23_history)],
        },
        Prop {
            id: "C24",
            rule: "cases: generated handshakes whose every intermediate secret is recomputed by the reference; the session object's memory is searched for any 8-byte window of each after establishment and after each of up to 4 rekeys, clears and messages; key pairs and the wrapper likewise. Every case is non-trivial.",
            assumptions: &["only the session object itself is searched (not freed stack or heap memory)"],
            subs: vec![sub("sessions", 6_000, 150_000, c24_session), sub("key-pairs", 20_000, 300_000, c24_keypair), sub("wrapper", 3_000, 60_000, c24_wrapper)],
        },
        Prop {
            id: "C25",
            rule: "cases: batches of keys of seven kinds from up to 6 threads with a frozen clock, from separate processes (also with equal process ids, clocks and addresses) and from both halves of a forked one, 300000 keys at once, rank and balance of private key bits, distribution of 200000 channel identifiers per case. Every case is non-trivial.",
            assumptions: &["statistical limits are at least 10 standard deviations wide", "unpredictability to an attacker is not decidable by observation"],
            subs: vec![sub("fresh", 250, 6_000, c25_fresh).threads(2), all("processes", 24, c25_processes), all("birthday", 3, c25_birthday), sub("private-bits", 16, 300, c25_private), sub("channel-ids", 12, 200, c25_ids).threads(3)],
        },
        Prop {
            id: "C30",
            rule: "cases: texts of 64 hex digits and their near misses for the four key types; private keys (random, patterned, every single bit set or cleared) compared with an independent X25519; pairs differing in one bit. Every case is non-trivial.",
            assumptions: &["curve25519-dalek computes X25519 correctly"],
            subs: vec![all("every-bit", 513, c30_bits), sub("text", 150_000, 4_000_000, c30_text), sub("derivation", 20_000, 400_000, c30_derive), sub("generated", 4_000, 60_000, c30_generated)],
        },
    ]
}
