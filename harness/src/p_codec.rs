//! C01-C06, C09, C11-C15: the codec.
use crate::alloc;
use crate::engine::*;
use crate::schema::*;
use crate::{ensure, fail};
use std::convert::TryFrom;
use std::io::{self, Write};
use std::str::FromStr;
use stratumv2::codec::{ByteParser, Deserializable, Message};
use stratumv2::common::{self, Protocol, SetupConnectionErrorCode};
use stratumv2::error::Error;
use stratumv2::job_negotiation as jn;
use stratumv2::mining::{self, OpenMiningChannelErrorCode};
use stratumv2::noise::{CertificateFormat, SignatureNoiseMessage, SignedCertificate, StaticKeyPair, StaticPublicKey};
use stratumv2::types::*;

fn has_float(s: &Subject) -> bool {
    s.fields.iter().any(|k| *k == K::F32)
}
fn rich(vals: &[V]) -> bool {
    vals.iter().any(|v| match v {
        V::N(x) => *x > 1,
        V::B(b) => b.iter().any(|x| *x != 0),
    })
}
fn junk(s: &mut Src) -> Vec<u8> {
    let l = if s.one_in(10) { s.len(400) } else { s.len(12) };
    s.bytes(l)
}

// ---------------------------------------------------------------- C01
fn roundtrip(c: &mut Case, sub: &Subject, vals: Vec<V>, pre: Vec<u8>, post: Vec<u8>) -> Res {
    c.show(|| format!("{} after {} junk bytes, {} trailing", show_vals(sub, &vals), pre.len(), post.len()));
    let obj = match (sub.build)(&vals) {
        Ok(o) => o,
        Err(_) => return Err(Stop::Discard("constructor refused a valid value (C11/C12 decide that)")),
    };
    ensure!(obj.vals() == vals, "{}: built from {} but holds {}", sub.name, show_vals(sub, &vals), show_vals(sub, &obj.vals()));
    let mut enc = Vec::new();
    let cnt = match obj.ser(&mut enc) {
        Ok(n) => n,
        Err(e) => fail!("{}: encoding failed: {}", sub.name, e),
    };
    ensure!(cnt == enc.len(), "{}: encoder reported {} bytes but produced {}", sub.name, cnt, enc.len());
    match obj.to_vec() {
        Ok(v) => ensure!(v == enc, "{}: codec::serialize differs from Serializable::serialize", sub.name),
        Err(e) => fail!("{}: codec::serialize failed: {}", sub.name, e),
    }
    let mut buf = pre.clone();
    buf.extend(&enc);
    buf.extend(&post);
    let mut p = ByteParser::new(&buf, pre.len());
    let back = match (sub.decode)(&mut p) {
        Ok(o) => o,
        Err(e) => fail!("{}: own encoding {} rejected: {}", sub.name, hex(&enc), e),
    };
    let rest = remaining(&mut p);
    ensure!(rest == post.len(), "{}: decoding consumed {} bytes of an encoding of {}", sub.name, enc.len() as i64 + post.len() as i64 - rest as i64, enc.len());
    ensure!(back.vals() == obj.vals(), "{}: decoded {} from the encoding of {}", sub.name, show_vals(sub, &back.vals()), show_vals(sub, &obj.vals()));
    if !has_float(sub) {
        ensure!(back.same(&*obj) != Some(false), "{}: decoded value is not equal to the original", sub.name);
    }
    for (a, d) in back.lens() {
        ensure!(a == d, "{}: decoded length field {} but {} bytes of data", sub.name, a, d);
    }
    let tail = &buf[pre.len()..];
    match (sub.decode_slice)(tail) {
        Ok(o) => ensure!(o.vals() == obj.vals(), "{}: codec::deserialize returned another value", sub.name),
        Err(e) => fail!("{}: codec::deserialize rejected its own encoding: {}", sub.name, e),
    }
    Ok(())
}
fn c01_random(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    let (pre, post) = (junk(&mut c.s), junk(&mut c.s));
    c.nontrivial = rich(&vals);
    c.hit(sub.name);
    roundtrip(c, sub, vals, pre, post)
}
/// Every length of every one-byte-prefixed field of every type.
fn len_sweep_table() -> &'static Vec<(usize, usize, usize)> {
    static T: std::sync::OnceLock<Vec<(usize, usize, usize)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = vec![];
        for (i, s) in subjects().iter().enumerate() {
            for (j, k) in s.fields.iter().enumerate() {
                let m = match k {
                    K::Str(m) => *m,
                    K::Bytes(1, m) => *m,
                    K::Bytes(_, _) => 1030,
                    _ => continue,
                };
                for l in 0..=m {
                    t.push((i, j, l));
                }
            }
        }
        t
    })
}
fn swept(c: &mut Case) -> (&'static Subject, Vec<V>) {
    let t = len_sweep_table();
    let i = c.s.uni(0, t.len() as u64 - 1);
    let (si, fi, l) = t[i as usize];
    let sub = &subjects()[si];
    let mut g = Src::random(i);
    let mut vals = gen_valid(&mut g, sub);
    vals[fi] = match sub.fields[fi] {
        K::Str(_) => V::B(g.string(l).into_bytes()),
        _ => V::B(g.bytes(l)),
    };
    if let Rule::Setup(o) = sub.rule {
        for k in [o + 5, o + 7] {
            if b(&vals[k]).is_empty() {
                vals[k] = V::B(b"x".to_vec());
            }
        }
    }
    c.nontrivial = true;
    (sub, vals)
}
fn c01_lengths(c: &mut Case) -> Res {
    let (sub, vals) = swept(c);
    roundtrip(c, sub, vals, vec![], vec![7])
}
/// Every value of every 16-bit field, every tag, every code, in 256-value batches.
fn c01_u16(c: &mut Case) -> Res {
    let t: Vec<(usize, usize)> = subjects()
        .iter()
        .enumerate()
        .flat_map(|(i, s)| s.fields.iter().enumerate().filter(|(_, k)| **k == K::U16).map(move |(j, _)| (i, j)))
        .collect();
    let i = c.s.uni(0, t.len() as u64 * 256 - 1);
    let (si, fi) = t[(i / 256) as usize];
    let sub = &subjects()[si];
    let mut g = Src::random(i);
    let vals = gen_valid(&mut g, sub);
    c.nontrivial = true;
    for x in 0..256u64 {
        let mut v = vals.clone();
        v[fi] = V::N((i % 256) * 256 + x);
        if let Some(_) = rule_err(sub.rule, &v) {
            continue;
        }
        roundtrip(c, sub, v, vec![], vec![])?;
    }
    Ok(())
}
/// Every Unicode scalar value in a string field, in batches.
fn c01_chars(c: &mut Case) -> Res {
    let i = c.s.uni(0, 0x10ffff / 64) as u32;
    c.nontrivial = true;
    let (s32, s255, u) = (by_name("STR0_32"), by_name("STR0_255"), by_name("OpenStandardMiningChannel"));
    for x in i * 64..i * 64 + 64 {
        if let Some(ch) = char::from_u32(x) {
            let t = match x % 3 {
                0 => format!("{}", ch),
                1 => format!("a{}", ch),
                _ => format!("{}b{}", ch, ch),
            };
            let v = V::B(t.into_bytes());
            roundtrip(c, s32, vec![v.clone()], vec![], vec![])?;
            roundtrip(c, s255, vec![v.clone()], vec![], vec![])?;
            if x % 16 == 0 {
                roundtrip(c, u, vec![V::N(1), v, V::N(2), V::B(vec![3; 32])], vec![], vec![])?;
            }
        }
    }
    Ok(())
}
/// Sizes around powers of two of the larger types.
fn c01_large(c: &mut Case) -> Res {
    let sub = [by_name("B0_64K"), by_name("B0_16M"), by_name("Message")][c.s.below(3)];
    let max = match sub.fields.last().unwrap() {
        K::Bytes(_, m) => *m,
        _ => unreachable!(),
    };
    let l = c.s.int(0, max.min(1 << 21) as u64) as usize;
    let mut v = gen_valid(&mut c.s, sub);
    let k = v.len() - 1;
    v[k] = V::B(c.s.bytes(l));
    c.nontrivial = l > 255;
    roundtrip(c, sub, v, vec![], vec![1, 2, 3])
}
fn c01_max(c: &mut Case) -> Res {
    let i = c.s.uni(0, 5);
    let sub = [by_name("B0_16M"), by_name("Message")][(i % 2) as usize];
    let l = (1usize << 24) - 1 - (i / 2) as usize;
    let mut v = gen_valid(&mut Src::replay(vec![]), sub);
    let k = v.len() - 1;
    let mut r = Rng::new(i);
    v[k] = V::B((0..l).map(|_| r.next() as u8).collect());
    c.nontrivial = true;
    roundtrip(c, sub, v, vec![9], vec![1, 2, 3])
}

// ---------------------------------------------------------------- C02
fn layout(c: &mut Case, sub: &Subject, vals: &[V]) -> Res {
    c.show(|| show_vals(sub, vals));
    let obj = match (sub.build)(vals) {
        Ok(o) => o,
        Err(_) => return Err(Stop::Discard("constructor refused a valid value (C11/C12 decide that)")),
    };
    let want = ref_encode(sub, vals);
    let got = match obj.to_vec() {
        Ok(x) => x,
        Err(e) => fail!("{}: encoding failed: {}", sub.name, e),
    };
    ensure!(got == want, "{}: encoded as {} but the specification gives {}", sub.name, hex(&got), hex(&want));
    let mut w = vec![0xEE; 3];
    match obj.ser(&mut w) {
        Ok(k) => ensure!(w[..3] == [0xEE; 3] && w[3..] == want[..] && k == want.len(), "{}: appended {} ({} reported) but the specification gives {}", sub.name, hex(&w[3..]), k, hex(&want)),
        Err(e) => fail!("{}: encoding failed: {}", sub.name, e),
    }
    if let Some(f) = obj.frame() {
        match f {
            Ok(m) => ensure!(m.payload == want, "{}: frame payload {} but the specification gives {}", sub.name, hex(&m.payload), hex(&want)),
            Err(e) => fail!("{}: framing failed: {}", sub.name, e),
        }
    }
    Ok(())
}
fn c02_random(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    c.nontrivial = rich(&vals);
    c.hit(sub.name);
    layout(c, sub, &vals)
}
fn c02_lengths(c: &mut Case) -> Res {
    let (sub, vals) = swept(c);
    layout(c, sub, &vals)
}
fn c02_certs(c: &mut Case) -> Res {
    use stratumv2::codec::serialize;
    let key = StaticPublicKey::from_bytes(c.s.key32());
    let key = match key {
        Ok(k) => k,
        Err(_) => return Err(Stop::Discard("key refused")),
    };
    let ver = c.s.int(0, 0xffff);
    let a = c.s.int(0, 0xffff_fffe);
    let z = c.s.int(a + 1, 0xffff_ffff);
    c.show(|| format!("certificate version {} from {} to {} key {}", ver, a, z, hex(&key.as_bytes())));
    c.nontrivial = true;
    ensure!(serialize(&key).ok() == Some(key.as_bytes().to_vec()), "static public key is not encoded as its 32 bytes");
    let mut want = le(ver, 2);
    want.extend(le(a, 4));
    want.extend(le(z, 4));
    want.extend(key.as_bytes());
    let cert = match SignedCertificate::new(ver as u16, a as u32, z as u32, &key) {
        Ok(x) => x,
        Err(_) => return Err(Stop::Discard("certificate refused (C27 decides that)")),
    };
    let got = serialize(&cert).map_err(|e| Stop::Fail(format!("certificate encoding failed: {}", e)))?;
    ensure!(got == want, "certificate encoded as {} but the layout gives {}", hex(&got), hex(&want));
    let auth = ed25519_dalek::Keypair {
        secret: ed25519_dalek::SecretKey::from_bytes(&[7; 32]).unwrap(),
        public: (&ed25519_dalek::SecretKey::from_bytes(&[7; 32]).unwrap()).into(),
    };
    let snm = match SignatureNoiseMessage::from_auth_key(&auth, &cert) {
        Ok(x) => x,
        Err(e) => fail!("issuing failed: {}", e),
    };
    let b58 = stratumv2::bitcoin::util::base58::encode_slice(&auth.public.to_bytes());
    let fmt = match CertificateFormat::new(&b58, &key, &snm) {
        Ok(x) => x,
        Err(_) => return Err(Stop::Discard("certificate format refused (C26 decides that)")),
    };
    let got = serialize(&fmt).map_err(|e| Stop::Fail(format!("certificate encoding failed: {}", e)))?;
    ensure!(got == want, "reconstructed certificate encoded as {} but the layout gives {}", hex(&got), hex(&want));
    let got = serialize(&snm).map_err(|e| Stop::Fail(format!("encoding failed: {}", e)))?;
    want.truncate(10);
    want.extend(snm.signature.to_bytes());
    ensure!(got == want, "signature message encoded as {} but the layout gives {}", hex(&got), hex(&want));
    Ok(())
}

// ---------------------------------------------------------------- hostile input generator
/// Bytes aimed at one subject: random, valid, or valid with mutations.
pub fn gen_hostile(s: &mut Src, sub: &Subject) -> Vec<u8> {
    match s.weighted(&[2, 2, 6, 3]) {
        0 => {
            let l = s.len(400);
            s.bytes(l)
        }
        1 => {
            // structured garbage: field by field, with arbitrary lengths and bytes
            let mut out = vec![];
            for k in &sub.fields {
                if s.one_in(12) {
                    break;
                }
                match k {
                    K::Str(_) | K::Code(_) | K::Bytes(1, _) => {
                        let l = s.len(255);
                        out.push(l as u8);
                        let have = if s.one_in(6) { s.len(255) } else { l };
                        out.extend(s.bytes(have));
                    }
                    K::Bytes(p, _) => {
                        let l = s.int(0, (1u64 << (8 * *p)) - 1);
                        out.extend(le(l, *p));
                        let have = if s.one_in(3) { (l as usize).min(3000) } else { s.len(300) };
                        out.extend(s.bytes(have));
                    }
                    K::U256 => out.extend(s.bytes(32)),
                    K::Sig => out.extend(s.bytes(64)),
                    K::Bool | K::U8 | K::Tag | K::Const(_) => out.push(s.int(0, 255) as u8),
                    K::U16 => out.extend(le(s.int(0, 0xffff), 2)),
                    K::U24 => out.extend(le(s.int(0, 0xff_ffff), 3)),
                    K::Header => out.extend(le(s.int(0, 0xff_ffff), 3)),
                    K::U32 | K::F32 | K::Flags(_) => out.extend(le(s.int(0, 0xffff_ffff), 4)),
                }
            }
            let j = s.len(8);
            out.extend(s.bytes(j));
            out
        }
        m => {
            let vals = gen_valid(s, sub);
            let mut e = ref_encode(sub, &vals);
            let offs = offsets(sub, &vals);
            if m == 3 {
                let l = s.len(20);
                e.extend(s.bytes(l));
            }
            let k = if m == 3 && s.coin() { 0 } else { 1 + s.below(3) };
            for _ in 0..k {
                mutate(s, &mut e, &offs);
            }
            e
        }
    }
}
fn mutate(s: &mut Src, e: &mut Vec<u8>, offs: &[usize]) {
    let at = |s: &mut Src, e: &Vec<u8>| -> usize {
        if e.is_empty() {
            0
        } else if s.coin() {
            (*s.pick(offs)).min(e.len() - 1)
        } else {
            s.below(e.len())
        }
    };
    match s.below(8) {
        0 => {
            if !e.is_empty() {
                let i = at(s, e);
                e[i] ^= 1 << s.below(8);
            }
        }
        1 => {
            if !e.is_empty() {
                let i = at(s, e);
                e[i] = s.int(0, 255) as u8;
            }
        }
        2 => {
            let n = s.below(e.len() + 1);
            e.truncate(n);
        }
        3 => {
            let i = at(s, e);
            let l = 1 + s.len(8);
            let x = s.bytes(l);
            let i = i.min(e.len());
            e.splice(i..i, x);
        }
        4 => {
            if !e.is_empty() {
                let i = at(s, e);
                let l = (1 + s.len(16)).min(e.len() - i);
                e.drain(i..i + l);
            }
        }
        5 => {
            // a small arithmetic change of a byte (length prefixes)
            if !e.is_empty() {
                let i = at(s, e);
                let d = s.uni(0, 4) as u8;
                e[i] = e[i].wrapping_add(d).wrapping_sub(2);
            }
        }
        6 => {
            // insert invalid or unusual UTF-8
            const BAD: &[&[u8]] = &[
                b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3\x28", b"\xef\xbb\xbf", b"\0",
            ];
            let x = *s.pick(BAD);
            let i = at(s, e).min(e.len());
            let over = s.coin();
            if over && i + x.len() <= e.len() {
                e[i..i + x.len()].copy_from_slice(x);
            } else {
                e.splice(i..i, x.iter().copied());
            }
        }
        _ => {
            // swap two ranges
            if e.len() >= 2 {
                let i = at(s, e);
                let j = at(s, e);
                e.swap(i, j);
            }
        }
    }
}

// ---------------------------------------------------------------- C03
fn c03_decode(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let d = gen_hostile(&mut c.s, sub);
    // decode as the targeted type, or as any other one
    let dec = if c.s.one_in(4) { gen_subject(&mut c.s) } else { sub };
    let start = if c.s.one_in(5) { c.s.draw(0, u64::MAX, |r| match r.next() % 4 { 0 => u64::MAX - r.next() % 300, 1 => 1 << (r.next() % 64), _ => r.next() % (d.len() as u64 + 4) }) as usize } else { 0 };
    c.show(|| format!("decode as {} from {} of {}", dec.name, start, hex(&d)));
    let mut p = ByteParser::new(&d, start);
    let r = (dec.decode)(&mut p);
    c.nontrivial = d.len() >= 2;
    c.hit(if r.is_ok() { "accepted" } else { "rejected" });
    if let Ok(o) = r {
        let _ = o.to_vec();
        let _ = o.vals();
    }
    let _ = (dec.decode_slice)(&d);
    // the parser stays usable
    let _ = p.next_by(c.s.below(5));
    let _ = p.next_by(usize::MAX);
    Ok(())
}
fn c03_unframe(c: &mut Case) -> Res {
    let sub = gen_message_subject(&mut c.s);
    let d = gen_hostile(&mut c.s, sub);
    let open = if c.s.one_in(4) { gen_message_subject(&mut c.s) } else { sub };
    let kind = if c.s.one_in(4) { TABLE[c.s.below(TABLE.len())].0 } else { sub.code.unwrap() };
    c.show(|| format!("open frame kind {:#x} as {} payload {}", kind, open.name, hex(&d)));
    c.nontrivial = d.len() >= 2;
    let m = Message::new(mt_by_code(kind), d.clone());
    let r = (open.unframe.unwrap())(&m);
    c.hit(if r.is_ok() { "accepted" } else { "rejected" });
    // and via the wire
    let mut w = vec![];
    let l = c.s.int(0, 0xff_ffff);
    let l = if c.s.coin() { d.len() as u64 } else { l };
    w.extend(le(c.s.int(0, 0xffff) * c.s.one_in(4) as u64, 2));
    w.push(kind);
    w.extend(le(l, 3));
    w.extend(&d);
    if let Ok(m) = stratumv2::codec::deserialize::<Message>(&w) {
        for s in subjects().iter().filter(|s| s.is_message()) {
            let _ = (s.unframe.unwrap())(&m);
        }
    }
    Ok(())
}
/// Input of megabytes: cursors, whole frames, and the field types with the widest lengths.
fn c03_large(c: &mut Case) -> Res {
    let total = c.s.draw(1 << 16, 0x101_0000, |r| match r.next() % 4 {
        0 => 0xff_ffff + r.next() % 12,
        1 => (1 << (16 + r.next() % 9)) + r.next() % 12,
        _ => r.range(1 << 16, 0x101_0000),
    }) as usize;
    c.show(|| format!("{} bytes of input", total));
    c.nontrivial = true;
    let fill = c.s.uni(0, 255) as u8;
    let mut d = vec![fill; total];
    let kind = c.s.below(TABLE.len());
    // what the length field of a frame at the front says
    let l = match c.s.below(4) {
        0 => (total - 6) as u64,
        1 => 0xff_ffff,
        2 => c.s.int(0, 0xff_ffff),
        _ => (total - 6).saturating_sub(1 + c.s.below(9)) as u64,
    }
    .min(0xff_ffff);
    d[0] = 0;
    d[1] = if TABLE[kind].1 { 0x80 } else { 0 };
    d[2] = TABLE[kind].0;
    d[3..6].copy_from_slice(&le(l, 3));
    if let Ok(m) = stratumv2::codec::deserialize::<Message>(&d) {
        c.hit("a frame of megabytes");
        for s in subjects().iter().filter(|s| s.is_message()) {
            let _ = (s.unframe.unwrap())(&m);
        }
    }
    // the widest byte string
    let f = c.s.int(0, 0xff_ffff);
    d[..3].copy_from_slice(&le(f, 3));
    let _ = stratumv2::codec::deserialize::<stratumv2::types::B0_16M>(&d);
    for _ in 0..2 {
        let s = gen_subject(&mut c.s);
        let _ = (s.decode_slice)(&d);
    }
    let mut p = ByteParser::new(&d, 0);
    for _ in 0..3 {
        let n = c.s.int(0, total as u64 + 2) as usize;
        let _ = p.next_by(n);
    }
    Ok(())
}
fn c03_cursor(c: &mut Case) -> Res {
    let l = c.s.len(40);
    let d = c.s.bytes(l);
    let start = c.s.int(0, u64::MAX);
    c.show(|| format!("cursor over {} bytes from {}", d.len(), start));
    let mut p = ByteParser::new(&d, start as usize);
    let n = 1 + c.s.len(12);
    for _ in 0..n {
        let step = c.s.int(0, u64::MAX);
        c.nontrivial = true;
        let _ = p.next_by(step as usize);
        let _ = u32::deserialize(&mut p);
    }
    Ok(())
}
/// Every value of every byte position of a signature message, and all short strings.
fn c03_signature(c: &mut Case) -> Res {
    let i = c.s.uni(0, 74 * 256 - 1);
    let mut d = vec![0x11u8; 74];
    d[(i / 256) as usize] = i as u8;
    c.nontrivial = true;
    c.show(|| hex(&d));
    let _ = stratumv2::codec::deserialize::<SignatureNoiseMessage>(&d);
    let _ = stratumv2::codec::deserialize::<stratumv2::noise::Signature>(&d[10..]);
    Ok(())
}
fn gen_text(s: &mut Src) -> String {
    match s.below(5) {
        0 => {
            let l = s.len(100);
            s.string(l)
        }
        1 => {
            let l = s.len(80);
            (0..l).map(|_| b"0123456789abcdefABCDEFxX "[s.below(25)] as char).collect()
        }
        2 => {
            let l = s.len(80);
            (0..l).map(|_| b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[s.below(58)] as char).collect()
        }
        3 => s.literal_str(),
        _ => {
            let mut b = hex_of(&s.arr32());
            let k = s.below(3);
            for _ in 0..k {
                let i = s.below(b.len());
                let ch = *s.pick(&['g', ' ', 'é', '\u{0}', '0', '+']);
                b.insert(b.char_indices().nth(i).map(|x| x.0).unwrap_or(0), ch);
            }
            b
        }
    }
}
pub fn hex_of(x: &[u8]) -> String {
    x.iter().map(|b| format!("{:02x}", b)).collect()
}
fn c03_text(c: &mut Case) -> Res {
    use noiseexplorer_nx::types as nt;
    let t = gen_text(&mut c.s);
    c.show(|| format!("{:?}", t));
    c.nontrivial = t.len() > 1;
    let _ = nt::Key::from_str(&t);
    let _ = nt::Psk::from_str(&t);
    let _ = nt::PrivateKey::from_str(&t);
    let _ = nt::PublicKey::from_str(&t);
    let _ = SetupConnectionErrorCode::from_str(&t);
    let _ = OpenMiningChannelErrorCode::from_str(&t);
    let k = StaticKeyPair::from_private_key(nt::PrivateKey::from_bytes([5; 32])).map_err(|_| Stop::Discard("key refused"))?.get_public_key();
    let snm = SignatureNoiseMessage { version: 0, valid_from: 0, not_valid_after: u32::MAX, signature: stratumv2::noise::Signature::try_from(&[0u8; 64][..]).unwrap() };
    if let Ok(f) = CertificateFormat::new(&t, &k, &snm) {
        let _ = f.verify();
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
fn accept_check(_c: &mut Case, dec: &Subject, d: &[u8], start: usize) -> Result<bool, Stop> {
    let want = ref_decode(dec, d, start);
    let mut p = ByteParser::new(d, start);
    let got = (dec.decode)(&mut p);
    match (want, got) {
        (Ok((v, end)), Ok(o)) => {
            ensure!(o.vals() == v, "{}: {} decoded as {} instead of {}", dec.name, hex(&d[start..]), show_vals(dec, &o.vals()), show_vals(dec, &v));
            let rest = remaining(&mut p);
            ensure!(d.len() - rest == end, "{}: consumed up to {} instead of {}", dec.name, d.len() - rest, end);
            for (a, l) in o.lens() {
                ensure!(a == l, "{}: length field {} for {} bytes", dec.name, a, l);
            }
            if dec.name != "bool" {
                match o.to_vec() {
                    Ok(e) => ensure!(e == d[start..end], "{}: accepted {} but the value encodes as {}", dec.name, hex(&d[start..end]), hex(&e)),
                    Err(e) => fail!("{}: accepted value cannot be encoded: {}", dec.name, e),
                }
            }
            Ok(true)
        }
        (Err(_), Err(_)) => Ok(false),
        (Ok((v, _)), Err(e)) => fail!("{}: well-formed {} ({}) rejected: {}", dec.name, hex(&d[start..]), show_vals(dec, &v), e),
        (Err(k), Ok(o)) => fail!("{}: malformed {} ({:?}) accepted as {}", dec.name, hex(&d[start.min(d.len())..]), k, show_vals(dec, &o.vals())),
    }
}
pub fn c04_random(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let d = gen_hostile(&mut c.s, sub);
    let dec = if c.s.one_in(6) { gen_subject(&mut c.s) } else { sub };
    let start = if c.s.one_in(8) { c.s.below(d.len() + 2) } else { 0 };
    c.show(|| format!("{} from {}: {}", dec.name, start, hex(&d)));
    c.nontrivial = d.len() >= 2;
    let ok = accept_check(c, dec, &d, start)?;
    c.hit(if ok { "accepted" } else { "rejected" });
    Ok(())
}
/// A frame's payload is accepted as its own kind exactly when the decoder accepts it, whatever follows.
fn c04_opened(c: &mut Case) -> Res {
    let sub = gen_message_subject(&mut c.s);
    let mut d = if c.s.coin() { gen_hostile(&mut c.s, sub) } else { ref_encode(sub, &gen_valid(&mut c.s, sub)) };
    if c.s.coin() {
        let n = if c.s.one_in(20) { c.s.len(70_000) } else { 1 + c.s.len(40) };
        let x = if c.s.coin() { c.s.bytes(n) } else { ref_encode(sub, &gen_valid(&mut c.s, sub)) };
        d.extend(x);
    }
    c.show(|| format!("{} in its own frame: {}", sub.name, hex(&d)));
    c.nontrivial = d.len() >= 2;
    let want = ref_decode(sub, &d, 0);
    let got = (sub.unframe.unwrap())(&Message::new(mt_by_code(sub.code.unwrap()), d.clone()));
    match (want, got) {
        (Ok((v, _)), Ok(o)) => ensure!(o.vals() == v, "{}: {} opened as {} instead of {}", sub.name, hex(&d), show_vals(sub, &o.vals()), show_vals(sub, &v)),
        (Err(_), Err(_)) => {}
        (Ok((v, _)), Err(e)) => fail!("{}: a frame of well-formed {} ({}) is not opened: {}", sub.name, hex(&d), show_vals(sub, &v), e),
        (Err(k), Ok(o)) => fail!("{}: a frame of malformed {} ({:?}) opened as {}", sub.name, hex(&d), k, show_vals(sub, &o.vals())),
    }
    Ok(())
}
/// All byte strings of up to two bytes, for every decoder.
fn c04_short(c: &mut Case) -> Res {
    let ns = subjects().len() as u64;
    let i = c.s.uni(0, ns * 257 - 1);
    let dec = &subjects()[(i / 257) as usize];
    let a = i % 257;
    c.nontrivial = true;
    if a == 256 {
        accept_check(c, dec, &[], 0)?;
        for x in 0..256 {
            accept_check(c, dec, &[x as u8], 0)?;
        }
    } else {
        for x in 0..256 {
            accept_check(c, dec, &[a as u8, x as u8], 0)?;
        }
    }
    Ok(())
}
/// Every byte value at every position of a small valid encoding of every type.
fn c04_bytes(c: &mut Case) -> Res {
    let ns = subjects().len() as u64;
    let i = c.s.uni(0, ns * 40 - 1);
    let dec = &subjects()[(i / 40) as usize];
    let mut g = Src::random(i * 7919 + 13);
    let vals = gen_valid(&mut g, dec);
    let e = ref_encode(dec, &vals);
    let mut pos: Vec<usize> = (0..e.len().min(60)).collect();
    pos.extend(offsets(dec, &vals).into_iter().filter(|x| *x < e.len()));
    pos.sort();
    pos.dedup();
    c.nontrivial = !e.is_empty();
    for p in pos {
        let mut d = e.clone();
        for x in 0..256 {
            d[p] = x as u8;
            accept_check(c, dec, &d, 0)?;
        }
    }
    Ok(())
}
/// Every length of every string field: accepted, and rejected if the text is broken anywhere.
fn c04_lengths(c: &mut Case) -> Res {
    let (sub, vals) = swept(c);
    let e = ref_encode(sub, &vals);
    accept_check(c, sub, &e, 0)?;
    let offs = offsets(sub, &vals);
    for (i, k) in sub.fields.iter().enumerate() {
        if let K::Str(_) = k {
            let (a, z) = (offs[i] + 1, offs[i + 1]);
            if z > a {
                for p in [a, (a + z) / 2, z - 1] {
                    let mut d = e.clone();
                    d[p] = 0xff;
                    accept_check(c, sub, &d, 0)?;
                    d[p] = 0xc3;
                    accept_check(c, sub, &d, 0)?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
fn cuts(c: &mut Case, sub: &Subject, vals: &[V]) -> Res {
    let e = ref_encode(sub, vals);
    c.show(|| format!("all prefixes of {}", show_vals(sub, vals)));
    let offs = offsets(sub, vals);
    let mut cut: Vec<usize> = if e.len() <= 700 { (0..e.len()).collect() } else { (0..64).chain(offs.iter().flat_map(|o| [o.saturating_sub(1), *o, o + 1, o + 2, o + 3])).chain((0..40).map(|i| i * e.len() / 40)).chain([e.len() - 1]).filter(|x| *x < e.len()).collect() };
    cut.dedup();
    let pre = c.s.len(5);
    for k in cut {
        let mut d = vec![0xa5; pre];
        d.extend(&e[..k]);
        let mut p = ByteParser::new(&d, pre);
        match (sub.decode)(&mut p) {
            Ok(o) => fail!("{}: the first {} of {} bytes were accepted as {}", sub.name, k, e.len(), show_vals(sub, &o.vals())),
            Err(Error::ParseError(_)) => {}
            Err(x) => fail!("{}: the first {} of {} bytes gave {:?} instead of a parse error", sub.name, k, e.len(), x),
        }
        match (sub.decode_slice)(&d[pre..]) {
            Err(Error::ParseError(_)) => {}
            r => fail!("{}: codec::deserialize of the first {} of {} bytes: {:?}", sub.name, k, e.len(), r.map(|o| o.vals()).map_err(|x| x.to_string())),
        }
        if let (Some(u), Some(code)) = (sub.unframe, sub.code) {
            match u(&Message::new(mt_by_code(code), d[pre..].to_vec())) {
                Err(Error::ParseError(_)) => {}
                r => fail!("{}: a frame with the first {} of {} bytes: {:?}", sub.name, k, e.len(), r.map(|o| o.vals()).map_err(|x| x.to_string())),
            }
        }
    }
    Ok(())
}
fn c05_prefixes(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    c.nontrivial = ref_encode(sub, &vals).len() > 1;
    c.hit(sub.name);
    cuts(c, sub, &vals)
}
fn c05_lengths(c: &mut Case) -> Res {
    let (sub, vals) = swept(c);
    // only the cuts around the swept field: the last byte, the prefix, the first byte
    let e = ref_encode(sub, &vals);
    for k in offsets(sub, &vals).into_iter().flat_map(|o| [o.wrapping_sub(1), o, o + 1]).filter(|k| *k < e.len()) {
        match (sub.decode_slice)(&e[..k]) {
            Err(Error::ParseError(_)) => {}
            r => fail!("{}: the first {} of {} bytes: {:?}", sub.name, k, e.len(), r.map(|o| o.vals()).map_err(|x| x.to_string())),
        }
    }
    Ok(())
}
fn pattern() -> &'static [u8] {
    static P: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    P.get_or_init(|| (0..1usize << 24).map(|i| (i ^ i >> 7 ^ i >> 13) as u8).collect())
}
fn c05_cursor(c: &mut Case) -> Res {
    let own;
    let d: &[u8] = if c.s.one_in(30) {
        // of any size up to 16 MB
        let l = 1u64 << c.s.int(8, 24);
        &pattern()[..(l - c.s.len(l.min(5000)) as u64) as usize]
    } else {
        let l = c.s.len(300);
        own = c.s.bytes(l);
        &own
    };
    let start = if c.s.one_in(6) { c.s.int(0, u64::MAX) as usize } else { c.s.below(d.len() + 1) };
    let n = 1 + c.s.len(30);
    let mut pos = start;
    let mut p = ByteParser::new(d, start);
    let mut trace = vec![];
    let mut failed = 0;
    for _ in 0..n {
        let left = d.len().saturating_sub(pos) as u64;
        let step = c.s.draw(0, u64::MAX, |r| match r.next() % 8 {
            0 => left,
            1 => left + 1,
            2 => left.saturating_sub(1),
            3 => u64::MAX - r.next() % (start as u64).saturating_add(4),
            4 => 0,
            _ => r.next() % 12,
        }) as usize;
        trace.push(step);
        let want = pos.checked_add(step).and_then(|e| d.get(pos..e));
        let got = p.next_by(step);
        match (want, got) {
            (Some(w), Ok(g)) => {
                ensure!(w.len() == g.len() && (w.as_ptr() == g.as_ptr() || w == g), "read of {} at {} of {} returned other bytes (start {}, steps {:?})", step, pos, d.len(), start, trace);
                pos += step;
            }
            (None, Err(Error::ParseError(_))) => failed += 1,
            (None, Err(e)) => fail!("read past the end gave {:?}", e),
            (Some(_), Err(e)) => fail!("read of {} at {} of {} refused: {} (start {}, steps {:?})", step, pos, d.len(), e, start, trace),
            (None, Ok(g)) => fail!("read of {} at {} of {} returned {} bytes (start {}, steps {:?})", step, pos, d.len(), g.len(), start, trace),
        }
    }
    c.show(|| format!("{} bytes from {}: steps {:?}", d.len(), start, trace));
    c.nontrivial = n >= 2 && failed > 0 && pos > start;
    Ok(())
}

// ---------------------------------------------------------------- C06
fn expect(what: &str, sub: &Subject, got: Result<Box<dyn Obj>, Error>, want: E) -> Res {
    match got {
        Ok(o) => fail!("{}: {} accepted as {}", sub.name, what, show_vals(sub, &o.vals())),
        Err(e) => ensure!(kind(&e) == want, "{}: {} reported as {:?} ({}) instead of {:?}", sub.name, what, kind(&e), e, want),
    }
    Ok(())
}
fn bad_utf8(s: &mut Src, len: usize) -> Vec<u8> {
    const BAD: &[&[u8]] = &[b"\xff", b"\x80", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc3\x28", b"\xe2\x28\xa1", b"\xf4\x90\x80\x80"];
    // a character cut off by the end of the text
    const CUT: &[&[u8]] = &[b"\xc3", b"\xe2\x82", b"\xe2", b"\xf0\x9f\x98", b"\xf0\x9f", b"\xf0"];
    let cut = s.one_in(3);
    let fit: Vec<&&[u8]> = if cut { CUT } else { BAD }.iter().filter(|x| x.len() <= len).collect();
    let x = fit[s.below(fit.len())];
    let at = if cut { len - x.len() } else { s.below(len - x.len() + 1) };
    let mut t = vec![b'a'; len];
    t[at..at + x.len()].copy_from_slice(x);
    t
}
fn c06_decode(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    // the faults that apply to this type
    let mut f: Vec<(usize, E)> = vec![];
    for (i, k) in sub.fields.iter().enumerate() {
        match k {
            K::Str(m) => {
                f.push((i, E::Utf8));
                if *m < 255 {
                    f.push((i, E::Requirement));
                }
            }
            K::Bytes(1, m) if *m < 255 => f.push((i, E::Requirement)),
            K::Flags(_) => f.push((i, E::Flags)),
            K::Code(_) => f.push((i, E::Code)),
            K::Sig => f.push((i, E::Signature)),
            K::Tag => f.push((i, E::Tag)),
            K::Const(_) => {
                f.push((i, E::Tag));
                f.push((i, E::Unimplemented))
            }
            K::Header => {
                f.push((i, E::MsgType));
                f.push((i, E::ChanBit))
            }
            _ => {}
        }
    }
    if let Rule::Setup(o) = sub.rule {
        f.extend([(o, E::Version), (o + 1, E::Version), (o + 5, E::Requirement), (o + 7, E::Requirement)]);
    }
    if sub.rule == Rule::SetupErr {
        f.push((99, E::Requirement));
    }
    f.push((98, E::Parse));
    let (i, want) = *c.s.pick(&f);
    let mut parts: Vec<Vec<u8>> = sub.fields.iter().zip(&vals).map(|(k, v)| ref_field(*k, v)).collect();
    let mut what = format!("field {}", i);
    match (i, want) {
        (98, _) => {
            let e: Vec<u8> = parts.concat();
            let k = c.s.below(e.len().max(1));
            c.show(|| format!("{} cut at {}", show_vals(sub, &vals), k));
            c.nontrivial = k > 0;
            c.hit("truncated");
            return if e.is_empty() { Ok(()) } else { expect(&format!("encoding cut at {}", k), sub, (sub.decode_slice)(&e[..k]), E::Parse) };
        }
        (99, _) => {
            parts[0] = vec![0; 4];
            parts[1] = ref_field(sub.fields[1], &V::N(0));
            what = "no flags with unsupported-feature-flags".into();
        }
        (i, E::Utf8) => {
            let m = match sub.fields[i] {
                K::Str(m) => m,
                _ => 255,
            };
            let l = 1 + c.s.len(m as u64 - 1);
            let mut x = vec![l as u8];
            x.extend(bad_utf8(&mut c.s, l));
            parts[i] = x;
        }
        (i, E::Requirement) if matches!(sub.fields[i], K::Str(255)) => {
            parts[i] = vec![0];
            if let (Rule::Setup(o), 0) = (sub.rule, c.s.uni(0, 3)) {
                // both required texts empty is the same fault
                parts[2 * o + 12 - i] = vec![0];
            }
        }
        (i, E::Requirement) => {
            let m = match sub.fields[i] {
                K::Str(m) | K::Bytes(_, m) => m,
                _ => unreachable!(),
            };
            let l = c.s.int(m as u64 + 1, 255) as usize;
            let mut x = vec![l as u8];
            x.extend(vec![b'q'; l]);
            parts[i] = x;
        }
        (i, E::Version) => {
            parts[i] = le(c.s.uni(0, 1), 2);
            if let (Rule::Setup(o), 0) = (sub.rule, c.s.uni(0, 3)) {
                // both versions too low is the same fault
                parts[2 * o + 1 - i] = le(c.s.uni(0, 1), 2);
            }
        }
        (i, E::Flags) => {
            let m = match sub.fields[i] {
                K::Flags(m) => m,
                _ => 0,
            };
            let x = gen_bad_flags(&mut c.s, m);
            parts[i] = le(x as u64, 4);
            what = format!("flags {:#x}", x);
        }
        (i, E::Code) => {
            let cs = match sub.fields[i] {
                K::Code(cs) => cs,
                _ => unreachable!(),
            };
            let t = gen_bad_code(&mut c.s, cs);
            let mut x = vec![t.len() as u8];
            x.extend(t.as_bytes());
            what = format!("code {:?}", t);
            parts[i] = x;
        }
        (i, E::Signature) => parts[i][63] |= [0x20, 0x40, 0x80, 0xe0, 0xa0][c.s.below(5)],
        (i, E::Tag) => parts[i] = vec![c.s.int(4, 255) as u8],
        (i, E::Unimplemented) => parts[i] = vec![c.s.uni(2, 3) as u8],
        (i, E::MsgType) => {
            if c.s.coin() {
                let ext = c.s.int(1, 0x7fff);
                let e = le(ext | ((parts[i][1] as u64) << 8), 2);
                parts[i][..2].copy_from_slice(&e);
                if parts[i][1] & 0x7f == 0 && parts[i][0] == 0 {
                    parts[i][0] = 1;
                }
            } else {
                let un: Vec<u8> = (0..=255u8).filter(|x| table_bit(*x).is_none()).collect();
                parts[i][2] = *c.s.pick(&un);
            }
            what = format!("header {}", hex(&parts[i]));
        }
        (i, E::ChanBit) => {
            parts[i][1] ^= 0x80;
            what = format!("header {}", hex(&parts[i]));
        }
        _ => unreachable!(),
    }
    let mut d: Vec<u8> = parts.concat();
    let j = c.s.len(6);
    d.extend(vec![0x5a; j]);
    c.show(|| format!("{} with fault {:?} in {}", show_vals(sub, &vals), want, what));
    c.nontrivial = true;
    c.hit(&format!("{:?}", want));
    expect(&what, sub, (sub.decode_slice)(&d), want)?;
    if want == E::ChanBit {
        if let Err(Error::UnexpectedChannelBit(x)) = stratumv2::codec::deserialize::<Message>(&d) {
            ensure!(x == (d[1] & 0x80 != 0), "the channel bit reported is not the one received");
        }
    }
    if let (Some(u), Some(code)) = (sub.unframe, sub.code) {
        expect(&what, sub, u(&Message::new(mt_by_code(code), d)), want)?;
    }
    Ok(())
}
pub fn gen_bad_flags(s: &mut Src, mask: u32) -> u32 {
    let bad = loop_nonzero(s, mask);
    let keep = s.uni(0, mask as u64) as u32 & mask;
    bad | keep
}
fn loop_nonzero(s: &mut Src, mask: u32) -> u32 {
    let v = s.draw(0, 0xffff_ffff, |r| match r.next() % 4 {
        0 => 1u64 << (r.next() % 32),
        1 => (1u64 << (r.next() % 32)) | (1u64 << (r.next() % 32)),
        2 => biased(r, 0, 0xffff_ffff),
        _ => r.next() & 0xffff_ffff,
    }) as u32
        & !mask;
    if v == 0 {
        !mask & (mask.wrapping_add(1))
    } else {
        v
    }
}
/// Valid UTF-8, at most 255 bytes, close to but not one of the registered codes.
pub fn gen_bad_code(s: &mut Src, codes: &[&str]) -> String {
    let base = s.pick(codes).to_string();
    let mut t: Vec<char> = base.chars().collect();
    match s.below(12) {
        11 => {
            // a code filled up with one character, to any length
            let ch = if s.coin() { *s.pick(&[' ', '\0', '\t', '-', '\n', '=', '\u{a0}', '0']) } else { char::from(s.uni(0, 127) as u8) };
            let l = if s.coin() { 255 - s.len(60) } else { s.len(300) };
            let front = s.one_in(3);
            while t.len() < l {
                if front { t.insert(0, ch) } else { t.push(ch) }
            }
        }
        9 => {
            // a registered code with something before, after or both, set off by any character
            let sep = char::from(s.uni(0, 127) as u8);
            let l = s.len(20);
            let junk = if s.coin() { s.pick(codes).to_string() } else { s.string(l) };
            t = match s.below(4) {
                0 => format!("{}{}{}", base, sep, junk),
                1 => format!("{}{}{}", junk, sep, base),
                2 => format!("{}{}{}", sep, base, sep),
                _ => format!("{}{}", base, junk),
            }
            .chars()
            .collect();
        }
        10 => t.reverse(),
        0 => {
            let i = s.below(t.len());
            t.remove(i);
        }
        1 => {
            let i = s.below(t.len() + 1);
            let ch = if s.coin() { *s.pick(&['a', '-', ' ', '\0', 'é', '_', '\n']) } else { char::from(s.uni(0, 127) as u8) };
            t.insert(i, ch);
        }
        2 => {
            let i = s.below(t.len());
            t[i] = *s.pick(&['a', '-', ' ', '_', 'Z', '–', '\u{212a}']);
        }
        3 => t = base.to_uppercase().chars().collect(),
        4 => {
            let i = s.below(t.len());
            t[i] = t[i].to_ascii_uppercase();
        }
        5 => {
            let n = s.below(t.len());
            t.truncate(n);
        }
        6 => t = base.replace('-', ["_", " ", "", "--"][s.below(4)]).chars().collect(),
        7 => {
            let l = s.len(255);
            t = s.string(l).chars().collect();
        }
        _ => {
            // codes of the other vocabulary, and literals of the code under test
            t = if s.coin() { (*s.pick(SC_CODES)).chars().chain([]).collect() } else { s.literal_str().chars().collect() };
            if s.coin() {
                t = s.pick(OC_CODES).chars().collect();
            }
        }
    }
    let r: String = t.into_iter().collect();
    if codes.contains(&r.as_str()) || r.len() > 255 {
        "x".into()
    } else {
        r
    }
}
fn too_long(s: &mut Src, max: usize) -> usize {
    s.draw(max as u64 + 1, max as u64 + 70_000, |r| max as u64 + match r.next() % 5 { 0 => 1, 1 => 1 + r.next() % 4, 2 => 256 - (max as u64 & 0xff).min(255) + r.next() % 40, 3 => 65_536 - 255 + r.next() % 300, _ => 1 + r.next() % 2000 }) as usize
}
fn c06_construct(c: &mut Case) -> Res {
    let subs: Vec<&Subject> = subjects().iter().filter(|s| s.rule != Rule::None || s.fields.iter().any(|k| matches!(k, K::Str(_)) || matches!(k, K::Bytes(1, _)))).collect();
    let sub = *c.s.pick(&subs);
    let mut vals = gen_valid(&mut c.s, sub);
    let mut f: Vec<(usize, E)> = vec![];
    for (i, k) in sub.fields.iter().enumerate() {
        if matches!(k, K::Str(_)) || matches!(k, K::Bytes(1, _)) {
            f.push((i, E::Requirement));
        }
    }
    if let Rule::Setup(o) = sub.rule {
        f.extend([(o, E::Version), (o + 1, E::Version), (o + 5, E::Other), (o + 7, E::Other)]);
    }
    if sub.rule == Rule::SetupErr {
        f.push((99, E::Requirement));
    }
    let (i, want) = *c.s.pick(&f);
    let mut expected = want;
    match (i, want) {
        (99, _) => vals = vec![V::N(0), V::N(0)],
        (i, E::Other) => {
            vals[i] = V::B(vec![]);
            expected = E::Requirement;
            if let (Rule::Setup(o), 0) = (sub.rule, c.s.uni(0, 3)) {
                match c.s.below(3) {
                    0 => vals[2 * o + 12 - i] = V::B(vec![]),
                    k => {
                        // another text too long: also a requirement
                        let j = [o + 3, o + 6][k - 1];
                        let l = too_long(&mut c.s, 255);
                        vals[j] = V::B(vec![b'z'; l]);
                    }
                }
            }
        }
        (i, E::Version) => {
            vals[i] = V::N(c.s.uni(0, 1));
            if let (Rule::Setup(o), 0) = (sub.rule, c.s.uni(0, 3)) {
                vals[2 * o + 1 - i] = V::N(c.s.uni(0, 1));
            }
        }
        (i, _) => {
            let m = match sub.fields[i] {
                K::Str(m) | K::Bytes(_, m) => m,
                _ => unreachable!(),
            };
            let l = too_long(&mut c.s, m);
            vals[i] = V::B(vec![b'z'; l]);
        }
    }
    c.show(|| format!("constructing {}", show_vals(sub, &vals)));
    c.nontrivial = true;
    c.hit(&format!("{:?}", expected));
    expect("constructor argument", sub, (sub.build)(&vals), expected)
}
fn c06_unframe(c: &mut Case) -> Res {
    let sub = gen_message_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    let others: Vec<u8> = TABLE.iter().map(|t| t.0).filter(|t| Some(*t) != sub.code).collect();
    let k = *c.s.pick(&others);
    c.show(|| format!("{} in a frame of kind {:#x}", show_vals(sub, &vals), k));
    c.nontrivial = true;
    expect(&format!("frame of kind {:#x}", k), sub, (sub.unframe.unwrap())(&Message::new(mt_by_code(k), ref_encode(sub, &vals))), E::UnexpectedType)
}

// ---------------------------------------------------------------- C09
fn c09_stream(c: &mut Case) -> Res {
    let n = if c.s.one_in(12) { 1 + c.s.len(120) } else { 1 + c.s.len(9) };
    let pre = junk(&mut c.s);
    let mut buf = pre.clone();
    let mut items: Vec<(&'static Subject, Box<dyn Obj>, usize)> = vec![];
    let framed_only = c.s.coin();
    for _ in 0..n {
        let sub = if framed_only { gen_message_subject(&mut c.s) } else { gen_subject(&mut c.s) };
        let vals = gen_valid(&mut c.s, sub);
        let obj = match (sub.build)(&vals) {
            Ok(o) => o,
            Err(_) => return Err(Stop::Discard("constructor refused a valid value (C11/C12 decide that)")),
        };
        let framing = sub.is_message() && (framed_only || c.s.coin());
        let before = buf.len();
        if framing {
            let m = match obj.frame().unwrap() {
                Ok(m) => m,
                Err(e) => fail!("{}: framing failed: {}", sub.name, e),
            };
            let fo = obj_of_message(m);
            if let Err(e) = fo.ser(&mut buf) {
                fail!("frame encoding failed: {}", e);
            }
            items.push((sub, obj, 1 + buf.len() - before));
        } else {
            if let Err(e) = obj.ser(&mut buf) {
                fail!("{}: encoding failed: {}", sub.name, e);
            }
            items.push((sub, obj, 0));
        }
    }
    c.show(|| format!("stream from offset {} of {}", pre.len(), items.iter().map(|(s, _, f)| if *f > 0 { format!("frame({})", s.name) } else { s.name.into() }).collect::<Vec<_>>().join(", ")));
    c.nontrivial = items.len() >= 2;
    let mut p = ByteParser::new(&buf, pre.len());
    for (i, (sub, obj, framed)) in items.iter().enumerate() {
        let back = if *framed > 0 {
            match Message::deserialize(&mut p) {
                Err(e) => fail!("item {} of {} (frame of {}) rejected: {}", i, items.len(), sub.name, e),
                Ok(m) => (sub.unframe.unwrap())(&m),
            }
        } else {
            (sub.decode)(&mut p)
        };
        match back {
            Ok(o) => ensure!(o.vals() == obj.vals(), "item {} of {}: got {} instead of {}", i, items.len(), show_vals(sub, &o.vals()), show_vals(sub, &obj.vals())),
            Err(e) => fail!("item {} of {} ({}) rejected: {}", i, items.len(), sub.name, e),
        }
    }
    let rest = remaining(&mut p);
    ensure!(rest == 0, "{} bytes left over after {} items", rest, items.len());
    Ok(())
}
/// Frames whose payloads are arbitrary bytes, back to back.
fn c09_frames(c: &mut Case) -> Res {
    let aligned = c.s.one_in(4);
    let n = 1 + if c.s.one_in(10) && !aligned { c.s.len(300) } else { c.s.len(12) };
    let mut buf = vec![];
    let mut ms = vec![];
    for _ in 0..n {
        let kind = TABLE[c.s.below(TABLE.len())].0;
        let mut l = if c.s.one_in(20) { c.s.len(70_000) } else { c.s.len(300) };
        if aligned {
            // a frame that ends exactly at (or next to) a multiple of a power of two
            let unit = 1usize << c.s.int(4, 17);
            let end = (buf.len() + 6 + l).div_ceil(unit) * unit + c.s.below(3);
            l = (end - 1).saturating_sub(buf.len() + 6);
        }
        let m = Message::new(mt_by_code(kind), c.s.bytes(l));
        let o = obj_of_message(m.clone());
        if let Err(e) = o.ser(&mut buf) {
            fail!("frame encoding failed: {}", e);
        }
        ms.push(m);
    }
    c.show(|| format!("{} frames, payload sizes {:?}", n, ms.iter().map(|m| m.payload.len()).collect::<Vec<_>>()));
    c.nontrivial = n >= 2;
    let mut p = ByteParser::new(&buf, 0);
    for (i, m) in ms.iter().enumerate() {
        match Message::deserialize(&mut p) {
            Ok(g) => ensure!(g == *m, "frame {} of {} came back different", i, n),
            Err(e) => fail!("frame {} of {} rejected: {}", i, n, e),
        }
    }
    ensure!(remaining(&mut p) == 0, "bytes left over");
    ensure!(Message::deserialize(&mut p).is_err(), "a frame was read from the exhausted buffer");
    Ok(())
}
/// Values and frames around offsets of 2^16 to 2^32. The buffer is mostly never touched.
fn c09_far(c: &mut Case) -> Res {
    use std::alloc::{alloc_zeroed, dealloc, Layout};
    struct Far(*mut u8, Layout);
    impl Drop for Far {
        fn drop(&mut self) {
            unsafe { dealloc(self.0, self.1) }
        }
    }
    let n = c.s.uni(0, C09_FAR - 1) as usize;
    let (bit, skip) = (16 + n / 2 % 17, n % 2 == 1);
    let size = (1usize << bit) + 4096;
    let layout = Layout::from_size_align(size, 4096).unwrap();
    let far = Far(unsafe { alloc_zeroed(layout) }, layout);
    if far.0.is_null() {
        std::mem::forget(far);
        return Err(Stop::Discard("no address space"));
    }
    let all: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(far.0, size) };
    let back = c.s.below(40);
    let start = (1usize << bit) - back;
    let mut items: Vec<(&'static Subject, Vec<V>)> = vec![];
    let mut stream = vec![];
    while stream.len() < 120 {
        let sub = gen_message_subject(&mut c.s);
        let vals = gen_valid(&mut c.s, sub);
        let e = ref_encode(sub, &vals);
        if stream.len() + e.len() > 4000 {
            continue;
        }
        stream.extend(e);
        items.push((sub, vals));
    }
    all[start..start + stream.len()].copy_from_slice(&stream);
    let end = start + stream.len();
    c.nontrivial = true;
    c.show(|| format!("{} values from offset 2^{} - {}{}", items.len(), bit, back, if skip { ", the bytes before read at once" } else { "" }));
    let mut p = if skip { ByteParser::new(&all[..end], 0) } else { ByteParser::new(&all[..end], start) };
    if skip {
        match p.next_by(start) {
            Ok(b) => ensure!(b.len() == start && b.as_ptr() == far.0 as *const u8, "reading {} bytes returned others", start),
            Err(e) => fail!("{} of {} bytes refused: {}", start, end, e),
        }
    }
    for (i, (sub, vals)) in items.iter().enumerate() {
        match (sub.decode)(&mut p) {
            Ok(o) => ensure!(o.vals() == *vals, "value {} of {}: got {} instead of {}", i, items.len(), show_vals(sub, &o.vals()), show_vals(sub, vals)),
            Err(e) => fail!("value {} of {} ({}) rejected: {}", i, items.len(), sub.name, e),
        }
    }
    ensure!(p.next_by(1).is_err(), "bytes left over");
    ensure!(p.next_by(0).is_ok(), "the end is not reached");
    Ok(())
}
const C09_FAR: u64 = 17 * 2 * 6;

// ---------------------------------------------------------------- C11
macro_rules! bounded_str {
    ($fn:ident, $t:ident, $max:expr) => {
        fn $fn(c: &mut Case, t: &str) -> Res {
            let ok = t.len() <= $max;
            let r = $t::new(t);
            let r2 = $t::new(String::from(t));
            ensure!(r.is_ok() == r2.is_ok(), "{}: &str and String arguments disagree", stringify!($t));
            match r {
                Ok(v) => {
                    ensure!(ok, "{} accepted {} bytes ({} characters)", stringify!($t), t.len(), t.chars().count());
                    ensure!(v.data == t && v.length as usize == t.len(), "{} of {} bytes holds {} bytes, length field {}", stringify!($t), t.len(), v.data.len(), v.length);
                    ensure!(v == String::from(t) && String::from(t) == v, "{}: not equal to its own text", stringify!($t));
                    ensure!(Some(&v) == r2.as_ref().ok() && v.clone() == v, "{}: not equal to itself", stringify!($t));
                    let mut other = String::from(t);
                    if other.pop().is_some() {
                        ensure!(!(v == other) && !(other == v), "{}: equal to a different text", stringify!($t));
                    }
                    other.push_str("\u{1}\u{2}");
                    ensure!(!(v == other) && !(other == v), "{}: equal to a different text", stringify!($t));
                    ensure!(String::from(v) == t, "{}: conversion back changed the text", stringify!($t));
                }
                Err(e) => {
                    ensure!(!ok, "{} refused {} bytes", stringify!($t), t.len());
                    let _ = (c, e);
                }
            }
            Ok(())
        }
    };
}
bounded_str!(str32, STR0_32, 32);
bounded_str!(str255, STR0_255, 255);
macro_rules! bounded_b {
    ($fn:ident, $t:ident, $max:expr) => {
        fn $fn(d: Vec<u8>, deep: bool) -> Res {
            let ok = d.len() <= $max;
            let len = d.len();
            let r = if deep { $t::new(&d[..]) } else { $t::new(d) };
            match r {
                Ok(v) => {
                    ensure!(ok, "{} accepted {} bytes", stringify!($t), len);
                    ensure!(v.data.len() == len && usize::from(v.length.clone()) == len, "{} of {} bytes holds {} bytes, length field {}", stringify!($t), len, v.data.len(), usize::from(v.length.clone()));
                    if deep {
                        let d = v.data.clone();
                        ensure!(v == d && d == v && v.clone() == v, "{}: not equal to its own bytes", stringify!($t));
                        let mut o = d.clone();
                        o.push(0);
                        ensure!(!(v == o) && !(o == v), "{}: equal to different bytes", stringify!($t));
                        let back: Vec<u8> = v.into();
                        ensure!(back == d, "{}: conversion back changed the bytes", stringify!($t));
                    }
                }
                Err(_) => ensure!(!ok, "{} refused {} bytes", stringify!($t), len),
            }
            Ok(())
        }
    };
}
bounded_b!(b31, B0_31, 31);
bounded_b!(b32, B0_32, 32);
bounded_b!(b255, B0_255, 255);
bounded_b!(b64k, B0_64K, 65535);
bounded_b!(b16m, B0_16M, (1 << 24) - 1);

fn c11_text(c: &mut Case) -> Res {
    let lim = *c.s.pick(&[32u64, 255]);
    let l = c.s.draw(0, 70_000, |r| match r.next() % 8 {
        0..=3 => (lim + 6).saturating_sub(r.next() % 12),
        4 => 256 + r.next() % 300,
        5 => 65_536 + r.next() % 300,
        6 => biased(r, 0, 70_000),
        _ => r.next() % 300,
    });
    let t = c.s.string(l as usize);
    c.show(|| format!("{} bytes, {} chars: {:?}", t.len(), t.chars().count(), t.chars().take(40).collect::<String>()));
    c.nontrivial = t.len() != t.chars().count() || t.len() + 3 > lim as usize;
    if t.len() != t.chars().count() {
        c.hit("multi-byte");
    }
    str32(c, &t)?;
    str255(c, &t)?;
    // decoding
    if t.len() <= 255 {
        let mut d = vec![t.len() as u8];
        d.extend(t.as_bytes());
        d.push(0x41);
        let mut p = ByteParser::new(&d, 0);
        match STR0_32::deserialize(&mut p) {
            Ok(v) => {
                ensure!(t.len() <= 32, "STR0_32 decoded {} bytes", t.len());
                ensure!(v.data == t && v.length as usize == t.len(), "STR0_32 decoded to different text");
            }
            Err(e) => ensure!(t.len() > 32, "STR0_32 of {} bytes refused: {}", t.len(), e),
        }
        let mut p = ByteParser::new(&d, 0);
        match STR0_255::deserialize(&mut p) {
            Ok(v) => ensure!(v.data == t && v.length as usize == t.len(), "STR0_255 decoded to different text"),
            Err(e) => fail!("STR0_255 of {} bytes refused: {}", t.len(), e),
        }
    }
    Ok(())
}
fn c11_bytes(c: &mut Case) -> Res {
    let l = c.s.draw(0, 140_000, |r| match r.next() % 9 {
        0 => 31 + r.next() % 3,
        1 => 255 + r.next() % 3,
        2 => 65_533 + r.next() % 6,
        3 => 256 + r.next() % 64,
        4 => 65_536 + r.next() % 300,
        5 => r.next() % 70_000,
        _ => r.next() % 300,
    }) as usize;
    let d = c.s.bytes(l);
    c.show(|| format!("{} bytes {}", d.len(), hex(&d[..d.len().min(32)])));
    c.nontrivial = l >= 31;
    b31(d.clone(), true)?;
    b32(d.clone(), true)?;
    b255(d.clone(), true)?;
    b64k(d.clone(), true)?;
    b16m(d.clone(), true)?;
    for (name, pre, max) in [("B0_31", 1, 31), ("B0_32", 1, 32), ("B0_255", 1, 255), ("B0_64K", 2, 65535), ("B0_16M", 3, (1 << 24) - 1)] {
        if d.len() >= 1 << (8 * pre) {
            continue;
        }
        let mut e = le(d.len() as u64, pre);
        e.extend(&d);
        e.push(1);
        match (by_name(name).decode_slice)(&e) {
            Ok(o) => {
                ensure!(d.len() <= max, "{} decoded {} bytes", name, d.len());
                ensure!(o.vals() == vec![V::B(d.clone())] && o.lens() == vec![(d.len() as u64, d.len() as u64)], "{} decoded to different bytes", name);
            }
            Err(e) => ensure!(d.len() > max, "{} of {} bytes refused: {}", name, d.len(), e),
        }
    }
    Ok(())
}
fn c11_big(c: &mut Case) -> Res {
    // contents are zero pages that are never touched, so sizes beyond memory are cheap
    const L: &[u64] = &[
        (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 255, (1 << 24) + 65_536, 1 << 25, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
        (1 << 32) + 1, (1 << 32) + 20, (1 << 32) + 200, (1 << 32) + 65_535, (1 << 32) + (1 << 24) - 1, (1 << 32) + (1 << 24), 65_535, 65_536, 131_071,
    ];
    let i = c.s.uni(0, L.len() as u64 - 1) as usize;
    let l = L[i] as usize;
    c.show(|| format!("{} zero bytes", l));
    c.nontrivial = true;
    b16m(vec![0; l], false)?;
    b64k(vec![0; l], false)?;
    b255(vec![0; l], false)?;
    b32(vec![0; l], false)?;
    b31(vec![0; l], false)?;
    if l >= 1 << 24 {
        // SAFETY: zero bytes are valid UTF-8
        let s = unsafe { String::from_utf8_unchecked(vec![0; l]) };
        ensure!(STR0_255::new(s).is_err(), "STR0_255 accepted {} bytes", l);
        let s = unsafe { String::from_utf8_unchecked(vec![0; l]) };
        ensure!(STR0_32::new(s).is_err(), "STR0_32 accepted {} bytes", l);
    }
    if l <= 1 << 24 {
        // real content at the limit, decoded
        let mut r = Rng::new(l as u64);
        let d: Vec<u8> = (0..l).map(|_| r.next() as u8).collect();
        b16m(d.clone(), true)?;
        if l < 1 << 24 {
            let mut e = le(l as u64, 3);
            e.extend(&d);
            match (by_name("B0_16M").decode_slice)(&e) {
                Ok(o) => ensure!(o.vals() == vec![V::B(d)] && o.lens() == vec![(l as u64, l as u64)], "B0_16M of {} bytes decoded differently", l),
                Err(x) => fail!("B0_16M of {} bytes refused: {}", l, x),
            }
        }
    }
    Ok(())
}
/// All sizes 0..=700 of all one-byte types; all sizes of B0_64K in steps.
fn c11_sizes(c: &mut Case) -> Res {
    let i = c.s.uni(0, 1399) as usize;
    c.nontrivial = true;
    if i < 700 {
        let t: String = "é".repeat(i / 2) + if i % 2 == 1 { "x" } else { "" };
        str32(c, &t)?;
        str255(c, &t)?;
        let t = "a".repeat(i);
        str32(c, &t)?;
        str255(c, &t)?;
        let d: Vec<u8> = (0..i).map(|x| x as u8).collect();
        b31(d.clone(), true)?;
        b32(d.clone(), true)?;
        b255(d.clone(), true)?;
        b64k(d.clone(), true)?;
        b16m(d, true)?;
    } else {
        let k = (i - 700) * 100;
        for l in k..k + 100 {
            b64k(vec![3; l], false)?;
            b16m(vec![4; l], false)?;
        }
    }
    Ok(())
}
fn c11_u24(c: &mut Case) -> Res {
    let x = c.s.draw(0, u64::MAX, |r| match r.next() % 5 {
        0 => (1u64 << 24) + 3 - r.next() % 6,
        1 => (r.next() << 24) | (r.next() & 0xff_ffff),
        2 => (1u64 << 32).wrapping_add(r.next() % 40_000_000),
        3 => r.next() & 0xff_ffff,
        _ => biased(r, 0, u64::MAX),
    });
    c.show(|| format!("{:#x}", x));
    c.nontrivial = x > 0xffff;
    let ok = x < 1 << 24;
    ensure!(U24::MIN == 0 && U24::MAX == (1 << 24) - 1 && U24::BITS == 24, "U24 bounds: {} {} {} bits", U24::MIN, U24::MAX, U24::BITS);
    let r = U24::try_from(x as usize);
    ensure!(r.is_ok() == ok, "U24::try_from({}) accepted: {}", x, r.is_ok());
    if let Ok(v) = r {
        ensure!(v.0 as u64 == x && v == x as u32 && x as u32 == v && usize::from(v.clone()) as u64 == x && u32::from(v.clone()) as u64 == x, "U24 of {} holds {}", x, v.0);
        ensure!(v != (x as u32 ^ 0x100_0000) && !((x as u32).wrapping_add(1) == v), "U24 equal to another number");
    }
    let y = x as u32;
    ensure!(U24::new(y).is_ok() == (y < 1 << 24) && U24::try_from(y).is_ok() == (y < 1 << 24), "U24::new({}) wrong", y);
    let a = c.s.arr32();
    let u = U256::from(a);
    ensure!(u == a && a == u && u.0 == a, "U256 differs from its bytes");
    let mut z = a;
    let k = c.s.below(32);
    z[k] ^= 1 << c.s.below(8);
    ensure!(!(u == z) && !(z == u), "U256 equal to different bytes");
    let back: [u8; 32] = u.into();
    ensure!(back == a, "U256 conversion changed the bytes");
    Ok(())
}

// ---------------------------------------------------------------- C12
/// Possibly rule-breaking connection request values.
fn c12_setup(c: &mut Case) -> Res {
    let subs: Vec<&Subject> = subjects().iter().filter(|s| matches!(s.rule, Rule::Setup(_))).collect();
    let sub = *c.s.pick(&subs);
    let o = match sub.rule {
        Rule::Setup(o) => o,
        _ => 0,
    };
    let mut vals = gen_valid(&mut c.s, sub);
    for i in [o, o + 1] {
        vals[i] = V::N(c.s.draw(0, 0xffff, |r| if r.one_in(6) { r.next() % 3 } else { biased(r, 0, 0xffff) }));
    }
    let mut long = false;
    for i in [o + 3, o + 5, o + 6, o + 7, o + 8] {
        if c.s.one_in(9) {
            let l = c.s.draw(0, 70_000, |r| match r.next() % 4 { 0 => 0, 1 => 255 + r.next() % 3, 2 => 256 + r.next() % 300, _ => r.next() % 256 }) as usize;
            vals[i] = V::B(c.s.string(l).into_bytes());
            long |= l > 255;
        }
    }
    let want = rule_err(sub.rule, &vals).is_none() && !long;
    c.show(|| show_vals(sub, &vals));
    c.nontrivial = true;
    c.hit(if want { "valid" } else { "rule-breaking" });
    verdict(sub, &vals, want, "constructor", (sub.build)(&vals))?;
    if !long {
        let e = ref_encode(sub, &vals);
        verdict(sub, &vals, want, "decoder", (sub.decode_slice)(&e))?;
        verdict(sub, &vals, want, "opened frame", (sub.unframe.unwrap())(&Message::new(mt_by_code(0), e)))?;
    }
    Ok(())
}
fn verdict(sub: &Subject, vals: &[V], want: bool, how: &str, got: Result<Box<dyn Obj>, Error>) -> Res {
    match got {
        Ok(x) => {
            ensure!(want, "{} via {}: rule-breaking values accepted: {}", sub.name, how, show_vals(sub, vals));
            ensure!(x.vals() == vals, "{} via {}: fields changed to {} from {}", sub.name, how, show_vals(sub, &x.vals()), show_vals(sub, vals));
        }
        Err(e) => ensure!(!want, "{} via {}: valid values refused ({}): {}", sub.name, how, e, show_vals(sub, vals)),
    }
    Ok(())
}
/// All version pairs near the limits, and all values of each version.
fn c12_versions(c: &mut Case) -> Res {
    let subs: Vec<&Subject> = subjects().iter().filter(|s| matches!(s.rule, Rule::Setup(_))).collect();
    let i = c.s.uni(0, subs.len() as u64 * 1024 - 1);
    let sub = subs[(i % subs.len() as u64) as usize];
    let o = match sub.rule {
        Rule::Setup(o) => o,
        _ => 0,
    };
    let vals = gen_valid(&mut Src::random(i), sub);
    c.nontrivial = true;
    let base = (i / subs.len() as u64) * 64;
    for x in base..base + 64 {
        for (p, q) in [(x, 2), (2, x), (x, 0xffff), (0xffff, x), (x, x), (x, 1), (0, x)] {
            let mut v = vals.clone();
            v[o] = V::N(p);
            v[o + 1] = V::N(q);
            let want = p >= 2 && q >= 2;
            verdict(sub, &v, want, "constructor", (sub.build)(&v))?;
            if x % 8 == 0 || x < 64 {
                verdict(sub, &v, want, "decoder", (sub.decode_slice)(&ref_encode(sub, &v)))?;
            }
        }
    }
    Ok(())
}
/// Every length of every connection string.
fn c12_lengths(c: &mut Case) -> Res {
    let i = c.s.uni(0, 4 * 5 * 300 - 1);
    let subs: Vec<&Subject> = subjects().iter().filter(|s| matches!(s.rule, Rule::Setup(_))).collect();
    let sub = subs[(i % 4) as usize];
    let o = match sub.rule {
        Rule::Setup(o) => o,
        _ => 0,
    };
    let f = [o + 3, o + 5, o + 6, o + 7, o + 8][(i / 4 % 5) as usize];
    let l = (i / 20) as usize;
    let mut g = Src::random(i);
    let mut v = gen_valid(&mut g, sub);
    v[f] = V::B(g.string(l).into_bytes());
    c.nontrivial = true;
    let want = rule_err(sub.rule, &v).is_none() && l <= 255;
    verdict(sub, &v, want, "constructor", (sub.build)(&v))?;
    if l <= 255 {
        verdict(sub, &v, want, "decoder", (sub.decode_slice)(&ref_encode(sub, &v)))?;
    }
    Ok(())
}
fn c12_error(c: &mut Case) -> Res {
    let i = c.s.uni(0, 8 * 3 * 2 - 1);
    let sub = by_name(["mining::SetupConnectionError", "job_negotiation::SetupConnectionError"][(i % 2) as usize]);
    let mask = if i % 2 == 0 { 7 } else { 1 };
    let v = vec![V::N(i / 6 & mask), V::N(i / 2 % 3)];
    c.show(|| show_vals(sub, &v));
    c.nontrivial = true;
    let want = !(n(&v[0]) == 0 && n(&v[1]) == 0);
    verdict(sub, &v, want, "constructor", (sub.build)(&v))?;
    let e = ref_encode(sub, &v);
    verdict(sub, &v, want, "decoder", (sub.decode_slice)(&e))?;
    verdict(sub, &v, want, "opened frame", (sub.unframe.unwrap())(&Message::new(mt_by_code(2), e)))
}
fn c12_channel(c: &mut Case) -> Res {
    let subs: Vec<&Subject> = subjects().iter().filter(|s| s.is_message() && s.rule == Rule::None).collect();
    let sub = *c.s.pick(&subs);
    let mut v = gen_valid(&mut c.s, sub);
    let mut want = true;
    for (i, k) in sub.fields.iter().enumerate() {
        if c.s.one_in(3) {
            let (m, text) = match k {
                K::Str(m) => (*m, true),
                K::Bytes(1, m) => (*m, false),
                _ => continue,
            };
            let l = c.s.draw(0, 70_000, |r| match r.next() % 4 { 0 => m as u64 + r.next() % 2, 1 => 256 + r.next() % 300, 2 => m as u64 + 1 + r.next() % 30, _ => r.next() % (m as u64 + 1) }) as usize;
            v[i] = V::B(if text { c.s.string(l).into_bytes() } else { c.s.bytes(l) });
            want &= l <= m;
        }
    }
    c.show(|| show_vals(sub, &v));
    c.nontrivial = true;
    c.hit(if want { "valid" } else { "too long" });
    verdict(sub, &v, want, "constructor", (sub.build)(&v))?;
    if sub.fields.iter().zip(&v).all(|(k, x)| !matches!(k, K::Str(_) | K::Bytes(1, _)) || b(x).len() <= 255) {
        verdict(sub, &v, want, "decoder", (sub.decode_slice)(&ref_encode(sub, &v)))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
const FLAG_TYPES: [(&str, u32); 4] = [
    ("mining::SetupConnectionFlags", 7),
    ("mining::SetupConnectionSuccessFlags", 3),
    ("job_negotiation::SetupConnectionFlags", 1),
    ("job_negotiation::SetupConnectionSuccessFlags", 0),
];
fn flag_word(t: usize, w: u32) -> Res {
    use stratumv2::codec::{deserialize, serialize};
    let d = w.to_le_bytes();
    let mask = FLAG_TYPES[t].1;
    macro_rules! go {
        ($t:ty) => {
            match deserialize::<$t>(&d) {
                Ok(f) => {
                    ensure!(w & !mask == 0, "{}: word {:#x} accepted as {:#x}", FLAG_TYPES[t].0, w, f.bits());
                    ensure!(f.bits() == w, "{}: word {:#x} became {:#x}", FLAG_TYPES[t].0, w, f.bits());
                    ensure!(serialize(&f).ok() == Some(d.to_vec()), "{}: word {:#x} encodes differently", FLAG_TYPES[t].0, w);
                }
                Err(_) => ensure!(w & !mask != 0, "{}: word {:#x} refused", FLAG_TYPES[t].0, w),
            }
        };
    }
    match t {
        0 => go!(mining::SetupConnectionFlags),
        1 => go!(mining::SetupConnectionSuccessFlags),
        2 => go!(jn::SetupConnectionFlags),
        _ => go!(jn::SetupConnectionSuccessFlags),
    }
    Ok(())
}
fn c13_flags(c: &mut Case) -> Res {
    let t = c.s.below(4);
    let w = c.s.draw(0, 0xffff_ffff, |r| match r.next() % 5 {
        0 => 1 << (r.next() % 32),
        1 => (1 << (r.next() % 32)) | (1 << (r.next() % 32)),
        2 => r.next() % 16,
        3 => biased(r, 0, 0xffff_ffff),
        _ => r.next() & 0xffff_ffff,
    }) as u32;
    c.show(|| format!("{} word {:#010x}", FLAG_TYPES[t].0, w));
    c.nontrivial = true;
    flag_word(t, w)?;
    // flags inside their messages, next to other fields
    let sub = by_name(["mining::SetupConnection", "mining::SetupConnectionSuccess", "job_negotiation::SetupConnection", "job_negotiation::SetupConnectionSuccess"][t]);
    let v = gen_valid(&mut c.s, sub);
    let fi = sub.fields.iter().position(|k| matches!(k, K::Flags(_))).unwrap();
    let mut parts: Vec<Vec<u8>> = sub.fields.iter().zip(&v).map(|(k, v)| ref_field(*k, v)).collect();
    parts[fi] = w.to_le_bytes().to_vec();
    match (sub.decode_slice)(&parts.concat()) {
        Ok(o) => ensure!(w & !FLAG_TYPES[t].1 == 0 && o.vals()[fi] == V::N(w as u64), "{}: flag word {:#x} accepted as {:?}", sub.name, w, o.vals()[fi]),
        Err(e) => ensure!(w & !FLAG_TYPES[t].1 != 0, "{}: flag word {:#x} refused: {}", sub.name, w, e),
    }
    Ok(())
}
/// All words below 2^16 and all words with at most two bits set, each type.
fn c13_words(c: &mut Case) -> Res {
    let i = c.s.uni(0, 4 * 257 - 1);
    let t = (i % 4) as usize;
    let k = i / 4;
    c.nontrivial = true;
    if k == 256 {
        for a in 0..32 {
            for b in 0..32 {
                flag_word(t, (1 << a) | (1 << b))?;
                flag_word(t, !((1 << a) | (1 << b)))?;
            }
        }
    } else {
        for w in k * 256..k * 256 + 256 {
            flag_word(t, w as u32)?;
            flag_word(t, (w as u32) << 16)?;
        }
    }
    Ok(())
}
/// All 2^32 words of each flag type (thorough tier), 2^20 per case.
fn c13_all_words(c: &mut Case) -> Res {
    let i = c.s.uni(0, 4 * 4096 - 1);
    let t = (i % 4) as usize;
    c.nontrivial = true;
    let base = ((i / 4) as u32) << 20;
    for w in 0..1u32 << 20 {
        flag_word(t, base | w)?;
    }
    Ok(())
}
fn c13_names(c: &mut Case) -> Res {
    let _ = c.s.uni(0, 0);
    c.nontrivial = true;
    use mining::{SetupConnectionFlags as A, SetupConnectionSuccessFlags as B};
    use stratumv2::codec::serialize;
    let t = [
        ("REQUIRES_STANDARD_JOBS", A::REQUIRES_STANDARD_JOBS.bits(), 1, serialize(&A::REQUIRES_STANDARD_JOBS)),
        ("REQUIRES_WORK_SELECTION", A::REQUIRES_WORK_SELECTION.bits(), 2, serialize(&A::REQUIRES_WORK_SELECTION)),
        ("REQUIRES_VERSION_ROLLING", A::REQUIRES_VERSION_ROLLING.bits(), 4, serialize(&A::REQUIRES_VERSION_ROLLING)),
        ("REQUIRES_FIXED_VERSION", B::REQUIRES_FIXED_VERSION.bits(), 1, serialize(&B::REQUIRES_FIXED_VERSION)),
        ("REQUIRES_EXTENDED_CHANNELS", B::REQUIRES_EXTENDED_CHANNELS.bits(), 2, serialize(&B::REQUIRES_EXTENDED_CHANNELS)),
        ("mining NONE", B::NONE.bits(), 0, serialize(&B::NONE)),
        ("REQUIRES_ASYNC_JOB_MINING", jn::SetupConnectionFlags::REQUIRES_ASYNC_JOB_MINING.bits(), 1, serialize(&jn::SetupConnectionFlags::REQUIRES_ASYNC_JOB_MINING)),
        ("job negotiation NONE", jn::SetupConnectionSuccessFlags::NONE.bits(), 0, serialize(&jn::SetupConnectionSuccessFlags::NONE)),
    ];
    for (name, bits, want, enc) in t {
        ensure!(bits == want, "{} is {:#x} instead of {:#x}", name, bits, want);
        ensure!(enc.ok() == Some(le(want as u64, 4)), "{} is encoded differently", name);
    }
    for (i, code) in SC_CODES.iter().enumerate() {
        let e = sc_code(i as u64);
        code_all(*code, Some(i as u64), "SetupConnectionErrorCode", e.to_string(), String::from(&e), STR0_255::from(&e))?;
    }
    for (i, code) in OC_CODES.iter().enumerate() {
        let e = oc_code(i as u64);
        code_all(*code, Some(i as u64), "OpenMiningChannelErrorCode", e.to_string(), String::from(&e), STR0_255::from(&e))?;
    }
    Ok(())
}
fn code_all(code: &str, _i: Option<u64>, what: &str, disp: String, st: String, s255: STR0_255) -> Res {
    ensure!(disp == code, "{}: displayed as {:?} instead of {:?}", what, disp, code);
    ensure!(st == code, "{}: text {:?} instead of {:?}", what, st, code);
    ensure!(s255.data == code && s255.length as usize == code.len(), "{}: wire string {:?} instead of {:?}", what, s255, code);
    Ok(())
}
fn parse_codes(t: &str) -> Res {
    let a = SC_CODES.iter().position(|x| *x == t).map(|x| x as u64);
    let z = OC_CODES.iter().position(|x| *x == t).map(|x| x as u64);
    macro_rules! go {
        ($ty:ty, $want:expr, $name:expr) => {
            let mut got: Vec<(&str, Option<u64>)> = vec![
                ("from_str", <$ty>::from_str(t).ok().map(|e| n(&e.v()))),
                ("try_from String", <$ty>::try_from(t.to_string()).ok().map(|e| n(&e.v()))),
            ];
            if t.len() <= 255 {
                let s = STR0_255 { length: t.len() as u8, data: t.to_string() };
                got.push(("try_from STR0_255", <$ty>::try_from(s).ok().map(|e| n(&e.v()))));
                let mut d = vec![t.len() as u8];
                d.extend(t.as_bytes());
                got.push(("decode", stratumv2::codec::deserialize::<$ty>(&d).ok().map(|e| n(&e.v()))));
            }
            for (how, g) in got {
                ensure!(g == $want, "{} {}: {:?} parsed as {:?} instead of {:?}", $name, how, t, g, $want);
            }
        };
    }
    go!(SetupConnectionErrorCode, a, "SetupConnectionErrorCode");
    go!(OpenMiningChannelErrorCode, z, "OpenMiningChannelErrorCode");
    Ok(())
}
fn c13_codes(c: &mut Case) -> Res {
    let t = match c.s.below(4) {
        0 => c.s.pick(SC_CODES).to_string(),
        1 => c.s.pick(OC_CODES).to_string(),
        2 => gen_bad_code(&mut c.s, SC_CODES),
        _ => gen_bad_code(&mut c.s, OC_CODES),
    };
    c.show(|| format!("{:?}", t));
    c.nontrivial = true;
    parse_codes(&t)
}
/// Every code with one ASCII character inserted, replaced or removed, at every position.
fn c13_one_edit(c: &mut Case) -> Res {
    let i = c.s.uni(0, ONE_EDITS - 1) as usize;
    let (code, ch, how) = (i / 384, (i % 128) as u8 as char, i / 128 % 3);
    c.nontrivial = true;
    let all: Vec<&str> = SC_CODES.iter().chain(OC_CODES.iter()).copied().collect();
    let code = match all.get(code) {
        Some(x) => x,
        None => return Ok(()),
    };
    c.show(|| format!("{:?} {} {:?}", code, ["inserting", "replacing by", "followed by a word after"][how], ch));
    for p in 0..=code.len() {
        let t = match how {
            0 => format!("{}{}{}", &code[..p], ch, &code[p..]),
            1 if p < code.len() => format!("{}{}{}", &code[..p], ch, &code[p + 1..]),
            1 => code[1..].to_string(),
            _ if p == 0 => format!("x{}{}", ch, code),
            _ if p == code.len() => format!("{}{}x", code, ch),
            _ => format!("{}{}{}", &code[..p], ch, code),
        };
        parse_codes(&t)?;
    }
    Ok(())
}
const ONE_EDITS: u64 = 384 * 16;
fn c13_tags(c: &mut Case) -> Res {
    let i = c.s.uni(0, 256 * 8 - 1);
    let x = i as u8;
    let want = if x < 4 { Some(x as u64) } else { None };
    c.nontrivial = true;
    ensure!(Protocol::try_from(x).ok().map(|p| n(&p.v())) == want, "tag {} converts to {:?}", x, Protocol::try_from(x).ok());
    ensure!(stratumv2::codec::deserialize::<Protocol>(&[x]).ok().map(|p| n(&p.v())) == want, "tag {} decodes wrongly", x);
    if let Some(w) = want {
        let p = protocol(w);
        ensure!(u8::from(p) == x && u8::from(&p) == x && stratumv2::codec::serialize(&p).ok() == Some(vec![x]), "protocol {:?} has tag {}", p, u8::from(p));
    }
    // the tag selects the sub-protocol of a connection request
    let sub = by_name("job_negotiation::SetupConnection");
    let mut g = Src::random(i);
    let v = gen_valid(&mut g, sub);
    let mut d = vec![x];
    d.extend(ref_encode(sub, &v));
    c.show(|| format!("tag {} with {}", x, show_vals(sub, &v)));
    for r in [
        stratumv2::codec::deserialize::<common::SetupConnection>(&d),
        stratumv2::codec::unframe::<common::SetupConnection>(&Message::new(MessageType::SetupConnection, d.clone())),
    ] {
        match (x, r) {
            (0, Ok(common::SetupConnection::Mining(_))) | (1, Ok(common::SetupConnection::JobNegotiation(_))) => {}
            (0, _) | (1, _) => fail!("tag {} did not select its sub-protocol", x),
            (_, Ok(_)) => fail!("tag {} accepted", x),
            (2, Err(e)) | (3, Err(e)) => ensure!(kind(&e) == E::Unimplemented, "unimplemented sub-protocol {} reported as {}", x, e),
            (_, Err(_)) => {}
        }
    }
    // foreign flags: a mining-only flag is refused in a job negotiation request
    if x < 2 {
        let fl = 1 + g.uni(1, 6) as u32;
        let mut m = v.clone();
        m[2] = V::N(fl as u64);
        let mut d = vec![x];
        d.extend(m.iter().zip(&sub.fields).flat_map(|(v, k)| ref_field(*k, v)));
        let r = stratumv2::codec::deserialize::<common::SetupConnection>(&d);
        ensure!(r.is_ok() == (x == 0), "flags {:#x} with tag {}: accepted {}", fl, x, r.is_ok());
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
/// A writer that follows a script of per-call behaviours.
struct Scripted {
    script: Vec<i64>, // n>0: accept up to n bytes; 0: accept none; -1: interrupted; -2..: error
    pos: usize,
    cycle: bool,
    out: Vec<u8>,
    calls: usize,
    short: bool,
}
const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
    io::ErrorKind::StorageFull,
];
impl Write for Scripted {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 200_000 {
            return Err(io::Error::new(io::ErrorKind::Other, "too many calls"));
        }
        let a = if self.pos < self.script.len() {
            self.script[self.pos]
        } else if self.cycle && !self.script.is_empty() {
            self.pos = 0;
            self.script[0]
        } else {
            1 << 40
        };
        self.pos += 1;
        match a {
            -1 => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            -2 => Err(io::Error::new(io::ErrorKind::WouldBlock, "would block")),
            -3 => Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")),
            n if n < 0 => Err(io::Error::new(KINDS[(-n) as usize % KINDS.len()], "injected failure")),
            n => {
                let k = (n as usize).min(b.len());
                self.short |= k < b.len();
                self.out.extend(&b[..k]);
                Ok(k)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn c14_scripts(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    let obj = match (sub.build)(&vals) {
        Ok(o) => o,
        Err(_) => return Err(Stop::Discard("constructor refused a valid value (C11/C12 decide that)")),
    };
    let want = ref_encode(sub, &vals);
    let k = c.s.len(24);
    let script: Vec<i64> = (0..k)
        .map(|_| match c.s.weighted(&[6, 4, 3, 1, 1, 1, 2]) {
            0 => 1 << 40,
            1 => c.s.uni(1, 8) as i64,
            2 => -1,
            3 => 0,
            4 => -2,
            5 => -3,
            _ => -4 - c.s.below(KINDS.len()) as i64,
        })
        .collect();
    let cycle = c.s.coin() && script.iter().any(|x| *x != 0 && *x != -1);
    c.show(|| format!("{} to a writer with script {:?} cycle {}", show_vals(sub, &vals), script, cycle));
    let mut w = Scripted { script, pos: 0, cycle, out: vec![], calls: 0, short: false };
    let r = obj.ser(&mut w);
    c.nontrivial = w.short || w.calls > 1 && w.out.len() != want.len();
    match r {
        Ok(n) => {
            c.hit(if w.short { "completed over short writes" } else { "completed" });
            ensure!(w.out == want, "{}: success reported, but the writer received {} instead of {}", sub.name, hex(&w.out), hex(&want));
            ensure!(n == want.len(), "{}: {} bytes reported, {} written", sub.name, n, want.len());
        }
        Err(_) => c.hit("failure reported"),
    }
    Ok(())
}
/// Every failing byte position, with fixed-size buffers and one-byte writers.
fn c14_positions(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    let obj = match (sub.build)(&vals) {
        Ok(o) => o,
        Err(_) => return Err(Stop::Discard("constructor refused a valid value (C11/C12 decide that)")),
    };
    let want = ref_encode(sub, &vals);
    c.show(|| format!("{} into every smaller buffer", show_vals(sub, &vals)));
    c.nontrivial = want.len() > 1;
    let mut caps: Vec<usize> = if want.len() <= 200 { (0..want.len()).collect() } else { let o = offsets(sub, &vals); (0..8).chain(o.iter().flat_map(|x| [x.saturating_sub(1), *x, x + 1, x + 2])).chain([want.len() - 1, want.len() / 2]).filter(|x| *x < want.len()).collect() };
    caps.push(want.len());
    caps.push(want.len() + 3);
    for cap in caps {
        let mut buf = vec![0xAAu8; cap];
        let (r, left) = {
            let mut w: &mut [u8] = &mut buf;
            let r = obj.ser(&mut w);
            (r, w.len())
        };
        match r {
            Ok(n) => {
                ensure!(cap >= want.len(), "{}: success reported for {} bytes in a buffer of {}", sub.name, n, cap);
                ensure!(n == want.len() && cap - left == want.len() && buf[..want.len()] == want[..], "{}: buffer content differs", sub.name);
            }
            Err(_) => ensure!(cap < want.len(), "{}: a buffer of {} bytes was enough for {} but the encoding failed", sub.name, cap, want.len()),
        }
        // error after `cap` bytes, delivered one byte at a time
        struct After(usize, Vec<u8>);
        impl Write for After {
            fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                if b.is_empty() {
                    return Ok(0);
                }
                if self.1.len() >= self.0 {
                    return Err(io::Error::new(io::ErrorKind::Other, "full"));
                }
                self.1.push(b[0]);
                Ok(1)
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
        let mut w = After(cap, vec![]);
        match obj.ser(&mut w) {
            Ok(n) => ensure!(n == want.len() && w.1 == want, "{}: success reported with {} of {} bytes delivered", sub.name, w.1.len(), want.len()),
            Err(_) => {}
        }
    }
    Ok(())
}
fn c14_certs(c: &mut Case) -> Res {
    use stratumv2::codec::Serializable;
    let kp = StaticKeyPair::default();
    let pk = kp.get_public_key();
    let a = c.s.int(0, 0xffff_fffe) as u32;
    let cert = match SignedCertificate::new(c.s.int(0, 0xffff) as u16, a, u32::MAX, &pk) {
        Ok(x) => x,
        Err(_) => return Err(Stop::Discard("certificate refused")),
    };
    let script: Vec<i64> = if c.s.coin() {
        let step = c.s.uni(1, 9) as i64;
        if c.s.coin() {
            vec![-1, step]
        } else {
            vec![step]
        }
    } else {
        (0..1 + c.s.len(8))
            .map(|_| match c.s.weighted(&[2, 4, 3, 2, 1]) {
                0 => 1 << 40,
                1 => c.s.uni(1, 40) as i64,
                2 => -1,
                3 => 0,
                _ => -2 - c.s.below(KINDS.len()) as i64,
            })
            .collect()
    };
    let cycle = script.iter().any(|x| *x != 0 && *x != -1) && c.s.coin() || script.len() <= 2 && script[0] != 0;
    c.show(|| format!("certificate and key to a writer with script {:?} cycle {}", script, cycle));
    c.nontrivial = true;
    let mut want = cert.version.to_le_bytes().to_vec();
    want.extend(a.to_le_bytes());
    want.extend([0xff; 4]);
    let snm = SignatureNoiseMessage { version: cert.version, valid_from: a, not_valid_after: u32::MAX, signature: stratumv2::noise::Signature::try_from(&[0u8; 64][..]).unwrap() };
    want.extend(pk.as_bytes());
    let writer = || Scripted { script: script.clone(), pos: 0, cycle, out: vec![], calls: 0, short: false };
    let mut w = writer();
    if let Ok(n) = cert.serialize(&mut w) {
        ensure!(w.out == want && n == want.len(), "certificate: success reported with {} instead of {}", hex(&w.out), hex(&want));
    }
    let mut w = writer();
    if let Ok(n) = pk.serialize(&mut w) {
        ensure!(w.out == pk.as_bytes() && n == 32, "public key: success reported with {} instead of {}", hex(&w.out), hex(&pk.as_bytes()));
    }
    static AUTH: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let auth = AUTH.get_or_init(|| {
        let k: ed25519_dalek::PublicKey = (&ed25519_dalek::SecretKey::from_bytes(&[7; 32]).unwrap()).into();
        crate::p_cert::base58(&k.to_bytes())
    });
    if !c.s.one_in(4) {
        return Ok(());
    }
    if let Ok(f) = CertificateFormat::new(auth, &pk, &snm) {
        let mut w = writer();
        if let Ok(n) = f.serialize(&mut w) {
            ensure!(w.out == want && n == want.len(), "rebuilt certificate: success reported with {} instead of {}", hex(&w.out), hex(&want));
        }
    }
    Ok(())
}
fn c14_large(c: &mut Case) -> Res {
    let l = c.s.int(0, 1 << 20) as usize;
    let kind = TABLE[c.s.below(TABLE.len())].0;
    let which = c.s.below(3);
    let data = c.s.bytes(l);
    let chunk = c.s.int(1, 70_000) as i64;
    let (o, want): (Box<dyn Obj>, Vec<u8>) = match which {
        0 => {
            let v = vec![V::N(kind as u64), V::B(data)];
            let s = by_name("Message");
            ((s.build)(&v).map_err(|_| Stop::Discard("refused"))?, ref_encode(s, &v))
        }
        k => {
            let s = if k == 1 { by_name("B0_16M") } else { by_name("B0_64K") };
            let v = vec![V::B(if k == 2 { data[..data.len().min(65535)].to_vec() } else { data })];
            ((s.build)(&v).map_err(|_| Stop::Discard("refused"))?, ref_encode(s, &v))
        }
    };
    c.show(|| format!("{} bytes in chunks of {}", want.len(), chunk));
    c.nontrivial = want.len() > chunk as usize;
    let mut w = Scripted { script: vec![chunk], pos: 0, cycle: true, out: vec![], calls: 0, short: false };
    if let Ok(n) = o.ser(&mut w) {
        ensure!(w.out == want && n == want.len(), "success reported with {} of {} bytes ({} reported)", w.out.len(), want.len(), n);
    }
    Ok(())
}

// ---------------------------------------------------------------- C15
fn c15_decode(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let d = gen_hostile(&mut c.s, sub);
    let dec = if c.s.one_in(6) { gen_subject(&mut c.s) } else { sub };
    mem_check(c, dec, &d)
}
fn mem_check(c: &mut Case, dec: &Subject, d: &[u8]) -> Res {
    c.show(|| format!("{}: {}", dec.name, hex(d)));
    c.nontrivial = d.len() >= 2;
    let bound = 16 * d.len() + 4096;
    let (r, total, peak) = alloc::measure(|| (dec.decode_slice)(d));
    c.hit(if r.is_ok() { "accepted" } else { "rejected" });
    ensure!(total <= bound && peak <= bound, "{}: decoding {} bytes allocated {} bytes (peak {})", dec.name, d.len(), total, peak);
    if let (Some(u), Some(code)) = (dec.unframe, dec.code) {
        let m = Message::new(mt_by_code(code), d.to_vec());
        let (_, total, peak) = alloc::measure(|| u(&m));
        ensure!(total <= bound && peak <= bound, "{}: opening a frame of {} bytes allocated {} bytes (peak {})", dec.name, d.len(), total, peak);
    }
    Ok(())
}
/// Short inputs with every kind of large declared length.
fn c15_lengths(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    let mut parts: Vec<Vec<u8>> = sub.fields.iter().zip(&vals).map(|(k, v)| ref_field(*k, v)).collect();
    let vars: Vec<(usize, usize)> = sub
        .fields
        .iter()
        .enumerate()
        .filter_map(|(i, k)| match k {
            K::Str(_) | K::Code(_) => Some((i, 1)),
            K::Bytes(p, _) => Some((i, *p)),
            _ => None,
        })
        .collect();
    if vars.is_empty() {
        return mem_check(c, sub, &parts.concat());
    }
    let (i, p) = *c.s.pick(&vars);
    let max = (1u64 << (8 * p)) - 1;
    let l = c.s.draw(0, max, |r| match r.next() % 3 { 0 => max - r.next() % 4, 1 => r.range(max / 2, max), _ => biased(r, 0, max) });
    let have = c.s.len(64).min(l as usize);
    parts[i] = le(l, p);
    parts[i].extend(vec![b'x'; have]);
    if c.s.coin() {
        parts.truncate(i + 1);
    }
    mem_check(c, sub, &parts.concat())
}
fn c15_large(c: &mut Case) -> Res {
    let sub = *c.s.pick(&[by_name("Message"), by_name("B0_16M"), by_name("B0_64K")]);
    let p = if sub.name == "B0_64K" { 2 } else { 3 };
    let have = c.s.int(0, if p == 2 { 65_535 } else { 300_000 }) as usize;
    let decl = if c.s.coin() { have as u64 } else { c.s.int(0, (1u64 << (8 * p)) - 1) };
    let mut d = if sub.name == "Message" { vec![0, 0, 0x10] } else { vec![] };
    d.extend(le(decl, p));
    d.extend(vec![0x61; have]);
    mem_check(c, sub, &d)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "cases: a type and values for all its fields (lengths biased to 0, limits and literals of the code; text of 1-4 byte characters; all float bit patterns), junk before and after; plus complete sweeps of field lengths, 16-bit values and Unicode characters. Non-trivial: some field is neither zero nor empty. Distinct by the sequence of generator choices.",
            assumptions: &["values are built with the public constructors (length fields consistent with their data)"],
            subs: vec![
                sub("roundtrip", 400_000, 8_000_000, c01_random),
                all("every-length", len_sweep_table().len() as u64, c01_lengths),
                all("every-u16", 256 * subjects().iter().flat_map(|s| s.fields.iter()).filter(|k| **k == K::U16).count() as u64, c01_u16),
                all("every-character", 0x10ffff / 64 + 1, c01_chars),
                sub("large", 300, 6000, c01_large),
                all("largest", 6, c01_max).threads(4),
            ],
        },
        Prop {
            id: "C02",
            rule: "cases: a type and values for all its fields; oracle: an encoder written from the specification. Non-trivial: some field is neither zero nor empty. Distinct by the sequence of generator choices.",
            assumptions: &["the reference layout table in harness/src/schema.rs was transcribed from the field tables of the specification"],
            subs: vec![
                sub("layout", 500_000, 10_000_000, c02_random),
                all("every-length", len_sweep_table().len() as u64, c02_lengths),
                sub("certificates", 2_000, 40_000, c02_certs),
                all("registered-names", 1, c13_names),
            ],
        },
        Prop {
            id: "C03",
            rule: "cases: hostile bytes aimed at a decoder (random, field-structured garbage, valid encodings with 1-3 mutations), any cursor start and step, text for every text parser; any panic, abort, signal or hang is a violation. Non-trivial: at least two input bytes. Distinct by the sequence of generator choices.",
            assumptions: &["built with overflow checks and debug assertions on"],
            subs: vec![
                sub("decode", 700_000, 20_000_000, c03_decode),
                sub("unframe", 200_000, 5_000_000, c03_unframe),
                sub("cursor", 100_000, 2_000_000, c03_cursor),
                sub("large", 200, 10_000, c03_large),
                sub("text", 60_000, 1_000_000, c03_text),
                all("every-signature-byte", 74 * 256, c03_signature),
            ],
        },
        Prop {
            id: "C04",
            rule: "cases: hostile bytes as for C03, all byte strings of at most two bytes, every byte value at the positions of valid encodings, payloads (with and without bytes after them) opened from frames; oracle: a decoder written from the specification (accept/reject, value, bytes consumed) and re-encoding. Non-trivial: at least two input bytes.",
            assumptions: &["a signature is well-formed if its three most significant bits are clear (the Ed25519 scalar range check the dependency applies)"],
            subs: vec![
                sub("hostile", 800_000, 20_000_000, c04_random),
                sub("opened", 200_000, 5_000_000, c04_opened),
                all("all-short-inputs", subjects().len() as u64 * 257, c04_short),
                all("every-byte-value", subjects().len() as u64 * 40, c04_bytes),
                all("every-length", len_sweep_table().len() as u64, c04_lengths),
            ],
        },
        Prop {
            id: "C05",
            rule: "cases: all (or, above 700 bytes, all structurally relevant) strict prefixes of generated encodings; cursor histories against a model. Non-trivial: the encoding has more than one byte / the history has both a successful and a failed read.",
            assumptions: &[],
            subs: vec![sub("prefixes", 25_000, 500_000, c05_prefixes), sub("cursor", 250_000, 5_000_000, c05_cursor), all("every-length", len_sweep_table().len() as u64, c05_lengths)],
        },
        Prop {
            id: "C06",
            rule: "cases: a valid value with exactly one injected fault of a known kind (truncation, bad UTF-8, excess length, empty required field, version, flag bits, code, type, channel bit, tag, signature range), decoded, opened from a frame or constructed; oracle: the error variant. Every case is non-trivial.",
            assumptions: &[],
            subs: vec![sub("decode", 400_000, 8_000_000, c06_decode), sub("construct", 150_000, 3_000_000, c06_construct), sub("unframe", 50_000, 1_000_000, c06_unframe)],
        },
        Prop {
            id: "C09",
            rule: "cases: sequences of 1-121 values and frames of mixed types in one buffer, decoded with one cursor; frames with arbitrary payloads, also ending at or next to multiples of powers of two. Non-trivial: at least two items.",
            assumptions: &[],
            subs: vec![sub("mixed-stream", 60_000, 1_000_000, c09_stream), sub("frames", 40_000, 600_000, c09_frames), all("far", C09_FAR, c09_far)],
        },
        Prop {
            id: "C11",
            rule: "cases: contents of lengths around and beyond each limit (up to beyond 2^32, using untouched zero pages), construction, comparison, conversion and decoding; all sizes up to 700 and, for the larger types, up to 70000. Non-trivial: near or beyond a limit, or multi-byte text.",
            assumptions: &["values are built with the public constructors, not by writing the public length field"],
            subs: vec![
                sub("text", 120_000, 2_000_000, c11_text),
                sub("bytes", 30_000, 300_000, c11_bytes),
                all("beyond-memory", 20, c11_big).threads(2),
                all("every-size", 1400, c11_sizes),
                sub("u24-u256", 500_000, 10_000_000, c11_u24),
            ],
        },
        Prop {
            id: "C12",
            rule: "cases: connection requests and errors with valid and rule-breaking field values, through constructors, decoders and frames of both sub-protocols; all values of each version field; every length of every string; all flag/code combinations; channel messages around their limits. Every case is non-trivial.",
            assumptions: &[],
            subs: vec![
                sub("setup", 250_000, 5_000_000, c12_setup),
                all("every-version", 4 * 1024, c12_versions),
                all("every-length", 4 * 5 * 300, c12_lengths),
                all("every-error-combination", 48, c12_error),
                sub("channel", 150_000, 3_000_000, c12_channel),
            ],
        },
        Prop {
            id: "C13",
            rule: "cases: flag words (all 16-bit patterns in either half, all one- and two-bit words and their complements, random; all 2^32 in the thorough tier), registered and near-miss code strings through every conversion, all 256 tags. Every case is non-trivial.",
            assumptions: &[],
            subs: {
                let mut v = vec![
                    sub("flag-words", 300_000, 3_000_000, c13_flags),
                    all("structured-words", 4 * 257, c13_words),
                    all("names", 1, c13_names),
                    sub("codes", 300_000, 5_000_000, c13_codes), all("one-edit", ONE_EDITS, c13_one_edit),
                    all("every-tag", 256 * 8, c13_tags),
                ];
                if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) {
                    v.push(all("all-words", 4 * 4096, c13_all_words));
                }
                v
            },
        },
        Prop {
            id: "C14",
            rule: "cases: a value and a writer script (per-call accepted byte counts, zero-length acceptance, interruptions, errors), fixed buffers of every smaller size, one-byte writers failing at every position. Non-trivial: the writer accepted less than offered at least once.",
            assumptions: &[],
            subs: vec![
                sub("scripted-writers", 400_000, 8_000_000, c14_scripts),
                sub("every-position", 30_000, 400_000, c14_positions),
                sub("certificates", 4_000, 60_000, c14_certs),
                sub("large", 400, 6_000, c14_large),
            ],
        },
        Prop {
            id: "C15",
            rule: "cases: hostile bytes as for C03 and short inputs with large declared lengths; oracle: total and peak bytes requested from the allocator during the decode are at most 16 x input + 4096. Non-trivial: at least two input bytes.",
            assumptions: &["allocation is measured as bytes requested from the global allocator on the decoding thread"],
            subs: vec![sub("hostile", 400_000, 8_000_000, c15_decode), sub("declared-lengths", 300_000, 5_000_000, c15_lengths), sub("large", 3_000, 50_000, c15_large)],
        },
    ]
}
