//! C07, C08, C10: network frames.
use crate::engine::*;
use crate::schema::*;
use crate::{ensure, fail};
use std::io::{self, Write};
use stratumv2::codec::{deserialize, serialize, Message, Serializable};
use stratumv2::error::Error;
use stratumv2::types::MessageType;

// ---------------------------------------------------------------- C07
fn c07_headers(c: &mut Case) -> Res {
    let e = c.s.uni(0, 0xffff) as u16;
    c.nontrivial = true;
    for t in 0..=255u8 {
        let d = [e as u8, (e >> 8) as u8, t, 0, 0, 0];
        let reg = table_bit(t).filter(|_| e & 0x7fff == 0);
        let bit = e & 0x8000 != 0;
        match deserialize::<Message>(&d) {
            Ok(m) => {
                ensure!(reg == Some(bit), "frame header {:#06x}/{:#04x} accepted", e, t);
                ensure!(m.message_type == mt_by_code(t), "frame header {:#06x}/{:#04x} opened as {:?}", e, t, m.message_type);
                ensure!(serialize(&m).ok() == Some(d.to_vec()), "kind {:?} is encoded differently", m.message_type);
            }
            Err(x) => ensure!(reg != Some(bit), "frame header {:#06x}/{:#04x} refused: {}", e, t, x),
        }
        // the lookup takes the extension number without the channel bit
        let known = e == 0 && table_bit(t).is_some();
        match MessageType::new(e, t) {
            Ok(m) => ensure!(known && m == mt_by_code(t), "MessageType::new({:#x},{:#x}) returned {:?}", e, t, m),
            Err(Error::UnknownMessageType()) => ensure!(!known, "MessageType::new({:#x},{:#x}) refused", e, t),
            Err(x) => fail!("MessageType::new({:#x},{:#x}): {}", e, t, x),
        }
    }
    Ok(())
}
fn c07_kinds(c: &mut Case) -> Res {
    let i = c.s.uni(0, TABLE.len() as u64 - 1) as usize;
    let (code, bit, name) = TABLE[i];
    let m = mt(name);
    c.show(|| name.to_string());
    c.nontrivial = true;
    ensure!(m.ext_type() == 0, "{}: extension number {:#x}", name, m.ext_type());
    ensure!(m.msg_type() == code, "{}: type code {:#x} instead of {:#x}", name, m.msg_type(), code);
    ensure!(m.channel_bit() == bit, "{}: channel bit {}", name, m.channel_bit());
    ensure!(MessageType::new(m.ext_type(), m.msg_type()).ok() == Some(m), "{}: code does not lead back to the kind", name);
    for (j, (_, _, other)) in TABLE.iter().enumerate() {
        if i != j {
            ensure!((mt(other).ext_type(), mt(other).msg_type()) != (m.ext_type(), m.msg_type()), "{} and {} share a code", name, other);
        }
    }
    Ok(())
}
/// The header of any frame, whatever its payload, identifies its kind.
fn c07_frames(c: &mut Case) -> Res {
    let (code, bit, name) = TABLE[c.s.below(TABLE.len())];
    let l = if c.s.one_in(300) { c.s.len(300_000) } else { c.s.len(3000) };
    let p = c.s.bytes(l);
    c.show(|| format!("{} with {} byte payload {}", name, p.len(), hex(&p[..p.len().min(40)])));
    c.nontrivial = !p.is_empty();
    let e = match serialize(&Message::new(mt(name), p.clone())) {
        Ok(e) => e,
        Err(x) => fail!("{} frame refused: {}", name, x),
    };
    ensure!(e.len() >= 3 && e[..3] == [0, if bit { 0x80 } else { 0 }, code], "{} frame starts with {}", name, hex(&e[..e.len().min(3)]));
    match deserialize::<Message>(&e) {
        Ok(m) => ensure!(m.message_type == mt(name), "{} frame opened as {:?}", name, m.message_type),
        Err(x) => fail!("{} frame refused: {}", name, x),
    }
    // any other header in front of the same payload leads to another kind or is refused
    let h = c.s.draw(0, 0xff_ffff, |r| match r.next() % 4 {
        0 => (TABLE[(r.next() % TABLE.len() as u64) as usize].0 as u64) << 16 | (r.next() & 0x8000),
        1 => (code as u64) << 16 | (1 << (r.next() % 16)),
        _ => r.next() & 0xff_ffff,
    });
    let mut d = e.clone();
    d[..3].copy_from_slice(&le(h, 3));
    if c.s.one_in(200) {
        // however much follows the frame
        let more = c.s.int(0, 200_000) as usize;
        d.resize(d.len() + more, more as u8);
    }
    let reg = table_bit(d[2]).filter(|b| (h & 0x7fff) == 0 && *b == (h & 0x8000 != 0));
    match deserialize::<Message>(&d) {
        Ok(m) => ensure!(reg.is_some() && m.message_type == mt_by_code(d[2]), "header {} opened as {:?}", hex(&d[..3]), m.message_type),
        Err(x) => ensure!(reg.is_none(), "header {} refused: {}", hex(&d[..3]), x),
    }
    Ok(())
}

// ---------------------------------------------------------------- C08
struct Count(u64, Vec<u8>);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        let k = b.len().min(16usize.saturating_sub(self.1.len()));
        self.1.extend(&b[..k]);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn frame_exact(c: &mut Case, name: &str, p: Vec<u8>, post: &[u8]) -> Res {
    let l = p.len();
    let e = match serialize(&Message::new(mt(name), p.clone())) {
        Ok(e) => e,
        Err(x) => fail!("payload of {} bytes refused: {}", l, x),
    };
    ensure!(e.len() == l + 6, "frame of {} payload bytes has {} bytes", l, e.len());
    ensure!(e[3..6] == le(l as u64, 3)[..], "payload of {} bytes announced as {}", l, hex(&e[3..6]));
    ensure!(e[6..] == p[..], "payload altered");
    let mut w = vec![];
    match Message::new(mt(name), p.clone()).serialize(&mut w) {
        Ok(k) => ensure!(k == e.len() && w == e, "{} bytes reported for a frame of {}", k, e.len()),
        Err(x) => fail!("refused: {}", x),
    }
    let mut d = e;
    d.extend(post);
    match deserialize::<Message>(&d) {
        Ok(m) => ensure!(m.payload == p, "decoded payload of {} bytes differs (original {})", m.payload.len(), l),
        Err(x) => fail!("frame of {} bytes refused: {}", l, x),
    }
    let _ = c;
    Ok(())
}
fn c08_exact(c: &mut Case) -> Res {
    let (_, _, name) = TABLE[c.s.below(TABLE.len())];
    let l = c.s.draw(0, 200_000, |r| match r.next() % 8 {
        0 => 254 + r.next() % 4,
        1 => 65_533 + r.next() % 6,
        2 => biased(r, 0, 200_000),
        _ => r.next() % 600,
    }) as usize;
    let p = c.s.bytes(l);
    let k = c.s.len(40);
    let post = c.s.bytes(k);
    c.show(|| format!("{} with {} byte payload, {} trailing", name, l, post.len()));
    c.nontrivial = l > 0;
    frame_exact(c, name, p, &post)
}
fn c08_sweep(c: &mut Case) -> Res {
    let l = c.s.uni(0, 9999) as usize;
    c.nontrivial = l > 0;
    let mut r = Rng::new(l as u64);
    let p: Vec<u8> = (0..l).map(|_| r.next() as u8).collect();
    frame_exact(c, TABLE[l % TABLE.len()].2, p, &[1, 2])
}
const BIG: &[u64] = &[
    65_535, 65_536, 1 << 20, (1 << 20) + 1, (1 << 22) - 1, (1 << 23) - 1, 1 << 23, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 65_535,
    (1 << 24) + 65_536, 1 << 25, (1 << 25) + 5, (1 << 28) + 3, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 5, (1 << 32) + 65_535,
    (1 << 32) + (1 << 24) - 1, (1 << 32) + (1 << 24), (1 << 33) + 7,
];
fn c08_big(c: &mut Case) -> Res {
    let l = BIG[c.s.uni(0, BIG.len() as u64 - 1) as usize];
    c.show(|| format!("payload of {} bytes", l));
    c.nontrivial = true;
    if l < 1 << 24 {
        let mut r = Rng::new(l);
        let p: Vec<u8> = (0..l).map(|_| r.next() as u8).collect();
        return frame_exact(c, "SetTarget", p, &[9]);
    }
    // zero pages, never touched unless the encoder accepts them
    let m = Message::new(MessageType::SetTarget, vec![0u8; l as usize]);
    let mut w = Count(0, vec![]);
    match m.serialize(&mut w) {
        Ok(n) => fail!("payload of {} bytes framed as {} ({} bytes reported)", l, hex(&w.1), n),
        Err(_) => ensure!(w.0 == 0, "payload of {} bytes refused after {} bytes were written", l, w.0),
    }
    Ok(())
}
fn c08_too_long(c: &mut Case) -> Res {
    let l = c.s.draw(1 << 24, 1 << 33, |r| match r.next() % 4 {
        0 => (1 << 24) + r.next() % 70_000,
        1 => (1 << 32) + r.next() % (1 << 24),
        2 => (1 + r.next() % 511) << 24 | (r.next() & 0xffff),
        _ => biased(r, 1 << 24, 1 << 33),
    });
    c.show(|| format!("payload of {} bytes", l));
    c.nontrivial = true;
    let m = Message::new(mt(TABLE[(l % TABLE.len() as u64) as usize].2), vec![0u8; l as usize]);
    let mut w = Count(0, vec![]);
    match m.serialize(&mut w) {
        Ok(n) => fail!("payload of {} bytes framed as {} ({} bytes reported)", l, hex(&w.1), n),
        Err(_) => ensure!(w.0 == 0, "payload of {} bytes refused after {} bytes were written", l, w.0),
    }
    Ok(())
}
fn c08_declared(c: &mut Case) -> Res {
    let (code, bit, name) = TABLE[c.s.below(TABLE.len())];
    let have = c.s.len(2000);
    let decl = c.s.draw(0, 0xff_ffff, |r| match r.next() % 5 {
        0 => have as u64,
        1 => have as u64 + 1 + r.next() % 3,
        2 => (have as u64).saturating_sub(1 + r.next() % 3),
        3 => (have as u64) | 1 << (8 + r.next() % 16),
        _ => biased(r, 0, 0xff_ffff),
    }) as usize;
    let p = c.s.bytes(have);
    c.show(|| format!("{} declaring {} bytes followed by {}", name, decl, have));
    c.nontrivial = decl != have;
    let mut d = vec![0, if bit { 0x80 } else { 0 }, code];
    d.extend(le(decl as u64, 3));
    d.extend(&p);
    match deserialize::<Message>(&d) {
        Ok(m) => {
            ensure!(decl <= have, "a frame declaring {} bytes was accepted with {}", decl, have);
            ensure!(m.payload == p[..decl], "payload of {} bytes instead of {}", m.payload.len(), decl);
        }
        Err(Error::ParseError(_)) => ensure!(decl > have, "a frame declaring {} of {} bytes was refused", decl, have),
        Err(x) => fail!("unexpected error {}", x),
    }
    Ok(())
}

// ---------------------------------------------------------------- C10
fn open_checks(_c: &mut Case, sub: &Subject, payload: &[u8], vals: Option<&[V]>, kind: u8) -> Res {
    let m = Message::new(mt_by_code(kind), payload.to_vec());
    match ((sub.unframe.unwrap())(&m), Some(kind) == sub.code) {
        (Ok(o), true) => {
            if let Some(v) = vals {
                ensure!(o.vals() == v, "{}: opened frame holds {}", sub.name, show_vals(sub, &o.vals()));
            }
        }
        (Ok(_), false) => fail!("a frame of kind {:#x} was opened as {}", kind, sub.name),
        (Err(e), true) => ensure!(vals.is_none() && !matches!(e, Error::UnexpectedMessageType(..)), "{}: own frame refused: {}", sub.name, e),
        (Err(e), false) => ensure!(matches!(e, Error::UnexpectedMessageType(..)), "a frame of kind {:#x} opened as {}: {}", kind, sub.name, e),
    }
    Ok(())
}
fn c10_pairs(c: &mut Case) -> Res {
    let ms: Vec<&Subject> = subjects().iter().filter(|s| s.is_message()).collect();
    let i = c.s.uni(0, (ms.len() * TABLE.len() * 20) as u64 - 1) as usize;
    let sub = ms[i % ms.len()];
    let kind = TABLE[i / ms.len() % TABLE.len()].0;
    let mut g = Src::random(i as u64);
    let vals = gen_valid(&mut g, sub);
    c.show(|| format!("{} in a frame of kind {:#x}", show_vals(sub, &vals), kind));
    c.nontrivial = true;
    open_checks(c, sub, &ref_encode(sub, &vals), Some(&vals), kind)?;
    // payload of another message type, and nothing at all
    let other = ms[g.below(ms.len())];
    let ov = gen_valid(&mut g, other);
    open_checks(c, sub, &ref_encode(other, &ov), None, kind)?;
    open_checks(c, sub, &[], None, kind)
}
fn c10_frames(c: &mut Case) -> Res {
    let sub = gen_message_subject(&mut c.s);
    let vals = gen_valid(&mut c.s, sub);
    c.show(|| show_vals(sub, &vals));
    c.nontrivial = true;
    let obj = match (sub.build)(&vals) {
        Ok(o) => o,
        Err(_) => return Err(Stop::Discard("constructor refused a valid value (C11/C12 decide that)")),
    };
    ensure!((sub.own_type.unwrap())() == mt_by_code(sub.code.unwrap()), "{} claims kind {:?}", sub.name, (sub.own_type.unwrap())());
    let m = match obj.frame().unwrap() {
        Ok(m) => m,
        Err(e) => fail!("{}: framing failed: {}", sub.name, e),
    };
    ensure!(m.message_type == mt_by_code(sub.code.unwrap()), "{} framed as {:?}", sub.name, m.message_type);
    ensure!(Some(&m.payload) == obj.to_vec().ok().as_ref(), "{}: payload is not the message's encoding", sub.name);
    // through the wire
    let e = match serialize(&m) {
        Ok(e) => e,
        Err(e) => fail!("{}: frame refused: {}", sub.name, e),
    };
    let m2 = match deserialize::<Message>(&e) {
        Ok(m) => m,
        Err(e) => fail!("{}: frame refused: {}", sub.name, e),
    };
    for s in subjects().iter().filter(|s| s.is_message()) {
        let r = (s.unframe.unwrap())(&m2);
        if s.code != sub.code {
            match r {
                Err(Error::UnexpectedMessageType(..)) => {}
                Ok(_) => fail!("a {} frame was opened as {}", sub.name, s.name),
                Err(e) => fail!("a {} frame opened as {}: {}", sub.name, s.name, e),
            }
        } else if s.name == sub.name {
            match r {
                Ok(o) => ensure!(o.vals() == obj.vals(), "{}: opened frame holds {}", sub.name, show_vals(sub, &o.vals())),
                Err(e) => fail!("{}: own frame refused: {}", sub.name, e),
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "cases: complete enumeration of 2^16 extension/channel-bit values x 2^8 type codes (one case per extension value), complete enumeration of the kinds, and frames of every kind with generated payloads, some followed by up to 200000 other bytes. Non-trivial: every enumerated header; frames with a payload.",
            assumptions: &["the reference table in harness/src/schema.rs was transcribed from the specification's message type table"],
            subs: vec![all("all-headers", 0x10000, c07_headers), all("all-kinds", TABLE.len() as u64, c07_kinds), sub("frames", 100_000, 2_000_000, c07_frames)],
        },
        Prop {
            id: "C08",
            rule: "cases: payload sizes 0..=200000 (biased to boundaries), every size below 10000, sizes around 2^24 and up to beyond 2^33 (untouched zero pages), declared lengths against available data. Non-trivial: non-empty payload / declared differs from available.",
            assumptions: &[],
            subs: vec![
                sub("exact", 40_000, 600_000, c08_exact),
                all("every-size", 10_000, c08_sweep),
                all("boundaries", BIG.len() as u64, c08_big).threads(2),
                sub("too-long", 300, 5000, c08_too_long).threads(2),
                sub("declared", 200_000, 4_000_000, c08_declared),
            ],
        },
        Prop {
            id: "C10",
            rule: "cases: all pairs of message type and frame kind with 20 generated payloads each (own, foreign and empty); generated messages framed, sent through the wire format and opened as every type. Every case is non-trivial.",
            assumptions: &["the three connection request types share one kind, so opening one as another is outside the property"],
            subs: vec![
                all("all-pairs", (subjects().iter().filter(|s| s.is_message()).count() * TABLE.len() * 20) as u64, c10_pairs),
                sub("frames", 120_000, 2_000_000, c10_frames),
            ],
        },
    ]
}
