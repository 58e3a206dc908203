//! C29 and C31: the outgoing message queue, and errors.
use crate::engine::*;
use crate::p_codec::gen_hostile;
use crate::schema::*;
use crate::{ensure, fail};
use noiseexplorer_nx::error::NoiseError;
use noiseexplorer_nx::types as nt;
use std::collections::VecDeque;
use std::convert::TryFrom;
use std::error::Error as StdError;
use std::io;
use std::str::FromStr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Barrier;
use std::time::{Duration, SystemTime};
use stratumv2::codec::{ByteParser, Message};
use stratumv2::error::Error;
use stratumv2::network::{ConnectionEncryptor, Encryptor, Peer};
use stratumv2::noise::{CertificateFormat, SignatureNoiseMessage, SignedCertificate};

// ---------------------------------------------------------------- C29
/// An encryptor with nothing behind it: the queue must not depend on it.
pub struct Plain(pub bool);
impl Encryptor for Plain {
    fn is_handshake_complete(&self) -> bool {
        self.0
    }
    fn recv_handshake(&mut self, b: &mut [u8]) -> stratumv2::error::Result<Vec<u8>> {
        Ok(b.to_vec())
    }
    fn init_handshake(&mut self) -> stratumv2::error::Result<Vec<u8>> {
        Ok(vec![])
    }
    fn encrypt_message(b: &[u8]) -> Vec<u8> {
        b.to_vec()
    }
    fn decrypt_message(b: &[u8]) -> Vec<u8> {
        b.to_vec()
    }
}

pub fn gen_message(c: &mut Case) -> Message {
    let k = TABLE[c.s.below(TABLE.len())].0;
    let l = if c.s.one_in(12) { c.s.len(70_000) } else { c.s.len(40) };
    let p = if c.s.one_in(6) { c.s.literal_str().into_bytes() } else { c.s.bytes(l) };
    Message::new(mt_by_code(k), p)
}
fn msg_text(m: &Message) -> String {
    format!("{:?}[{}]", m.message_type, hex(&m.payload[..m.payload.len().min(8)]))
}

fn drain_against<E: Encryptor>(peer: &Peer<E>, model: &mut VecDeque<Message>) -> Res {
    let got = peer.get_pending_msgs();
    for (i, m) in got.iter().enumerate() {
        match model.pop_front() {
            None => fail!("a drain returned {} messages, only {} were queued", got.len(), i),
            Some(w) => ensure!(*m == w, "position {} of a drain of {}: {} instead of {}", i, got.len(), msg_text(m), msg_text(&w)),
        }
    }
    ensure!(model.is_empty(), "a drain returned {} messages and left out {}", got.len(), model.len());
    let l = peer.pending_msg_buffer.lock().unwrap().len();
    ensure!(l == 0, "{} messages remain queued after a drain", l);
    Ok(())
}
fn c29_ops<E: Encryptor>(c: &mut Case, mut peer: Peer<E>) -> Res {
    let mut model: VecDeque<Message> = VecDeque::new();
    let mut prev: Option<Message> = None;
    let steps = 1 + c.s.len(30);
    let mut log = String::new();
    let (mut queued, mut drains) = (0usize, 0usize);
    for _ in 0..steps {
        match c.s.weighted(&[6, 4, 2, 1, 2, 1]) {
            0 => {
                // one message, sometimes equal to the one before
                let m = match &prev {
                    Some(p) if c.s.one_in(4) => p.clone(),
                    _ => gen_message(c),
                };
                prev = Some(m.clone());
                log.push_str(&format!("queue {}; ", msg_text(&m)));
                peer.pending_msg_buffer.lock().unwrap().push(m.clone());
                model.push_back(m);
                queued += 1;
            }
            1 => {
                log.push_str("drain; ");
                drain_against(&peer, &mut model)?;
                drains += 1;
            }
            2 => {
                // many at once: around powers of two and limits a buffer may have
                let n = c.s.draw(0, 5000, |r| match r.next() % 4 {
                    0 => biased(r, 0, 5000),
                    1 => (1u64 << (r.next() % 13)) + r.next() % 3 - 1,
                    _ => r.range(0, 200),
                });
                let k = TABLE[c.s.below(TABLE.len())].0;
                log.push_str(&format!("queue {} numbered; ", n));
                let mut b = peer.pending_msg_buffer.lock().unwrap();
                for i in 0..n {
                    let m = Message::new(mt_by_code(k), (i as u32).to_le_bytes().to_vec());
                    b.push(m.clone());
                    model.push_back(m);
                }
                queued += n as usize;
            }
            3 => {
                // the buffer keeps or gains spare capacity; nothing observable changes
                let n = c.s.below(300);
                let mut b = peer.pending_msg_buffer.lock().unwrap();
                b.reserve(n);
                if c.s.coin() {
                    b.shrink_to_fit();
                }
            }
            4 => {
                // the peer's connection request does not matter to the queue
                let sub = by_name(if c.s.coin() { "common::SetupConnection(mining)" } else { "common::SetupConnection(job_negotiation)" });
                let vals = gen_valid(&mut c.s, sub);
                peer.setup_conn_msg = stratumv2::codec::deserialize(&ref_encode(sub, &vals)).ok();
                log.push_str("setup; ");
            }
            _ => {
                peer.setup_conn_msg = None;
                let mut b = vec![0u8; 200];
                if c.s.coin() {
                    let _ = peer.encryptor.init_handshake();
                } else {
                    let _ = peer.encryptor.recv_handshake(&mut b);
                }
            }
        }
    }
    drain_against(&peer, &mut model)?;
    drain_against(&peer, &mut model)?;
    c.nontrivial = queued > 1 && drains > 0;
    c.show(|| log);
    Ok(())
}
fn c29_sequence(c: &mut Case) -> Res {
    match c.s.below(4) {
        0 => c29_ops(c, Peer::new(Plain(false))),
        1 => c29_ops(c, Peer::new(Plain(true))),
        2 => c29_ops(c, Peer::new(ConnectionEncryptor::new_outbound())),
        _ => c29_ops(c, Peer::new(ConnectionEncryptor::new_inbound(None))),
    }
}
/// Every queue size once.
fn c29_sizes(c: &mut Case) -> Res {
    let i = c.s.uni(0, C29_SIZES - 1);
    let n = if i < 600 { i } else { [1023, 1024, 1025, 2048, 4095, 4096, 4097, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000, 131_072, 200_000][(i - 600) as usize] };
    c.show(|| format!("{} messages", n));
    c.nontrivial = n > 1;
    let peer = Peer::new(Plain(true));
    let mut model = VecDeque::new();
    for round in 0..2u64 {
        for j in 0..n {
            let m = Message::new(mt_by_code(TABLE[(j % TABLE.len() as u64) as usize].0), (j ^ round).to_le_bytes().to_vec());
            peer.pending_msg_buffer.lock().unwrap().push(m.clone());
            model.push_back(m);
        }
        drain_against(&peer, &mut model)?;
        drain_against(&peer, &mut model)?;
    }
    Ok(())
}
const C29_SIZES: u64 = 600 + 16;

fn tag(p: usize, i: u64) -> Message {
    let mut v = (p as u32).to_le_bytes().to_vec();
    v.extend_from_slice(&i.to_le_bytes());
    Message::new(mt_by_code(TABLE[(i % TABLE.len() as u64) as usize].0), v)
}
fn untag(m: &Message) -> Option<(usize, u64)> {
    if m.payload.len() != 12 {
        return None;
    }
    Some((u32::from_le_bytes(m.payload[..4].try_into().unwrap()) as usize, u64::from_le_bytes(m.payload[4..].try_into().unwrap())))
}
fn pause(r: &mut Rng, style: u64) {
    match style {
        0 => {}
        1 => {
            if r.one_in(3) {
                std::thread::yield_now()
            }
        }
        2 => {
            for _ in 0..r.next() % 200 {
                std::hint::spin_loop()
            }
        }
        _ => {
            if r.one_in(16) {
                std::thread::sleep(Duration::from_micros(r.next() % 60))
            } else {
                for _ in 0..r.next() % 50 {
                    std::hint::spin_loop()
                }
            }
        }
    }
}
/// Concurrent producers and drainers. Each drain notes which messages were certainly queued
/// before it started (per producer), so a single drainer must have returned those by its end.
fn c29_threads(c: &mut Case) -> Res {
    let np = 1 + c.s.below(4);
    let nd = 1 + c.s.below(3);
    let per = 1 + c.s.uni(0, 400);
    let batch = 1 + c.s.uni(0, 3);
    let styles: Vec<u64> = (0..np + nd).map(|_| c.s.uni(0, 3)).collect();
    let seed = c.s.uni(0, u64::MAX);
    c.show(|| format!("{} producers of {} messages in groups of {}, {} drainers, pacing {:?}", np, per, batch, nd, styles));
    c.nontrivial = true;
    let peer = Peer::new(Plain(true));
    let done: Vec<AtomicU64> = (0..np).map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let start = Barrier::new(np + nd);
    type Log = Vec<(Vec<u64>, Vec<Message>, u64, u64)>;
    let stamp = AtomicU64::new(0);
    let (logs, died) = std::thread::scope(|sc| {
        let mut ps = vec![];
        for p in 0..np {
            let (peer, done, start, finished, stop) = (&peer, &done, &start, &finished, &stop);
            let style = styles[p];
            ps.push(sc.spawn(move || {
                let mut r = Rng::new(seed ^ (p as u64 + 1) << 32);
                start.wait();
                let mut i = 0;
                while i < per && !stop.load(Ordering::Relaxed) {
                    {
                        let mut b = match peer.pending_msg_buffer.lock() {
                            Ok(b) => b,
                            Err(_) => break,
                        };
                        for _ in 0..batch {
                            if i < per {
                                b.push(tag(p, i));
                                i += 1;
                            }
                        }
                        if style == 3 {
                            // a producer that holds the queue for a while
                            for _ in 0..r.next() % 80 {
                                std::hint::spin_loop()
                            }
                        }
                    }
                    done[p].store(i, Ordering::SeqCst);
                    pause(&mut r, style);
                }
                finished.fetch_add(1, Ordering::SeqCst);
            }));
        }
        let mut ds = vec![];
        for d in 0..nd {
            let (peer, done, start, finished, stamp) = (&peer, &done, &start, &finished, &stamp);
            let style = styles[np + d];
            ds.push(sc.spawn(move || {
                let mut r = Rng::new(seed ^ (d as u64 + 100) << 32);
                let mut log: Log = vec![];
                start.wait();
                loop {
                    let end = finished.load(Ordering::SeqCst) == np;
                    let before: Vec<u64> = done.iter().map(|x| x.load(Ordering::SeqCst)).collect();
                    let t0 = stamp.fetch_add(1, Ordering::SeqCst);
                    let got = peer.get_pending_msgs();
                    let t1 = stamp.fetch_add(1, Ordering::SeqCst);
                    log.push((before, got, t0, t1));
                    if end {
                        return log;
                    }
                    pause(&mut r, style);
                }
            }));
        }
        let mut logs: Vec<Log> = vec![];
        let mut died = false;
        for d in ds {
            match d.join() {
                Ok(l) => logs.push(l),
                Err(_) => {
                    died = true;
                    stop.store(true, Ordering::Relaxed);
                }
            }
        }
        for p in ps {
            died |= p.join().is_err();
        }
        (logs, died)
    });
    ensure!(!died, "a thread queueing or draining panicked");
    // after everything the queue is empty (the last drains started after the last queueing)
    let rest = peer.get_pending_msgs();
    ensure!(rest.is_empty(), "{} messages left after drains that started when all had been queued", rest.len());
    // exactly once, in order within each drainer
    let mut seen: Vec<Vec<u32>> = vec![vec![0; per as usize]; np];
    for (d, log) in logs.iter().enumerate() {
        let mut next = vec![0u64; np];
        for (before, got, _, _) in log {
            for m in got {
                let (p, i) = match untag(m) {
                    Some(x) if x.0 < np && x.1 < per => x,
                    _ => fail!("a drain returned a message nobody queued: {}", msg_text(m)),
                };
                ensure!(*m == tag(p, i), "message {} of producer {} was altered", i, p);
                seen[p][i as usize] += 1;
                ensure!(seen[p][i as usize] == 1, "message {} of producer {} was returned more than once", i, p);
                ensure!(i >= next[p], "drainer {} got message {} of producer {} after message {}", d, i, p, next[p] - 1);
                ensure!(nd > 1 || i == next[p], "producer {}'s message {} was returned before message {}", p, i, next[p]);
                next[p] = i + 1;
            }
            if nd == 1 {
                for p in 0..np {
                    ensure!(next[p] >= before[p], "message {} of producer {} had been queued before a drain started, and it was not returned by its end", next[p], p);
                }
            }
        }
    }
    for (p, s) in seen.iter().enumerate() {
        if let Some(i) = s.iter().position(|x| *x == 0) {
            fail!("message {} of producer {} was lost", i, p);
        }
    }
    // drains that do not overlap in time return a producer's messages in order
    let mut all: Vec<&(Vec<u64>, Vec<Message>, u64, u64)> = logs.iter().flatten().filter(|x| !x.1.is_empty()).collect();
    all.sort_by_key(|x| x.2);
    for p in 0..np {
        // highest index returned by drains that ended before time t
        let mut ended: Vec<(u64, u64)> = vec![];
        for x in &all {
            let idx: Vec<u64> = x.1.iter().filter_map(untag).filter(|y| y.0 == p).map(|y| y.1).collect();
            if let (Some(lo), Some(hi)) = (idx.first(), idx.last()) {
                for (t, h) in ended.iter().rev().take(50) {
                    ensure!(!(*t < x.2 && h > lo), "an earlier drain returned message {} of producer {}, a later one message {}", h, p, lo);
                }
                ended.push((x.3, *hi));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C31
const STEPS: usize = 64;
fn chain(e: &(dyn StdError + 'static)) -> Result<Vec<String>, Stop> {
    let mut v = vec![];
    let mut cur: Option<&(dyn StdError + 'static)> = Some(e);
    while let Some(x) = cur {
        let t = x.to_string();
        if v.is_empty() && t.trim().is_empty() {
            return Err(Stop::Fail(format!("empty message for {:?}", x)));
        }
        ensure!(!format!("{:?}", x).is_empty(), "empty debug text");
        // padding and width apply to any Display implementation
        let _ = format!("{:>20}{:.3}{:#?}", x, x, x);
        v.push(t);
        ensure!(v.len() <= STEPS, "the chain of causes of {:?} does not end within {} steps", e, STEPS);
        cur = x.source();
    }
    Ok(v)
}
fn io_kinds() -> Vec<io::ErrorKind> {
    use io::ErrorKind::*;
    vec![NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other]
}
fn gen_noise_error(c: &mut Case) -> (NoiseError, Option<String>) {
    match c.s.below(17) {
        0 => (NoiseError::DecryptionError, None),
        1 => (NoiseError::UnsupportedMessageLengthError, None),
        2 => (NoiseError::ExhaustedNonceError, None),
        3 => (NoiseError::InvalidKeyError, None),
        4 => (NoiseError::InvalidPublicKeyError, None),
        5 => (NoiseError::EmptyKeyError, None),
        6 => (NoiseError::InvalidInputError, None),
        7 => (NoiseError::DerivePublicKeyFromEmptyKeyError, None),
        8 => (NoiseError::MissingnsError, None),
        9 => (NoiseError::MissingneError, None),
        10 => (NoiseError::MissingHsMacError, None),
        11 => (NoiseError::MissingrsError, None),
        12 => (NoiseError::MissingreError, None),
        _ => {
            // an error from the hexadecimal decoder itself, for any text
            let l = c.s.len(70);
            let t = c.s.string(l);
            let h = match hex03::decode(&t) {
                Ok(_) => hex03::FromHexError::OddLength,
                Err(e) => e,
            };
            let t = h.to_string();
            (NoiseError::Hex(h), Some(t))
        }
    }
}
/// Every kind of error the library has, with generated contents.
fn c31_made(c: &mut Case) -> Res {
    let l = c.s.len(200);
    let t = c.s.string(l);
    let mut cause: Option<String> = None;
    let e: Error = match c.s.below(18) {
        0 => Error::VersionError(t),
        1 => Error::ProtocolMismatchError(t),
        2 => Error::RequirementError(t),
        3 => Error::DeserializationError(t),
        4 => Error::ParseError(t),
        5 => Error::Unimplemented(),
        6 => Error::UnknownErrorCode(),
        7 => Error::UnknownMessageType(),
        8 => Error::UnknownFlags(),
        9 => Error::UnexpectedMessageType(c.s.int(0, 65535) as u16, c.s.int(0, 255) as u8),
        10 => Error::UnexpectedChannelBit(c.s.coin()),
        11 => {
            let k = io_kinds();
            let k = *c.s.pick(&k);
            let e = match c.s.below(3) {
                0 => io::Error::from(k),
                1 => io::Error::new(k, if t.trim().is_empty() { "x".to_string() } else { t }),
                _ => io::Error::from_raw_os_error(c.s.uni(1, 132) as i32),
            };
            cause = Some(e.to_string());
            e.into()
        }
        12 => {
            let l = 1 + c.s.len(20);
            let mut b = c.s.bytes(l);
            let i = c.s.below(b.len());
            b[i] = 0xff;
            let e = std::str::from_utf8(&b).unwrap_err();
            cause = Some(e.to_string());
            if c.s.coin() {
                e.into()
            } else {
                String::from_utf8(b).unwrap_err().into()
            }
        }
        13 => {
            let k = c.s.int(1, u32::MAX as u64);
            let e = SystemTime::UNIX_EPOCH.duration_since(SystemTime::UNIX_EPOCH + Duration::from_nanos(k)).unwrap_err();
            cause = Some(e.to_string());
            e.into()
        }
        14 => {
            let e = <[u8; 4]>::try_from(&[0u8; 3][..]).unwrap_err();
            cause = Some(e.to_string());
            e.into()
        }
        15 => {
            let l = c.s.below(64);
            let b = c.s.bytes(l);
            let e = ed25519_dalek::Signature::try_from(&b[..]).unwrap_err();
            cause = Some(e.to_string());
            e.into()
        }
        _ => {
            let (e, h) = gen_noise_error(c);
            let own = chain(&e)?;
            if let Some(h) = &h {
                ensure!(own.iter().any(|x| x.contains(h.as_str())), "the hexadecimal error {:?} is not traceable in {:?}", h, own);
            }
            cause = Some(h.unwrap_or_else(|| own[0].clone()));
            e.into()
        }
    };
    c.nontrivial = true;
    c.show(|| format!("{:?}", e));
    let v = chain(&e)?;
    if let Some(t) = cause {
        ensure!(v.iter().any(|x| x.contains(&t)), "the cause {:?} does not appear in the chain {:?}", t, v);
    }
    if let Error::NoiseError(n) = &e {
        chain(n)?;
    }
    Ok(())
}
/// Errors returned by the public API for generated input.
fn c31_returned(c: &mut Case) -> Res {
    let mut errs: Vec<Error> = vec![];
    let mut noise: Vec<NoiseError> = vec![];
    match c.s.below(8) {
        0 | 1 => {
            let sub = gen_subject(&mut c.s);
            let d = gen_hostile(&mut c.s, sub);
            let start = if c.s.one_in(4) { c.s.int(0, u64::MAX) as usize } else { 0 };
            errs.extend((sub.decode)(&mut ByteParser::new(&d, start)).err());
            errs.extend((sub.decode_slice)(&d).err());
            c.show(|| format!("decode {} from {}", sub.name, hex(&d)));
        }
        2 => {
            let sub = gen_message_subject(&mut c.s);
            let d = gen_hostile(&mut c.s, sub);
            let k = TABLE[c.s.below(TABLE.len())].0;
            errs.extend((sub.unframe.unwrap())(&Message::new(mt_by_code(k), d)).err());
            let (a, b) = (c.s.int(0, 65535) as u16, c.s.int(0, 255) as u8);
            errs.extend(stratumv2::types::MessageType::new(a, b).err());
            c.show(|| format!("open kind {:#x} as {}", k, sub.name));
        }
        3 => {
            // construction with empty, over-long or otherwise bad fields
            let sub = gen_subject(&mut c.s);
            let mut v = gen_valid(&mut c.s, sub);
            for x in v.iter_mut() {
                if c.s.one_in(3) {
                    let l = if c.s.coin() { 0 } else { 256 + c.s.below(100) };
                    match x {
                        V::B(b) if b.len() != 32 => *b = vec![b'x'; l],
                        V::N(n) if *n < 65536 && sub.name.contains("SetupConnection") => *n = c.s.uni(0, 2).min(*n),
                        _ => {}
                    }
                }
            }
            c.show(|| format!("construct {} {}", sub.name, show_vals(sub, &v)));
            errs.extend((sub.build)(&v).err());
        }
        4 => {
            let l = c.s.len(80);
            let t = if c.s.coin() { c.s.string(l) } else { (0..l).map(|_| b"0123456789abcdefABCDEFg"[c.s.below(23)] as char).collect() };
            noise.extend(nt::Key::from_str(&t).err());
            noise.extend(nt::Psk::from_str(&t).err());
            noise.extend(nt::PrivateKey::from_str(&t).err());
            noise.extend(nt::PublicKey::from_str(&t).err());
            noise.extend(nt::Keypair::from_private_key(nt::PrivateKey::from_bytes([0; 32])).err());
            noise.extend(nt::PublicKey::from_bytes([0; 32]).err());
            if c.s.coin() {
                errs.extend(noise.drain(..).map(Error::from));
            }
            c.show(|| format!("key text {:?}", t));
        }
        5 => {
            let mut i = ConnectionEncryptor::new_outbound();
            let mut r = ConnectionEncryptor::new_inbound(None);
            let n = c.s.len(200);
            let mut b = c.s.bytes(n);
            let early = c.s.coin();
            if early {
                errs.extend(i.recv_handshake(&mut b.clone()).err());
            }
            errs.extend(r.recv_handshake(&mut b).err());
            errs.extend(i.init_handshake().err());
            errs.extend(i.init_handshake().err());
            errs.extend(i.recv_handshake(&mut b).err());
            c.show(|| format!("wrapper given {} bytes", n));
        }
        6 => {
            let n = c.s.len(300);
            let mut s = if c.s.coin() { stratumv2::noise::new_noise_initiator() } else { stratumv2::noise::new_noise_responder(None) };
            for _ in 0..3 {
                let mut b = c.s.bytes(n);
                if c.s.coin() {
                    noise.extend(s.send_message(&mut b).err());
                } else {
                    noise.extend(s.recv_message(&mut b).err());
                }
            }
            c.show(|| format!("session given {} bytes", n));
        }
        _ => {
            let l = c.s.len(60);
            let t = if c.s.coin() { c.s.string(l) } else { (0..l).map(|_| b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabc"[c.s.below(36)] as char).collect() };
            let k = nt::Keypair::default();
            let (f, u) = (c.s.int(0, u32::MAX as u64), c.s.int(0, u32::MAX as u64));
            let sig = stratumv2::noise::Signature::try_from(&[0u8; 64][..]).map_err(|_| Stop::Discard("signature"))?;
            let m = SignatureNoiseMessage { version: 0, valid_from: f as u32, not_valid_after: u as u32, signature: sig };
            match CertificateFormat::new(&t, &k.get_public_key(), &m) {
                Ok(x) => errs.extend(x.verify().err()),
                Err(e) => errs.push(e),
            }
            let at = |s: u64| SystemTime::UNIX_EPOCH + Duration::from_secs(s);
            errs.extend(SignedCertificate::new(0, f as u32, u as u32, &k.get_public_key()).err());
            errs.extend(stratumv2::types::unix_timestamp::system_unix_time_to_u32(&at(u << 5)).err());
            if let Some(old) = SystemTime::UNIX_EPOCH.checked_sub(Duration::from_secs(f)) {
                errs.extend(stratumv2::types::unix_timestamp::system_unix_time_to_u32(&old).err());
            }
            c.show(|| format!("authority key {:?}, interval {}..{}", t, f, u));
        }
    }
    c.nontrivial = !errs.is_empty() || !noise.is_empty();
    for e in &errs {
        chain(e)?;
    }
    for e in &noise {
        chain(e)?;
    }
    for e in errs {
        c.hit(&format!("{:?}", kind(&e)));
    }
    for _ in noise {
        c.hit("noise");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C29",
            rule: "cases: sequences of up to 31 queueings (single, repeated, groups of up to 5000) and drains in any peer state against a queue model; queues of every size 0..599 and of 16 larger sizes; 1-4 producer and 1-3 drainer threads with generated pacing, checked message by message. Non-trivial: something was queued and drained.",
            assumptions: &["schedules are those the operating system produces under the generated pacing"],
            subs: vec![sub("sequences", 30_000, 500_000, c29_sequence), all("sizes", C29_SIZES, c29_sizes), sub("threads", 6_000, 200_000, c29_threads).threads(2)],
        },
        Prop {
            id: "C31",
            rule: "cases: every error kind of both crates with generated contents, and every error returned by decoders, constructors, key parsers, sessions, the wrapper and certificates for generated input; display, debug and the chain of causes (at most 64 steps) are evaluated. Non-trivial: an error was obtained.",
            assumptions: &[],
            subs: vec![sub("made", 400_000, 8_000_000, c31_made), sub("returned", 120_000, 3_000_000, c31_returned)],
        },
    ]
}
