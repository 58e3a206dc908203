//! C32-C35: whole connections, equality, and independence from history.
use crate::clock;
use crate::engine::*;
use crate::noise_ref::{self as nr, Ref};
use crate::p_cert::*;
use crate::p_codec::gen_hostile;
use crate::p_misc::{gen_message, Plain};
use crate::p_noise::{buf, es, kp, pair, rand_keys, session, shake};
use crate::schema::{self, *};
use crate::{ensure, fail};
use ed25519_dalek::Signer;
use noiseexplorer_nx::types::{Keypair, PrivateKey, PublicKey};
use std::convert::TryFrom;
use std::str::FromStr;
use stratumv2::codec::{deserialize, serialize, ByteParser, Deserializable, Message};
use stratumv2::common::SetupConnection;
use stratumv2::network::{Channel, ChannelManager, ConnectionEncryptor, Encryptor, NetworkConfig, NoiseConfig, Peer, ServerConfig};
use stratumv2::{job_negotiation as jobs, mining};
use stratumv2::noise::{new_noise_initiator, new_noise_responder, CertificateFormat, NoiseSession, SignatureNoiseMessage, SignedCertificate};
use stratumv2::types::*;

// ---------------------------------------------------------------- C32
/// A non-empty interval and a time inside it.
fn gen_valid_interval(c: &mut Case) -> (u32, u32, u32) {
    let m = u32::MAX as u64;
    let f = c.s.int(0, m - 1);
    let t = c.s.int(f + 1, m);
    let n = c.s.int(f, t - 1);
    (f as u32, t as u32, n as u32)
}
/// One end of a connection: the queue, the session, and the bytes received so far.
struct End {
    peer: Peer<Plain>,
    s: NoiseSession,
    inbox: Vec<u8>,
    /// what the other end still has to read: subject and values, or a raw message
    due: std::collections::VecDeque<(Option<(&'static Subject, Vec<V>)>, Message)>,
}
fn end(s: NoiseSession) -> End {
    End { peer: Peer::new(Plain(true)), s, inbox: vec![], due: Default::default() }
}
/// Sends bytes as one transport message; garbage may be delivered before it.
fn transmit(c: &mut Case, from: &mut End, to: &mut End, pt: &[u8]) -> Res {
    let mut m = buf(pt, 0, pt.len() + 16);
    if let Err(e) = from.s.send_message(&mut m) {
        fail!("a transport message of {} bytes was refused by its sender: {}", pt.len(), es(&e));
    }
    // any number of wrong ones in a row is refused and changes nothing
    let junk = if c.s.one_in(5) { if c.s.one_in(6) { c.s.below(20) } else { c.s.below(3) } } else { 0 };
    for _ in 0..junk {
        let mut g = match c.s.below(4) {
            0 => {
                let mut g = m.clone();
                let p = c.s.below(g.len() * 8);
                g[p / 8] ^= 1 << (p % 8);
                g
            }
            1 => m[..c.s.below(m.len())].to_vec(),
            2 => {
                let n = c.s.len(300);
                c.s.bytes(n)
            }
            _ => pt.to_vec(),
        };
        c.hit("garbage delivered");
        ensure!(to.s.recv_message(&mut g).is_err(), "garbage of {} bytes was accepted from the network", g.len());
    }
    if let Err(e) = to.s.recv_message(&mut m) {
        fail!("a transport message of {} bytes was refused by the receiver: {}", pt.len(), es(&e));
    }
    to.inbox.extend_from_slice(&m[..pt.len()]);
    Ok(())
}
/// Reads every complete frame from the bytes received so far.
fn read_frames(from: &mut End, to: &mut End) -> Res {
    loop {
        let (m, used) = {
            let mut p = ByteParser::new(&to.inbox, 0);
            match Message::deserialize(&mut p) {
                Ok(m) => (m, to.inbox.len() - remaining(&mut p)),
                Err(e) => {
                    ensure!(kind(&e) == E::Parse, "received bytes rejected: {} ({})", e, hex(&to.inbox));
                    return Ok(());
                }
            }
        };
        to.inbox.drain(..used);
        let (what, want) = match from.due.pop_front() {
            Some(x) => x,
            None => fail!("a message nobody sent arrived: {:?}", m.message_type),
        };
        ensure!(m == want, "sent {:?} of {} bytes, arrived {:?} of {} bytes", want.message_type, want.payload.len(), m.message_type, m.payload.len());
        if let Some((sub, vals)) = what {
            match (sub.unframe.unwrap())(&m) {
                Ok(o) => ensure!(o.vals() == vals, "sent {}, arrived {}", show_vals(sub, &vals), show_vals(sub, &o.vals())),
                Err(e) => fail!("{} arrived but cannot be opened: {}", show_vals(sub, &vals), e),
            }
        }
    }
}
fn flush(c: &mut Case, from: &mut End, to: &mut End) -> Res {
    let msgs = from.peer.get_pending_msgs();
    let style = c.s.below(4);
    let mut stream = vec![];
    let mut frames = vec![];
    for m in &msgs {
        match serialize(m) {
            Ok(b) => {
                stream.extend_from_slice(&b);
                frames.push(b);
            }
            Err(e) => fail!("{:?} of {} bytes cannot be encoded: {}", m.message_type, m.payload.len(), e),
        }
    }
    match style {
        0 => {
            // one frame per transport message, where it fits
            for f in &frames {
                for part in f.chunks(65519) {
                    transmit(c, from, to, part)?;
                }
                read_frames(from, to)?;
                ensure!(to.inbox.is_empty(), "{} bytes are left over after a whole frame", to.inbox.len());
            }
        }
        1 => {
            for part in stream.chunks(65519) {
                transmit(c, from, to, part)?;
            }
            c.hit("several frames in one transport message");
        }
        _ => {
            // frames cut anywhere
            let mut at = 0;
            let mut k = 0;
            while at < stream.len() {
                let left = stream.len() - at;
                let n = if k > 24 { left.min(65519) } else { (1 + c.s.len(400)).min(left) };
                transmit(c, from, to, &stream[at..at + n])?;
                at += n;
                k += 1;
                if c.s.coin() {
                    read_frames(from, to)?;
                }
            }
            c.hit("frames cut across transport messages");
        }
    }
    read_frames(from, to)?;
    ensure!(from.due.is_empty(), "{} messages did not arrive", from.due.len());
    ensure!(to.inbox.is_empty(), "{} bytes are left over", to.inbox.len());
    Ok(())
}
fn c32_connection(c: &mut Case) -> Res {
    let a = gen_auth(c);
    let (from, to, now) = gen_valid_interval(c);
    let version = c.s.int(0, 0xffff) as u16;
    let k = rand_keys(c);
    let sk = static_key(k.rs);
    let cert = match SignedCertificate::new(version, from, to, &sk.get_public_key()).and_then(|x| SignatureNoiseMessage::from_auth_key(&a, &x)) {
        Ok(x) => x,
        Err(e) => fail!("issuing a certificate from {} to {}: {}", from, to, e),
    };
    let cfg = NoiseConfig::new(cert, sk).clone();
    let lib = c.s.coin();
    let (mut i, mut r) = if lib { (new_noise_initiator(), new_noise_responder(Some(cfg.static_key.clone()))) } else { pair(&k, b"") };
    let (la, lb) = (32 + c.s.len(300), 96 + c.s.len(300));
    if let Err(e) = shake(&mut i, &mut r, la, lb) {
        fail!("handshake of {} and {} bytes: {}", la, lb, e);
    }
    let (mut client, mut server) = (end(i), end(r));
    // the certificate travels first, encrypted
    let w = match serialize(&cfg.sig_noise_msg) {
        Ok(w) => w,
        Err(e) => fail!("encoding the certificate: {}", e),
    };
    transmit(c, &mut server, &mut client, &w)?;
    let got = std::mem::take(&mut client.inbox);
    let remote = match client.s.get_remote_static_public_key() {
        Some(k) => k,
        None => fail!("the client reports no remote key"),
    };
    let d = match deserialize::<SignatureNoiseMessage>(&got) {
        Ok(d) => d,
        Err(e) => fail!("the certificate arrived as {}: {}", hex(&got), e),
    };
    let v = verify_at(now as i64, 0, &base58(&a.public.to_bytes()), &remote, &d);
    ensure!(v.is_ok(), "the genuine server is not verified at {} (from {} to {}): {:?}", now, from, to, v);
    // traffic both ways
    let rounds = 1 + c.s.below(6);
    let mut log = format!("library keys: {}; ", lib);
    let mut total = 0;
    for _ in 0..rounds {
        let up = c.s.coin();
        let n = if c.s.one_in(30) { c.s.len(300) } else { c.s.below(6) };
        {
            let e = if up { &mut client } else { &mut server };
            for _ in 0..n {
                let last = if c.s.one_in(6) { e.due.back().cloned() } else { None };
                let (what, m) = if let Some(x) = last {
                    c.hit("the same message twice");
                    x
                } else if n > 20 {
                    // many small ones
                    (None, Message::new(mt_by_code(TABLE[c.s.below(TABLE.len())].0), (total as u32).to_le_bytes().to_vec()))
                } else if c.s.one_in(4) {
                    (None, gen_message(c))
                } else {
                    let sub = gen_message_subject(&mut c.s);
                    let vals = gen_valid(&mut c.s, sub);
                    let o = match (sub.build)(&vals) {
                        Ok(o) => o,
                        Err(e) => fail!("{} cannot be built: {}", show_vals(sub, &vals), e),
                    };
                    match o.frame() {
                        Some(Ok(m)) => (Some((sub, vals)), m),
                        Some(Err(e)) => fail!("{} cannot be framed: {}", show_vals(sub, &vals), e),
                        None => return Err(Stop::Discard("not a message")),
                    }
                };
                log.push_str(&format!("{:?}({}B) ", m.message_type, m.payload.len()));
                e.peer.pending_msg_buffer.lock().unwrap().push(m.clone());
                e.due.push_back((what, m));
                total += 1;
            }
        }
        log.push_str(if up { "up; " } else { "down; " });
        if up { flush(c, &mut client, &mut server)? } else { flush(c, &mut server, &mut client)? }
        if c.s.one_in(8) {
            // both ends renew one direction together; the client's messages are the
            // local cipher state's on one side and the remote's on the other
            log.push_str("rekey; ");
            client.s.rekey_local_cipherstate();
            server.s.rekey_local_cipherstate();
            client.s.rekey_remote_cipherstate();
            server.s.rekey_remote_cipherstate();
        }
    }
    c.nontrivial = total > 1;
    c.show(|| log);
    Ok(())
}
/// One frame of every size around the transport limit.
fn c32_sizes(c: &mut Case) -> Res {
    let i = c.s.uni(0, 499) as usize;
    let n = [0, 65519 - 6 - 50, 65535 - 6 - 50, 131038 - 6 - 50, 70_000][i / 100] + i % 100;
    c.nontrivial = true;
    c.show(|| format!("a frame with {} bytes of payload", n));
    let k = crate::p_noise::Keys { is: [3; 32], ie: [5; 32], rs: [7; 32], re: [9; 32] };
    let (mut x, mut y) = pair(&k, b"");
    if let Err(e) = shake(&mut x, &mut y, 32, 96) {
        fail!("{}", e);
    }
    let (mut client, mut server) = (end(x), end(y));
    for up in [true, false] {
        let m = Message::new(mt_by_code(TABLE[i % TABLE.len()].0), (0..n).map(|j| (j * 31 + i) as u8).collect::<Vec<u8>>());
        let e = if up { &mut client } else { &mut server };
        e.peer.pending_msg_buffer.lock().unwrap().push(m.clone());
        e.due.push_back((None, m));
        if up { flush(c, &mut client, &mut server)? } else { flush(c, &mut server, &mut client)? }
    }
    Ok(())
}

// ---------------------------------------------------------------- C33
/// What a client does with the first transport message of an unknown server.
fn trusts(client: &NoiseSession, authority: &str, first: &[u8], now: u32) -> bool {
    let d = match deserialize::<SignatureNoiseMessage>(first) {
        Ok(d) => d,
        Err(_) => return false,
    };
    match client.get_remote_static_public_key() {
        Some(k) => verify_at(now as i64, 0, authority, &k, &d).is_ok(),
        None => false,
    }
}
fn c33_certificate(c: &mut Case) -> Res {
    let a = gen_auth(c);
    let key = base58(&a.public.to_bytes());
    let (from, to, now) = gen_valid_interval(c);
    let version = c.s.int(0, 0xffff) as u16;
    let k = rand_keys(c);
    let genuine = static_key(k.rs).get_public_key();
    let good = SignatureNoiseMessage { version, valid_from: from, not_valid_after: to, signature: a.sign(&signed_bytes(version, from, to, &genuine.as_bytes())) };
    // the impostor's own key, sometimes close to the genuine one
    let own = loop {
        let x = match c.s.below(4) {
            0 => {
                let mut x = k.rs;
                let p = 8 + c.s.below(230);
                x[p / 8] ^= 1 << (p % 8);
                x
            }
            1 => nr::public(&k.rs),
            _ => c.s.key32(),
        };
        if nr::public(&x) != genuine.as_bytes() {
            break x;
        }
    };
    let pk = nr::public(&own);
    let mut i = session(true, b"", &k.is, Some(&k.ie));
    let mut r = session(false, b"", &own, Some(&k.re));
    let mut i0 = session(true, b"", &k.is, Some(&k.ie));
    let mut r0 = session(false, b"", &k.rs, Some(&k.re));
    if shake(&mut i, &mut r, 96, 96).is_err() || shake(&mut i0, &mut r0, 96, 96).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    c.nontrivial = true;
    let sign = |x: &ed25519_dalek::Keypair, v: u16, f: u32, t: u32, p: &[u8; 32]| SignatureNoiseMessage { version: v, valid_from: f, not_valid_after: t, signature: x.sign(&signed_bytes(v, f, t, p)) };
    let other = auth(&c.s.key32());
    let (m, what) = match c.s.below(8) {
        0 => (good.clone(), "the genuine server's certificate"),
        1 => (sign(&other, version, from, to, &pk), "a certificate from another authority for its own key"),
        2 => (sign(&other, version, from, to, &genuine.as_bytes()), "a certificate from another authority for the genuine key"),
        3 => {
            // the authority's certificate for a third party
            let third = static_key(c.s.key32()).get_public_key().as_bytes();
            (sign(&a, version, from, to, &third), "the certificate of another server")
        }
        4 => {
            // the authority did certify this key, but for another time
            let (f, t) = if c.s.coin() { (to.min(u32::MAX - 1), u32::MAX) } else { (0, from) };
            if f <= now && now < t {
                return Err(Stop::Discard("no change"));
            }
            let mut m = sign(&a, version, f, t, &pk);
            if c.s.coin() {
                m.valid_from = from;
                m.not_valid_after = to;
            }
            (m, "a certificate for its key and another time")
        }
        5 => {
            let mut m = sign(&a, version, from, to, &pk);
            m.version ^= 1 << c.s.below(16);
            (m, "a certificate for its key with another version")
        }
        6 => {
            // the authority signed a prefix or extension of the right bytes
            let mut b = signed_bytes(version, from, to, &pk);
            if c.s.coin() {
                b.truncate(c.s.below(42));
            } else {
                b.push(0);
            }
            (SignatureNoiseMessage { signature: a.sign(&b), ..good.clone() }, "a signature over other bytes")
        }
        _ => {
            // signed by its own static key bytes used as authority
            let z = auth(&own);
            (sign(&z, version, from, to, &pk), "a self-signed certificate")
        }
    };
    c.hit(what);
    c.show(|| format!("impostor presents {}; from {} to {} at {}", what, from, to, now));
    let w = serialize(&m).map_err(|_| Stop::Discard("encoding failed"))?;
    let mut b = buf(&w, 0, w.len() + 16);
    if r.send_message(&mut b).is_err() || i.recv_message(&mut b).is_err() {
        return Err(Stop::Discard("transport failed"));
    }
    ensure!(!trusts(&i, &key, &b, now), "a client trusts an impostor presenting {}", what);
    // the genuine server is trusted
    let w = serialize(&good).map_err(|_| Stop::Discard("encoding failed"))?;
    let mut b = buf(&w, 0, w.len() + 16);
    if r0.send_message(&mut b).is_err() || i0.recv_message(&mut b).is_err() {
        return Err(Stop::Discard("transport failed"));
    }
    ensure!(trusts(&i0, &key, &b, now), "the genuine server is not trusted from {} to {} at {}", from, to, now);
    Ok(())
}
/// A responder that claims the genuine key without having it.
fn c33_claim(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let genuine = nr::public(&k.rs);
    let own = c.s.key32();
    let mut i = session(true, b"", &k.is, Some(&k.ie));
    let mut m = vec![0u8; 32 + c.s.len(100)];
    if i.send_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let mut x = Ref::new(false, b"", own, k.re);
    x.read_a(&m);
    let e = nr::public(&k.re);
    let ie = nr::public(&k.ie);
    let payload = {
        let n = c.s.len(100);
        c.s.bytes(n)
    };
    c.nontrivial = true;
    // refused replies before the claim, which a reader may or may not leave traces of
    let start = x.clone();
    let before = if c.s.coin() { 0 } else { 1 + c.s.below(3) };
    let mut hows = vec![];
    for _ in 0..before {
        let how = c.s.below(3);
        let p = if c.s.coin() { vec![] } else { payload.clone() };
        let mut b = x.write_b_refused(how, &p);
        hows.push(["cut", "static key damaged", "payload damaged"][how]);
        ensure!(i.recv_message(&mut b).is_err() && !i.is_transport(), "a damaged reply was accepted ({:?})", hows);
    }
    if before > 0 && c.s.one_in(3) {
        x = start;
    }
    let (mut reply, what) = match c.s.below(16) {
        // the initiator's own key sent back to it
        13 => {
            let mut b = m[..32].to_vec();
            b.extend_from_slice(&genuine);
            b.extend_from_slice(&[0; 16]);
            b.extend_from_slice(&payload);
            b.extend_from_slice(&[0; 16]);
            (b, "in the clear, with the client's own ephemeral")
        }
        14 => {
            let z = if c.s.coin() { [0; 32] } else { ie };
            (x.write_b_raw(&ie, &z, &genuine, Some(&z), &payload), "with the client's own ephemeral")
        }
        15 => {
            let z = if c.s.coin() { genuine } else { own };
            (x.write_b_raw(&e, &z, &genuine, Some(&z), &payload), "with made-up secrets")
        }
        9 => (x.write_b_skip(&genuine, false, &payload), "leaving out the static secret"),
        10 => (x.write_b_skip(&genuine, true, &payload), "leaving out the static secret, counting from zero"),
        11 => (x.write_b_no_payload(&genuine), "ending after the static key"),
        12 => {
            let mut b = e.to_vec();
            b.extend_from_slice(&genuine);
            b.extend_from_slice(&[0; 16]);
            b.extend_from_slice(&payload);
            b.extend_from_slice(&[0; 16]);
            (b, "in the clear")
        }
        0 => (x.write_b_with(&genuine, &payload), "computing with its own static key"),
        1 => (x.write_b_raw(&e, &nr::dh(&k.re, &ie), &genuine, Some(&nr::dh(&k.re, &ie)), &payload), "reusing the ephemeral secret"),
        2 => (x.write_b_raw(&e, &nr::dh(&k.re, &ie), &genuine, Some(&[0; 32]), &payload), "with a zero static secret"),
        3 => (x.write_b_raw(&e, &nr::dh(&k.re, &ie), &genuine, Some(&genuine), &payload), "with the public key as the secret"),
        4 => (x.write_b_raw(&e, &nr::dh(&k.re, &ie), &genuine, Some(&nr::dh(&k.re, &genuine)), &payload), "with a secret of its ephemeral and the genuine key"),
        5 => (x.write_b_raw(&genuine, &[0; 32], &genuine, Some(&[0; 32]), &payload), "with the genuine key as ephemeral"),
        6 => {
            // a reply the genuine server gave in an earlier session
            let mut y = Ref::new(false, b"", k.rs, k.re);
            let mut old = Ref::new(true, b"", k.is, c.s.key32());
            let a = old.write_a(&[]);
            y.read_a(&a);
            (y.write_b(&payload), "replaying an earlier reply")
        }
        7 => {
            // the encrypted static key of the genuine server, taken from another session
            let mut y = Ref::new(false, b"", k.rs, c.s.key32());
            let mut old = Ref::new(true, b"", k.is, k.ie);
            let a = old.write_a(&m[32..]);
            y.read_a(&a);
            let theirs = y.write_b(&payload);
            let mut mine = x.write_b_with(&genuine, &payload);
            mine[32..80].copy_from_slice(&theirs[32..80]);
            (mine, "with the encrypted key of another reply")
        }
        _ => {
            // the genuine reply to this very message, with the ephemeral replaced
            let mut y = Ref::new(false, b"", k.rs, k.re);
            y.read_a(&m);
            let mut b = y.write_b(&payload);
            b[..32].copy_from_slice(&nr::public(&own));
            (b, "with its own ephemeral in a genuine reply")
        }
    };
    c.hit(what);
    c.show(|| format!("claims the genuine key, {}, payload {} bytes, after {:?}", what, payload.len(), hows));
    ensure!(i.recv_message(&mut reply).is_err(), "a reply claiming a key its sender does not hold was accepted ({}, after {:?})", what, hows);
    ensure!(!i.is_transport(), "established with a sender that does not hold the key ({})", what);
    let got = i.get_remote_static_public_key();
    ensure!(got.is_none(), "a remote key is reported after a refused reply ({})", what);
    Ok(())
}
/// Someone between the two ends who relays the handshake cannot speak afterwards.
fn c33_relay(c: &mut Case) -> Res {
    let k = rand_keys(c);
    let (mut i, mut r) = pair(&k, b"");
    let mut m = vec![0u8; 96];
    if i.send_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let ma = m.clone();
    if r.recv_message(&mut m).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let mut mb = vec![0u8; 96];
    if r.send_message(&mut mb).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    let mb0 = mb.clone();
    if i.recv_message(&mut mb).is_err() {
        return Err(Stop::Discard("handshake failed"));
    }
    c.nontrivial = true;
    // the relay knows every byte that passed and holds keys of its own
    let own = c.s.key32();
    let l = c.s.len(200);
    let pt = c.s.bytes(l);
    let mut sees = Ref::new(false, b"", own, own);
    sees.read_a(&ma);
    let guess = match c.s.below(6) {
        0 => {
            let _ = sees.write_b(&[]);
            sees.c2.enc(&pt).unwrap_or_default()
        }
        1 => {
            let _ = sees.write_b(&[]);
            sees.c1.enc(&pt).unwrap_or_default()
        }
        2 => nr::seal(&[0; 32], 0, &[], &pt),
        3 => {
            let mut h = [0u8; 32];
            h.copy_from_slice(&mb0[..32]);
            nr::seal(&h, 0, &[], &pt)
        }
        4 => {
            // keys derived from the public transcript alone
            match i.get_handshake_hash() {
                Some(h) => nr::seal(&h, 0, &[], &pt),
                None => fail!("no handshake hash"),
            }
        }
        _ => {
            let mut x = pt.clone();
            x.extend_from_slice(&[0; 16]);
            x
        }
    };
    c.show(|| format!("a relay injects {} bytes", guess.len()));
    for s in [&mut i, &mut r] {
        let mut g = guess.clone();
        ensure!(s.recv_message(&mut g).is_err(), "an injected message was accepted");
    }
    let mut g = buf(&pt, 0, pt.len() + 16);
    if r.send_message(&mut g).is_ok() {
        // reflected to its own sender
        let mut back = g.clone();
        ensure!(r.recv_message(&mut back).is_err(), "a reflected message was accepted");
        ensure!(i.recv_message(&mut g).is_ok() && g[..pt.len()] == pt[..], "the genuine message was not delivered");
    } else {
        fail!("the server cannot send");
    }
    Ok(())
}

// ---------------------------------------------------------------- C34
/// A different value of the same kind, as close as possible.
fn nearby(s: &mut Src, k: K, v: &V) -> V {
    match (k, v) {
        (K::Bool, V::N(x)) => V::N(1 - (x & 1)),
        (K::U8, V::N(x)) => near_num(s, *x, 8),
        (K::U16, V::N(x)) => near_num(s, *x, 16),
        (K::U24, V::N(x)) => near_num(s, *x, 24),
        (K::U32, V::N(x)) | (K::F32, V::N(x)) => near_num(s, *x, 32),
        (K::Flags(m), V::N(x)) => {
            let bits: Vec<u32> = (0..32).filter(|b| m >> b & 1 == 1).collect();
            if bits.is_empty() {
                return v.clone();
            }
            V::N(x ^ (1 << *s.pick(&bits)))
        }
        (K::Code(c), V::N(x)) => V::N((x + 1 + s.uni(0, c.len() as u64 - 2)) % c.len() as u64),
        (K::Tag, V::N(x)) => V::N((x + 1 + s.uni(0, 2)) % 4),
        (K::Header, V::N(_)) => V::N(TABLE[s.below(TABLE.len())].0 as u64),
        (K::U256, V::B(b)) => {
            let mut b = b.clone();
            let p = s.below(256);
            match s.below(6) {
                0 => b.reverse(),
                1 => b.rotate_left(1 + p % 31),
                2 => b.swap(p % 32, p / 8),
                _ => b[p / 8] ^= 1 << (p % 8),
            }
            V::B(b)
        }
        (K::Sig, V::B(b)) => {
            let mut b = b.clone();
            let p = s.below(64 * 8 - 3);
            b[p / 8] ^= 1 << (p % 8);
            V::B(b)
        }
        (K::Str(max), V::B(b)) => {
            let t: Vec<char> = String::from_utf8_lossy(b).chars().collect();
            let mut t = t;
            match s.below(8) {
                6 if t.len() > 1 => t.reverse(),
                7 if t.len() > 1 => {
                    let i = 1 + s.below(t.len() - 1);
                    t.rotate_left(i);
                }
                0 if !t.is_empty() => {
                    let i = s.below(t.len());
                    t[i] = if t[i].is_ascii_lowercase() { t[i].to_ascii_uppercase() } else if t[i].is_ascii_uppercase() { t[i].to_ascii_lowercase() } else { 'x' };
                }
                1 if !t.is_empty() => {
                    t.pop();
                }
                2 => t.push(*s.pick(&[' ', '\0', '\n', 'a', '\u{feff}'])),
                3 => t.insert(0, *s.pick(&[' ', '\0', '\n', 'a', '\u{feff}'])),
                4 if t.len() > 1 => {
                    let i = s.below(t.len() - 1);
                    t.swap(i, i + 1);
                }
                _ if !t.is_empty() => {
                    let i = s.below(t.len());
                    t[i] = char::from_u32(t[i] as u32 ^ 1).unwrap_or('x');
                }
                _ => t.push('a'),
            }
            let n: String = t.into_iter().collect();
            if n.len() > max { v.clone() } else { V::B(n.into_bytes()) }
        }
        (K::Bytes(_, max), V::B(b)) => {
            let mut b = b.clone();
            match s.below(7) {
                5 if b.len() > 1 => b.reverse(),
                6 if b.len() > 1 => {
                    let i = 1 + s.below(b.len() - 1);
                    b.rotate_left(i);
                }
                0 if b.len() < max => b.push(s.uni(0, 255) as u8),
                1 => {
                    b.pop();
                }
                2 if b.len() > 1 => {
                    let i = s.below(b.len() - 1);
                    b.swap(i, i + 1);
                }
                3 if b.len() < max => b.insert(0, 0),
                _ if !b.is_empty() => {
                    let p = s.int(0, b.len() as u64 * 8 - 1) as usize;
                    b[p / 8] ^= 1 << (p % 8);
                }
                _ => b.push(0),
            }
            V::B(b)
        }
        _ => v.clone(),
    }
}
fn near_num(s: &mut Src, x: u64, bits: u64) -> V {
    let m = (1u64 << bits) - 1;
    V::N(match s.below(6) {
        0 => x.wrapping_add(1) & m,
        1 => x.wrapping_sub(1) & m,
        2 if bits % 8 == 0 => x.swap_bytes() >> (64 - bits),
        3 => !x & m,
        _ => x ^ (1 << s.uni(0, bits - 1)),
    })
}
/// None: the two differ only where floats compare specially.
fn model_equal(sub: &Subject, a: &[V], b: &[V]) -> Option<bool> {
    let mut odd = false;
    let mut eq = true;
    for ((k, x), y) in sub.fields.iter().zip(a).zip(b) {
        if *k == K::F32 {
            let (p, q) = (f32::from_bits(schema::n(x) as u32), f32::from_bits(schema::n(y) as u32));
            if p.is_nan() || q.is_nan() || (p == 0.0 && q == 0.0 && x != y) {
                odd = true;
                continue;
            }
        }
        eq &= x == y;
    }
    if odd && eq { None } else { Some(eq) }
}
fn c34_pairs(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let a = gen_valid(&mut c.s, sub);
    let mut b = a.clone();
    let how = c.s.weighted(&[2, 6, 1, 1]);
    match how {
        0 => {}
        1 => {
            let i = c.s.below(b.len());
            b[i] = nearby(&mut c.s, sub.fields[i], &b[i]);
        }
        2 => {
            // two fields of one kind exchanged, or both changed alike
            let i = c.s.below(b.len());
            let j = c.s.below(b.len());
            if sub.fields[i] == sub.fields[j] {
                b.swap(i, j);
            }
        }
        _ => b = gen_valid(&mut c.s, sub),
    }
    if rule_err(sub.rule, &a).is_some() || rule_err(sub.rule, &b).is_some() {
        return Err(Stop::Discard("not a valid value"));
    }
    c.show(|| format!("{} and {}", show_vals(sub, &a), show_vals(sub, &b)));
    c.nontrivial = true;
    let mk = |c: &mut Case, v: &[V]| -> Result<Box<dyn Obj>, Stop> {
        let r = if c.s.coin() { (sub.build)(v) } else { (sub.decode_slice)(&ref_encode(sub, v)) };
        r.map_err(|_| Stop::Discard("cannot be made"))
    };
    let x = mk(c, &a)?;
    let y = mk(c, &b)?;
    let want = match model_equal(sub, &a, &b) {
        Some(w) => w,
        None => return Err(Stop::Discard("special float")),
    };
    c.hit(if want { "equal" } else { "different" });
    if let (Some(p), Some(q)) = (x.same(&*y), y.same(&*x)) {
        ensure!(p == q, "comparison is not symmetric: {} and {}", show_vals(sub, &a), show_vals(sub, &b));
        ensure!(p == want, "{} and {} compare {}", show_vals(sub, &a), show_vals(sub, &b), if p { "equal" } else { "different" });
    }
    let (ex, ey) = match (x.to_vec(), y.to_vec()) {
        (Ok(p), Ok(q)) => (p, q),
        _ => return Err(Stop::Discard("encoding failed")),
    };
    ensure!((ex == ey) == (a == b), "{} and {}: encodings {}", show_vals(sub, &a), show_vals(sub, &b), if ex == ey { "agree" } else { "differ" });
    if let Some(z) = x.dup() {
        ensure!(z.vals() == a && z.lens() == x.lens(), "a copy of {} is {}", show_vals(sub, &a), show_vals(sub, &z.vals()));
        ensure!(z.to_vec().ok() == Some(ex), "a copy of {} is encoded differently", show_vals(sub, &a));
        if model_equal(sub, &a, &a) == Some(true) {
            ensure!(z.same(&*x) != Some(false) && x.same(&*z) != Some(false), "a copy of {} compares different", show_vals(sub, &a));
        }
    }
    Ok(())
}
macro_rules! cross {
    ($t:ty, $a:expr, $b:expr) => {{
        if let Ok(x) = <$t>::new($a.clone()) {
            let eq = $a == $b;
            ensure!((x == $b) == eq && ($b == x) == eq, "{} holding {:?} compared with {:?}: {} {}", stringify!($t), $a, $b, x == $b, $b == x);
            ensure!(x == $a && $a == x, "{} holding {:?} differs from it", stringify!($t), $a);
        }
    }};
}
/// Comparisons between a value and the plain data it holds.
fn c34_plain(c: &mut Case) -> Res {
    c.nontrivial = true;
    if c.s.coin() {
        let l = c.s.len(300);
        let a = c.s.bytes(l);
        let b = match nearby(&mut c.s, K::Bytes(2, 65535), &V::B(a.clone())) {
            V::B(b) if !c.s.one_in(4) => b,
            _ => a.clone(),
        };
        c.show(|| format!("{} against {}", hex(&a), hex(&b)));
        cross!(B0_31, a, b);
        cross!(B0_32, a, b);
        cross!(B0_255, a, b);
        cross!(B0_64K, a, b);
        cross!(B0_16M, a, b);
    } else {
        let l = c.s.len(255);
        let a = c.s.string(l);
        let b = match nearby(&mut c.s, K::Str(255), &V::B(a.clone().into_bytes())) {
            V::B(b) if !c.s.one_in(4) => String::from_utf8_lossy(&b).into_owned(),
            _ => a.clone(),
        };
        c.show(|| format!("{:?} against {:?}", a, b));
        cross!(STR0_32, a, b);
        cross!(STR0_255, a, b);
    }
    let x = c.s.int(0, 0xff_ffff);
    let y = match near_num(&mut c.s, x, 32) {
        V::N(y) => y,
        _ => x,
    };
    let (u, y, x) = (U24(x as u32), y as u32, x as u32);
    ensure!((u == y) == (x == y) && (y == u) == (x == y) && u == x && x == u, "U24 {} compared with {}", x, y);
    let k = c.s.arr32();
    let mut o = k;
    let p = c.s.below(256);
    match c.s.below(6) {
        0 => o.reverse(),
        1 => o.rotate_left(1 + p % 31),
        2 => o.iter_mut().for_each(|b| *b = !*b),
        3 => o.swap(p % 32, p / 8),
        _ => {}
    }
    if o == k {
        o[p / 8] ^= 1 << (p % 8);
    }
    let u = U256(k);
    ensure!(u == k && k == u && u != o && o != u, "U256 {} compared with {}", hex(&k), hex(&o));
    // keys
    let (s, t) = (PrivateKey::from_bytes(k), PrivateKey::from_bytes(o));
    ensure!(s == PrivateKey::from_bytes(k) && s == s.clone() && s != t && t != s, "private key {} compared with {}", hex(&k), hex(&o));
    if let (Ok(a), Ok(b)) = (PublicKey::from_bytes(k), PublicKey::from_bytes(o)) {
        ensure!(a == a.clone() && a != b && b != a, "public key {} compared with {}", hex(&k), hex(&o));
    }
    if c.s.one_in(8) {
        if let (Ok(a), Ok(b)) = (Keypair::from_private_key(s), Keypair::from_private_key(t)) {
            ensure!(a == a.clone() && a != b && b != a, "key pair of {} compared with that of {}", hex(&k), hex(&o));
            ensure!(a.clone().get_public_key() == a.get_public_key(), "a copied key pair has another public key");
        }
    }
    Ok(())
}

/// Frames up to the largest: copies, and copies with one thing changed.
fn c34_frames(c: &mut Case) -> Res {
    let l = if c.s.one_in(3) { c.s.draw(0, 0xff_ffff, |r| (1u64 << 24).saturating_sub(1 + (r.next() % (1 << (r.next() % 24))))) } else { c.s.draw(0, 0xff_ffff, |r| biased(r, 0, 0xff_ffff)) } as usize;
    let t = mt_by_code(TABLE[c.s.below(TABLE.len())].0);
    let (mul, add) = (c.s.uni(0, 255) as usize, c.s.uni(0, 255) as usize);
    let p: Vec<u8> = (0..l).map(|i| (i.wrapping_mul(mul) ^ i >> 9).wrapping_add(add) as u8).collect();
    c.show(|| format!("{:?} with {} bytes", t, l));
    c.nontrivial = l > 0;
    let m = Message::new(t, p.clone());
    let d = m.clone();
    ensure!(d.message_type == t && d.payload == p, "a copy of a {:?} of {} bytes is a {:?} of {}", t, l, d.message_type, d.payload.len());
    ensure!(m == d && d == m, "a copy of a frame of {} bytes compares different", l);
    // one bit anywhere, the last byte missing, one more
    let mut o = d.clone();
    if l > 0 {
        let b = match c.s.below(4) {
            0 => 0,
            1 => l * 8 - 1 - c.s.below(8),
            _ => c.s.below(l * 8),
        };
        o.payload[b / 8] ^= 1 << (b % 8);
        ensure!(m != o && o != m, "frames of {} bytes that differ in bit {} compare equal", l, b);
        o = d.clone();
        o.payload.pop();
        ensure!(m != o && o != m, "frames of {} and {} bytes compare equal", l, l - 1);
        o = d.clone();
    }
    o.payload.push(0);
    ensure!(m != o && o != m, "frames of {} and {} bytes compare equal", l, l + 1);
    let u = mt_by_code(TABLE[c.s.below(TABLE.len())].0);
    let o = Message::new(u, p);
    ensure!((m == o) == (t == u) && (o == m) == (t == u), "{:?} and {:?} of {} equal bytes compare {}", t, u, l, m == o);
    Ok(())
}
// ---------------------------------------------------------------- C35
/// An operation whose outcome must depend on nothing but its own input.
#[derive(Clone)]
enum Op {
    Encode(&'static Subject, Vec<V>),
    Decode(&'static Subject, Vec<u8>),
    Frame(&'static Subject, Vec<V>),
    Open(&'static Subject, u8, Vec<u8>),
    Parse(Vec<u8>),
    Secret(String),
    Public(String),
    Sign([u8; 32], u16, u32, u32, [u8; 32]),
    Verify(Ver),
    Session([u8; 32], Vec<u8>, Vec<u8>),
}
/// A certificate and how it is verified.
#[derive(Clone)]
struct Ver {
    signer: [u8; 32],
    server: [u8; 32],
    signed: (u16, u32, u32),
    claimed: (u16, u32, u32),
    flip: u16,
    now: u32,
    key: String,
}
fn text(r: Result<Box<dyn Obj>, stratumv2::error::Error>) -> String {
    match r {
        Ok(o) => {
            let v: Vec<String> = o.vals().iter().map(|v| match v {
                V::B(b) if b.len() > 20_000 => digest(b),
                v => format!("{:?}", v),
            }).collect();
            format!("{:?} {:?}", v, o.lens())
        }
        Err(e) => format!("refused: {:?} {}", kind(&e), e),
    }
}
fn run(o: &Op) -> String {
    match o {
        Op::Encode(s, v) => match (s.build)(v) {
            Ok(o) => {
                let mut w = vec![];
                let n = o.ser(&mut w).map_err(|e| e.to_string());
                format!("{:?} {} {:?}", n, nr_hex(&w), o.to_vec().ok().map(|x| x == w))
            }
            Err(e) => format!("refused: {:?} {}", kind(&e), e),
        },
        Op::Decode(s, d) => {
            let a = text((s.decode_slice)(d));
            let mut p = ByteParser::new(d, 0);
            let b = text((s.decode)(&mut p));
            format!("{} / {} leaving {}", a, b, if b.starts_with("refused") { 0 } else { remaining(&mut p) })
        }
        Op::Frame(s, v) => match (s.build)(v).map(|o| o.frame()) {
            Ok(Some(Ok(m))) => format!("{:?} {} {:?}", m.message_type, nr_hex(&m.payload), serialize(&m).ok().map(|b| nr_hex(&b))),
            Ok(Some(Err(e))) => format!("refused: {}", e),
            Ok(None) => String::new(),
            Err(e) => format!("refused: {}", e),
        },
        Op::Open(s, k, p) => text((s.unframe.unwrap())(&Message::new(mt_by_code(*k), p.clone()))),
        Op::Parse(d) => match deserialize::<Message>(d) {
            Ok(m) => format!("{:?} {}", m.message_type, nr_hex(&m.payload)),
            Err(e) => format!("refused: {:?} {}", kind(&e), e),
        },
        Op::Secret(t) => match PrivateKey::from_str(t) {
            Ok(k) => format!("{:?}", k.generate_public_key().map(|p| p.as_bytes()).map_err(|e| es(&e))),
            Err(e) => es(&e),
        },
        Op::Public(t) => match PublicKey::from_str(t) {
            Ok(k) => nr_hex(&k.as_bytes()),
            Err(e) => es(&e),
        },
        Op::Sign(s, v, f, t, k) => match SignedCertificate::new(*v, *f, *t, &static_key(*k).get_public_key()).and_then(|c| SignatureNoiseMessage::from_auth_key(&auth(s), &c)) {
            Ok(m) => format!("{:?}", serialize(&m).ok().map(|b| nr_hex(&b))),
            Err(e) => e.to_string(),
        },
        Op::Verify(v) => {
            let a = auth(&v.signer);
            let k = static_key(v.server).get_public_key();
            let mut g = a.sign(&signed_bytes(v.signed.0, v.signed.1, v.signed.2, &k.as_bytes())).to_bytes();
            if v.flip < 509 {
                g[v.flip as usize / 8] ^= 1 << (v.flip % 8);
            }
            let g = match stratumv2::noise::Signature::try_from(&g[..]) {
                Ok(g) => g,
                Err(_) => return "no signature".into(),
            };
            let m = SignatureNoiseMessage { version: v.claimed.0, valid_from: v.claimed.1, not_valid_after: v.claimed.2, signature: g };
            match CertificateFormat::new(&v.key, &k, &m) {
                Ok(x) => format!("{:?}", clock::at(v.now as i64, 0, || x.verify()).map_err(|e| e.to_string())),
                Err(e) => e.to_string(),
            }
        }
        Op::Session(k, pro, pt) => {
            let mut b = *k;
            b[0] ^= 64;
            b[31] ^= 1;
            let keys = crate::p_noise::Keys { is: *k, ie: b, rs: *k, re: b };
            let (mut i, mut r) = pair(&keys, pro);
            let t = shake(&mut i, &mut r, 32 + pt.len(), 96 + pt.len());
            let mut m = buf(pt, 0, pt.len() + 16);
            let s = i.send_message(&mut m).map_err(|e| es(&e));
            let mut o = buf(pt, 0, pt.len() + 16);
            let q = r.send_message(&mut o).map_err(|e| es(&e));
            format!("{:?} {:?} {} {:?} {} {:?}", t.map(|(a, b)| (nr_hex(&a), nr_hex(&b))), s, nr_hex(&m), q, nr_hex(&o), i.get_handshake_hash())
        }
    }
}
fn digest(b: &[u8]) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    format!("{} bytes, digest {:016x}", b.len(), h.finish())
}
fn nr_hex(b: &[u8]) -> String {
    if b.len() > 20_000 {
        return digest(b);
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn op_name(o: &Op) -> String {
    match o {
        Op::Encode(s, v) => format!("encode {}", show_vals(s, v)),
        Op::Decode(s, d) => format!("decode {} from {}", s.name, hex(d)),
        Op::Frame(s, v) => format!("frame {}", show_vals(s, v)),
        Op::Open(s, k, p) => format!("open {:#x} [{}] as {}", k, hex(p), s.name),
        Op::Parse(d) => format!("parse frame {}", hex(d)),
        Op::Secret(t) => format!("private key {:?}", t),
        Op::Public(t) => format!("public key {:?}", t),
        Op::Sign(_, v, f, t, _) => format!("issue certificate {} {} {}", v, f, t),
        Op::Verify(v) => format!("verify certificate {:?} signed {:?} bit {} at {} under {:?}", v.claimed, v.signed, v.flip, v.now, v.key),
        Op::Session(_, p, t) => format!("session with prologue of {} bytes, text of {}", p.len(), t.len()),
    }
}
/// Small messages and neighbours of each other, so that anything remembered from one is
/// likely to show in the next.
fn gen_ops(c: &mut Case, count: usize) -> Vec<Op> {
    let mut ops: Vec<Op> = vec![];
    let home = gen_subject(&mut c.s);
    let frame_home = gen_message_subject(&mut c.s);
    for _ in 0..count {
        let sub = if c.s.coin() { home } else { gen_subject(&mut c.s) };
        let ms = if c.s.coin() { frame_home } else { gen_message_subject(&mut c.s) };
        let o = match c.s.weighted(&[6, 6, 4, 4, 2, 1, 1, 1, 1, 1]) {
            0 => {
                // a variant of an earlier value, sometimes
                let prev: Vec<Vec<V>> = ops.iter().filter_map(|o| if let Op::Encode(s, v) = o { (s.name == sub.name).then(|| v.clone()) } else { None }).collect();
                let v = if !prev.is_empty() && c.s.coin() {
                    let mut v = c.s.pick(&prev).clone();
                    let i = c.s.below(v.len());
                    v[i] = nearby(&mut c.s, sub.fields[i], &v[i]);
                    v
                } else {
                    gen_valid(&mut c.s, sub)
                };
                Op::Encode(sub, v)
            }
            1 => {
                let prev: Vec<Vec<u8>> = ops.iter().filter_map(|o| if let Op::Decode(s, v) = o { (s.name == sub.name).then(|| v.clone()) } else { None }).collect();
                let d = if !prev.is_empty() && c.s.coin() {
                    let mut d = c.s.pick(&prev).clone();
                    if d.is_empty() || c.s.one_in(4) {
                        d.truncate(c.s.below(d.len() + 1));
                    } else {
                        let p = c.s.int(0, d.len() as u64 * 8 - 1) as usize;
                        d[p / 8] ^= 1 << (p % 8);
                    }
                    d
                } else if c.s.coin() {
                    ref_encode(sub, &gen_valid(&mut c.s, sub))
                } else {
                    gen_hostile(&mut c.s, sub)
                };
                Op::Decode(sub, d)
            }
            2 => Op::Frame(ms, gen_valid(&mut c.s, ms)),
            3 => {
                let p = if c.s.coin() { ref_encode(ms, &gen_valid(&mut c.s, ms)) } else { gen_hostile(&mut c.s, ms) };
                let k = if c.s.one_in(4) { TABLE[c.s.below(TABLE.len())].0 } else { ms.code.unwrap() };
                Op::Open(ms, k, p)
            }
            4 => {
                let m = by_name("Message");
                Op::Parse(if c.s.coin() { ref_encode(m, &gen_valid(&mut c.s, m)) } else { gen_hostile(&mut c.s, m) })
            }
            5 => {
                let prev: Vec<String> = ops.iter().filter_map(|o| if let Op::Secret(t) | Op::Public(t) = o { Some(t.clone()) } else { None }).collect();
                Op::Secret(hex_text(c, &prev))
            }
            6 => {
                let prev: Vec<String> = ops.iter().filter_map(|o| if let Op::Secret(t) | Op::Public(t) = o { Some(t.clone()) } else { None }).collect();
                Op::Public(hex_text(c, &prev))
            }
            7 => {
                let prev: Vec<Op> = ops.iter().filter(|o| matches!(o, Op::Sign(..))).cloned().collect();
                let (f, t) = gen_interval(c);
                let n = (c.s.key32(), c.s.int(0, 0xffff) as u16, f, t, c.s.key32());
                match prev.get(if prev.is_empty() { 0 } else { c.s.below(prev.len()) }) {
                    Some(Op::Sign(a, v, pf, pt, k)) => match c.s.below(5) {
                        0 => Op::Sign(n.0, *v, *pf, *pt, *k),
                        1 => Op::Sign(*a, n.1, *pf, *pt, *k),
                        2 => Op::Sign(*a, *v, n.2, n.3, *k),
                        3 => Op::Sign(*a, *v, *pf, *pt, n.4),
                        _ => Op::Sign(n.0, n.1, n.2, n.3, n.4),
                    },
                    _ => Op::Sign(n.0, n.1, n.2, n.3, n.4),
                }
            }
            8 => {
                let prev: Vec<Ver> = ops.iter().filter_map(|o| if let Op::Verify(v) = o { Some(v.clone()) } else { None }).collect();
                let (f, t) = gen_interval(c);
                let s = c.s.key32();
                let now = if c.s.coin() { inside(c, f, t).unwrap_or(f) } else { c.s.int(0, u32::MAX as u64) as u32 };
                let ver = c.s.int(0, 0xffff) as u16;
                let server = c.s.key32();
                let fresh = Ver { signer: s, server, signed: (ver, f, t), claimed: (ver, f, t), flip: 999, now, key: base58(&auth(&s).public.to_bytes()) };
                if !prev.is_empty() && !c.s.one_in(4) {
                    let mut v = c.s.pick(&prev).clone();
                    match c.s.below(9) {
                        0 => v.signer = s,
                        1 => v.server = server,
                        2 => v.claimed = fresh.claimed,
                        3 => v.signed = fresh.claimed,
                        4 => v.flip = c.s.uni(0, 508) as u16,
                        5 => v.now = now,
                        6 => v.key = fresh.key,
                        7 => v.claimed.0 ^= 1,
                        _ => {
                            v.signed = fresh.claimed;
                            v.claimed = fresh.claimed;
                            v.now = now;
                        }
                    }
                    Op::Verify(v)
                } else {
                    let mut v = fresh;
                    if c.s.one_in(4) {
                        v.key = base58(&auth(&c.s.key32()).public.to_bytes());
                    }
                    Op::Verify(v)
                }
            }
            _ => {
                let prev: Vec<([u8; 32], Vec<u8>, Vec<u8>)> = ops.iter().filter_map(|o| if let Op::Session(a, b, c) = o { Some((*a, b.clone(), c.clone())) } else { None }).collect();
                let (a, b) = (c.s.len(40), c.s.len(200));
                let mut n = (c.s.key32(), c.s.bytes(a), c.s.bytes(b));
                if !prev.is_empty() && !c.s.one_in(4) {
                    let o = c.s.pick(&prev).clone();
                    match c.s.below(3) {
                        0 => n.0 = o.0,
                        1 => n.1 = o.1,
                        _ => n = (n.0, o.1, o.2),
                    }
                }
                Op::Session(n.0, n.1, n.2)
            }
        };
        ops.push(o);
    }
    ops
}
fn hex_text(c: &mut Case, prev: &[String]) -> String {
    let mut t = nr_hex(&c.s.arr32());
    if !prev.is_empty() && !c.s.one_in(3) {
        t = c.s.pick(prev).clone();
        if !t.is_empty() && t.is_ascii() {
            let i = c.s.below(t.len());
            let d = format!("{:x}", c.s.uni(0, 15));
            t.replace_range(i..i + 1, &d);
        }
    }
    match c.s.below(5) {
        0 => {
            t.truncate(c.s.below(64));
        }
        1 => t.push('0'),
        2 if t.len() == 64 && t.is_ascii() => {
            let i = c.s.below(64);
            t.replace_range(i..i + 1, "g");
        }
        3 => t = t.to_uppercase(),
        _ => {}
    }
    t
}
/// Operations on values of up to a few megabytes, between small ones.
fn c35_large(c: &mut Case) -> Res {
    let mut ops = gen_ops(c, 6);
    for _ in 0..1 + c.s.below(3) {
        let sub = by_name(["B0_16M", "B0_64K", "Message"][c.s.below(3)]);
        let mut v = gen_valid(&mut c.s, sub);
        let n = match sub.name {
            "B0_64K" => c.s.int(1000, 65535),
            _ => 1u64 << c.s.int(10, 22),
        } as usize;
        let n = n - c.s.below(n.min(100));
        let fill = c.s.uni(0, 255) as u8;
        if let Some(V::B(x)) = v.iter_mut().rev().find(|x| matches!(x, V::B(_))) {
            *x = vec![fill; n];
        }
        let at = c.s.below(ops.len());
        ops.insert(at, if c.s.coin() { Op::Encode(sub, v) } else if sub.name == "Message" { Op::Parse(ref_encode(sub, &v)) } else { Op::Decode(sub, ref_encode(sub, &v)) });
    }
    in_any_order(c, ops)
}
fn c35_order(c: &mut Case) -> Res {
    let n = 2 + c.s.len(30);
    let ops = gen_ops(c, n);
    in_any_order(c, ops)
}
fn in_any_order(c: &mut Case, ops: Vec<Op>) -> Res {
    c.nontrivial = true;
    c.show(|| ops.iter().map(op_name).collect::<Vec<_>>().join("; "));
    let order: Vec<usize> = (0..ops.len() * 2).map(|j| if j < ops.len() { ops.len() - 1 - j } else { c.s.below(ops.len()) }).collect();
    // alone, each on a thread that has done nothing before; then all on one thread in order, in reverse, and anywhere
    let first = alone(&ops, c.s.coin())?;
    let bad = std::thread::scope(|sc| {
        sc.spawn(|| {
            for i in (0..ops.len()).chain(order.iter().copied()) {
                let again = run(&ops[i]);
                if again != first[i] {
                    return Some(format!("{} gave {:.400} alone and {:.400} after other operations", op_name(&ops[i]), first[i], again));
                }
            }
            None
        })
        .join()
    });
    match bad {
        Ok(None) => Ok(()),
        Ok(Some(m)) => fail!("{}", m),
        Err(_) => fail!("an operation panicked after others"),
    }
}
/// Results of the operations, each on a fresh thread, in this or the reverse order.
fn alone(ops: &[Op], backwards: bool) -> Result<Vec<String>, Stop> {
    let one = |o: &Op| std::thread::scope(|sc| sc.spawn(|| run(o)).join());
    let r: Result<Vec<String>, _> = if backwards {
        ops.iter().rev().map(one).collect::<Result<Vec<_>, _>>().map(|mut v| {
            v.reverse();
            v
        })
    } else {
        ops.iter().map(one).collect()
    };
    r.map_err(|_| Stop::Fail("an operation panicked".into()))
}
/// Thousands of values of one shape, so that anything remembered about one of them is met again
/// by another (tables indexed by a short digest, pools, counters).
fn c35_many(c: &mut Case) -> Res {
    let sub = gen_subject(&mut c.s);
    let base = gen_valid(&mut c.s, sub);
    let n = 100 + c.s.int(0, 1900) as usize;
    let (seed, enc, fixed) = (c.s.uni(0, u64::MAX), c.s.one_in(4), c.s.coin());
    c.nontrivial = true;
    c.show(|| format!("{} values of {} ({})", n, sub.name, if enc { "encode" } else { "decode" }));
    let ops: Vec<Op> = (0..n)
        .map(|i| {
            let mut g = Src::random(seed ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
            let mut v = gen_valid(&mut g, sub);
            if fixed {
                // the same lengths, other contents
                for (x, (k, o)) in v.iter_mut().zip(sub.fields.iter().zip(&base)) {
                    match (k, o) {
                        (K::Str(_), V::B(o)) => *x = V::B((0..o.len()).map(|_| b'a' + g.below(26) as u8).collect()),
                        (K::Bytes(..), V::B(o)) => *x = V::B((0..o.len()).map(|_| g.below(256) as u8).collect()),
                        _ => {}
                    }
                }
            }
            if enc {
                Op::Encode(sub, v)
            } else {
                let mut d = ref_encode(sub, &v);
                if g.below(8) == 0 && !d.is_empty() {
                    let l = g.below(d.len());
                    d.truncate(l);
                }
                Op::Decode(sub, d)
            }
        })
        .collect();
    let got = std::thread::scope(|sc| sc.spawn(|| ops.iter().map(run).collect::<Vec<_>>()).join()).map_err(|_| Stop::Fail("an operation panicked after others".into()))?;
    let first = alone(&ops, c.s.coin())?;
    for i in 0..n {
        ensure!(got[i] == first[i], "{} gave {:.400} alone and {:.400} after {} others", op_name(&ops[i]), first[i], got[i], i);
    }
    Ok(())
}
/// The same few operations again and again.
fn c35_repeat(c: &mut Case) -> Res {
    let k = 1 + c.s.below(3);
    let mut ops: Vec<Op> = gen_ops(c, k).into_iter().filter(|o| !matches!(o, Op::Sign(..) | Op::Verify(..) | Op::Session(..))).collect();
    let mut most = 70_000;
    if c.s.one_in(3) {
        // slow operations: fewer times, and a variant of the first (one refused, one not, as a rule)
        ops = gen_ops(c, 60).into_iter().filter(|o| matches!(o, Op::Sign(..) | Op::Verify(..) | Op::Session(..))).take(3).collect();
        most = 2500;
    }
    if ops.is_empty() {
        return Err(Stop::Discard("slow operations only"));
    }
    let n = c.s.int(0, most) as usize / ops.len();
    c.nontrivial = n > 1000;
    c.show(|| format!("{} times: {}", n, ops.iter().map(op_name).collect::<Vec<_>>().join("; ")));
    let first = alone(&ops, false)?;
    for i in 0..n {
        for (o, f) in ops.iter().zip(&first) {
            let got = run(o);
            ensure!(got == *f, "{} gave {:.400} alone and {:.400} after {} repetitions", op_name(o), f, got, i);
        }
    }
    Ok(())
}
/// Each operation in a process of its own, then all of them in this one.
fn gen_process_ops(c: &mut Case) -> Vec<Op> {
    let n = 2 + c.s.below(7);
    gen_ops(c, n)
}
pub fn print_op(tape: Vec<u64>, i: usize) {
    let mut c = Case::replay(tape);
    let ops = gen_process_ops(&mut c);
    println!("{}", nr_hex(run(&ops[i]).as_bytes()));
}
fn c35_processes(c: &mut Case) -> Res {
    let ops = gen_process_ops(c);
    c.nontrivial = true;
    c.show(|| ops.iter().map(op_name).collect::<Vec<_>>().join("; "));
    let tape: Vec<String> = c.s.tape().iter().map(|x| x.to_string()).collect();
    let exe = std::env::current_exe().map_err(|_| Stop::Discard("no executable"))?;
    for i in (0..ops.len()).chain((0..ops.len()).rev()) {
        let _ = run(&ops[i]);
    }
    for i in 0..ops.len() {
        use std::io::Write;
        let mut p = std::process::Command::new(&exe)
            .args(["op", &i.to_string()])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .map_err(|_| Stop::Discard("no process"))?;
        if let Some(mut w) = p.stdin.take() {
            let _ = w.write_all(tape.join(" ").as_bytes());
        }
        let o = p.wait_with_output().map_err(|_| Stop::Discard("no process"))?;
        if !o.status.success() {
            return Err(Stop::Discard("no process"));
        }
        let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
        let here = run(&ops[i]);
        if t != nr_hex(here.as_bytes()) {
            let alone: Vec<u8> = (0..t.len() / 2).map(|k| u8::from_str_radix(&t[2 * k..2 * k + 2], 16).unwrap_or(b'?')).collect();
            fail!("{} gave {:.400} in a process of its own and {:.400} after other operations", op_name(&ops[i]), String::from_utf8_lossy(&alone), here);
        }
    }
    Ok(())
}
fn c35_threads(c: &mut Case) -> Res {
    let n = 2 + c.s.len(24);
    let ops = gen_ops(c, n);
    let t = 2 + c.s.below(3);
    let seed = c.s.uni(0, u64::MAX);
    c.nontrivial = true;
    c.show(|| format!("{} threads: {}", t, ops.iter().map(op_name).collect::<Vec<_>>().join("; ")));
    let first = alone(&ops, c.s.coin())?;
    let gate = std::sync::Barrier::new(t);
    let bad: Vec<Option<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..t)
            .map(|x| {
                let (ops, first, gate) = (&ops, &first, &gate);
                sc.spawn(move || {
                    let mut r = Rng::new(seed ^ x as u64);
                    gate.wait();
                    for _ in 0..ops.len() * 3 {
                        let i = (r.next() % ops.len() as u64) as usize;
                        let got = run(&ops[i]);
                        if got != first[i] {
                            return Some(format!("{} gave {:.400} alone and {:.400} beside other threads", op_name(&ops[i]), first[i], got));
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    if let Some(m) = bad.into_iter().flatten().next() {
        fail!("{}", m);
    }
    Ok(())
}
/// Many threads at once in the middle of large operations.
fn c35_crowd(c: &mut Case) -> Res {
    let mut ops = vec![];
    for _ in 0..1 + c.s.below(3) {
        let kind = c.s.below(3);
        let sub = by_name(["B0_16M", "Message", "B0_64K"][kind]);
        let mut v = gen_valid(&mut c.s, sub);
        let n = c.s.int(30_000, if kind == 2 { 65_535 } else { 1_000_000 }) as usize;
        let fill = c.s.uni(0, 255) as u8;
        if let Some(V::B(x)) = v.iter_mut().rev().find(|x| matches!(x, V::B(_))) {
            *x = vec![fill; n];
        }
        ops.push(if c.s.one_in(3) { Op::Encode(sub, v) } else if kind == 1 { Op::Parse(ref_encode(sub, &v)) } else { Op::Decode(sub, ref_encode(sub, &v)) });
    }
    ops.extend(gen_ops(c, 2));
    let t = 12 + c.s.below(13);
    c.nontrivial = true;
    c.show(|| format!("{} threads: {}", t, ops.iter().map(op_name).map(|s| s.chars().take(100).collect::<String>()).collect::<Vec<_>>().join("; ")));
    let first = alone(&ops, false)?;
    let gate = std::sync::Barrier::new(t);
    let bad: Vec<Option<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..t)
            .map(|_| {
                let (ops, first, gate) = (&ops, &first, &gate);
                sc.spawn(move || {
                    let mut bad = None;
                    for _ in 0..3 {
                        for (o, f) in ops.iter().zip(first) {
                            gate.wait();
                            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(o))) {
                                Ok(got) if got == *f => {}
                                Ok(got) => bad = Some(format!("{:.200} gave {:.300} alone and {:.300} among many threads", op_name(o), f, got)),
                                Err(_) => bad = Some(format!("{:.200} panicked among many threads", op_name(o))),
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    if let Some(m) = bad.into_iter().flatten().next() {
        fail!("{}", m);
    }
    Ok(())
}

// ---------------------------------------------------------------- C36
fn mining_flags(i: u64) -> mining::SetupConnectionFlags {
    mining::SetupConnectionFlags::from_bits_truncate(i as u32)
}
fn gen_addr(c: &mut Case) -> String {
    match c.s.below(6) {
        0 => format!("{}.{}.{}.{}:{}", c.s.int(0, 255), c.s.int(0, 255), c.s.int(0, 255), c.s.int(0, 255), c.s.int(0, 65535)),
        1 => format!("[::{:x}]:{}", c.s.int(0, 65535), c.s.int(0, 65535)),
        2 => format!("Pool{}.Example.COM.:{:05}", c.s.int(0, 99), c.s.int(0, 65535)),
        3 => c.s.literal_str(),
        4 => format!(" {}\t", c.s.int(0, 65535)),
        _ => {
            let n = c.s.len(300);
            c.s.string(n)
        }
    }
}
fn c36_configs(c: &mut Case) -> Res {
    let n = 1 + c.s.below(5);
    let mut nets: Vec<NetworkConfig> = vec![];
    let mut want: Vec<(String, bool)> = vec![];
    let mut log = String::new();
    for i in 0..n {
        // a new one, or a changed copy of an earlier one
        if i > 0 && c.s.one_in(3) {
            let j = c.s.below(i);
            let (mut x, mut w) = (nets[j].clone(), want[j].clone());
            ensure!((&x.listening_addr, x.local_network_encryption) == (&w.0, w.1), "a copy holds {:?} {} instead of {:?} {}", x.listening_addr, x.local_network_encryption, w.0, w.1);
            x.listening_addr.push('x');
            x.local_network_encryption = !x.local_network_encryption;
            w = (format!("{}x", w.0), !w.1);
            c.hit("a changed copy");
            nets.push(x);
            want.push(w);
            continue;
        }
        let (a, e) = (gen_addr(c), c.s.coin());
        log.push_str(&format!("{:?} {}; ", a, e));
        nets.push(NetworkConfig::new(a.clone(), e));
        want.push((a, e));
    }
    for (x, w) in nets.iter().zip(&want) {
        ensure!((&x.listening_addr, x.local_network_encryption) == (&w.0, w.1), "the configuration holds {:?} {} instead of {:?} {}", x.listening_addr, x.local_network_encryption, w.0, w.1);
    }
    let f = c.s.uni(0, 7);
    let s = ServerConfig::new(mining_flags(f));
    ensure!(s.mining_flags.bits() as u64 == f, "the server configuration holds flags {:#x} instead of {:#x}", s.mining_flags.bits(), f);
    // any certificate message and key, valid or not
    let mut sig = c.s.bytes(64);
    sig[63] &= 0x1f;
    let (version, from, to) = (c.s.int(0, 0xffff) as u16, c.s.int(0, u32::MAX as u64) as u32, c.s.int(0, u32::MAX as u64) as u32);
    let k = c.s.key32();
    if !c.s.one_in(6) {
        c.nontrivial = true;
        c.show(|| format!("{}flags {}", log, f));
        return Ok(());
    }
    if let (Ok(signature), Ok(key)) = (ed25519_dalek::Signature::try_from(&sig[..]), Keypair::from_private_key(PrivateKey::from_bytes(k))) {
        let m = SignatureNoiseMessage { version, valid_from: from, not_valid_after: to, signature };
        let x = NoiseConfig::new(m.clone(), key.clone());
        let mut y = x.clone();
        for (z, what) in [(&x, "configuration"), (&y, "copy")] {
            let h = &z.sig_noise_msg;
            ensure!(h.version == version && h.valid_from == from && h.not_valid_after == to && h.signature.to_bytes()[..] == sig[..] && *h == m, "a {} holds {:?} instead of {:?}", what, h, m);
            ensure!(z.static_key == key && z.static_key.get_public_key().as_bytes() == nr::public(&k), "a {} holds another key than {}", what, hex(&k));
        }
        y.sig_noise_msg.version ^= 1;
        y.static_key.clear();
        ensure!(x.sig_noise_msg == m && x.static_key == key, "changing a copy changed the configuration");
    }
    c.nontrivial = true;
    c.show(|| format!("{}flags {}, certificate {} {} {} {}, key {}", log, f, version, from, to, hex(&sig), hex(&k)));
    Ok(())
}
fn same_channel(x: &Channel, id: u32, want: &dyn Obj) -> bool {
    let (i, held) = match x {
        Channel::StandardMiningChannel { id, channel } => (*id, of_standard(channel)),
        Channel::ExtendedMiningChannel { id, channel } => (*id, of_extended(channel)),
    };
    i == id && held.to_vec().ok() == want.to_vec().ok() && held.vals() == want.vals()
}
/// Managers and peers keep to themselves what is put into them.
fn c36_records(c: &mut Case) -> Res {
    let n = 1 + c.s.below(3);
    let managers: Vec<ChannelManager> = (0..n).map(|_| ChannelManager::new()).collect();
    let mut peers: Vec<Peer<Plain>> = vec![];
    let mut model: Vec<std::collections::BTreeMap<(u32, u32), (&'static Subject, Vec<V>)>> = (0..n).map(|_| Default::default()).collect();
    let ops = c.s.len(24);
    let mut log = format!("{} managers; ", n);
    for m in &managers {
        ensure!(m.channels.lock().unwrap().is_empty(), "a new manager already holds channels");
    }
    for _ in 0..ops {
        let k = c.s.below(n);
        match c.s.weighted(&[6, 2, 2, 1]) {
            0 => {
                let standard = c.s.coin();
                let sub = by_name(if standard { "OpenStandardMiningChannel" } else { "OpenExtendedMiningChannel" });
                let vals = gen_valid(&mut c.s, sub);
                let o = match (sub.build)(&vals) {
                    Ok(o) => o,
                    Err(e) => fail!("{} cannot be built: {}", show_vals(sub, &vals), e),
                };
                let (conn, id) = (c.s.int(0, 3) as u32, if c.s.coin() { c.s.int(0, 3) as u32 } else { c.s.int(0, u32::MAX as u64) as u32 });
                let ch = match (as_standard(&*o), as_extended(&*o)) {
                    (Some(channel), _) => Channel::StandardMiningChannel { id, channel },
                    (_, Some(channel)) => Channel::ExtendedMiningChannel { id, channel },
                    _ => return Err(Stop::Discard("not a channel request")),
                };
                ensure!(same_channel(&ch, id, &*o), "the record of channel {} differs from the request it was made of", id);
                ensure!(same_channel(&ch.clone(), id, &*o), "a copy of the record of channel {} differs from the request: {:?}", id, ch.clone());
                log.push_str(&format!("{}: connection {} channel {}; ", k, conn, id));
                managers[k].channels.lock().unwrap().entry(conn).or_default().insert(id, ch.clone());
                model[k].insert((conn, id), (sub, vals));
                c.nontrivial = true;
            }
            1 => {
                let gone: Vec<(u32, u32)> = model[k].keys().cloned().collect();
                if let Some(x) = gone.first() {
                    log.push_str(&format!("{}: close {:?}; ", k, x));
                    let r = managers[k].channels.lock().unwrap().get_mut(&x.0).and_then(|m| m.remove(&x.1));
                    ensure!(r.is_some(), "channel {:?} is not there", x);
                    model[k].remove(x);
                }
            }
            2 => {
                let mark = c.s.coin();
                let p = Peer::new(Plain(mark));
                ensure!(p.setup_conn_msg.is_none(), "a new peer already has a connection request");
                ensure!(p.encryptor.0 == mark && p.encryptor.is_handshake_complete() == mark, "a new peer holds another encryptor");
                ensure!(p.pending_msg_buffer.lock().unwrap().is_empty(), "a new peer already has queued messages");
                log.push_str("peer; ");
                peers.push(p);
            }
            _ => {
                if let Some(p) = peers.last_mut() {
                    let q = gen_message(c);
                    p.pending_msg_buffer.lock().unwrap().push(q);
                    let host = c.s.literal_str();
                    p.setup_conn_msg = if c.s.coin() {
                        mining::SetupConnection::new(2, 2, mining_flags(1), "h", 1, "v", "w", "f", "d").ok().map(SetupConnection::Mining)
                    } else {
                        jobs::SetupConnection::new(2, 2, jobs::SetupConnectionFlags::empty(), host.clone(), 1, "v".to_string(), "w".to_string(), "f".to_string(), "d".to_string()).ok().map(SetupConnection::JobNegotiation)
                    };
                    log.push_str("busy peer; ");
                }
            }
        }
        for (m, w) in managers.iter().zip(&model) {
            let held = m.channels.lock().unwrap();
            let total: usize = held.values().map(|x| x.len()).sum();
            ensure!(total == w.len(), "a manager holds {} channels instead of {}", total, w.len());
        }
    }
    for (m, w) in managers.iter().zip(&model) {
        let held = m.channels.lock().unwrap();
        for ((conn, id), (sub, vals)) in w {
            let o = (sub.build)(vals).map_err(|_| Stop::Discard("not built"))?;
            match held.get(conn).and_then(|x| x.get(id)) {
                Some(x) => ensure!(same_channel(x, *id, &*o), "channel {} of connection {} became {:?}", id, conn, x),
                None => fail!("channel {} of connection {} is gone", id, conn),
            }
        }
    }
    c.show(|| log);
    Ok(())
}
/// The life of a server: its key and certificate are kept as text and bytes, and it is
/// stopped and started again and again, with clients connecting in between.
fn c36_restarts(c: &mut Case) -> Res {
    let a = gen_auth(c);
    let (from, to, now) = gen_valid_interval(c);
    let version = c.s.int(0, 0xffff) as u16;
    let mut k = c.s.key32();
    if k == [0; 32] {
        k = [1; 32];
    }
    let text: String = k.iter().map(|b| format!("{:02x}", b)).collect();
    let want = nr::public(&k);
    let saved = {
        let sk = match PrivateKey::from_str(&text).map_err(|e| es(&e)).and_then(|p| Keypair::from_private_key(p).map_err(|e| es(&e))) {
            Ok(s) => s,
            Err(e) => fail!("the key {} is refused: {}", text, e),
        };
        let m = match SignedCertificate::new(version, from, to, &sk.get_public_key()).and_then(|x| SignatureNoiseMessage::from_auth_key(&a, &x)) {
            Ok(m) => m,
            Err(e) => fail!("issuing a certificate from {} to {}: {}", from, to, e),
        };
        match serialize(&m) {
            Ok(w) => w,
            Err(e) => fail!("encoding the certificate: {}", e),
        }
    };
    let runs = 1 + c.s.below(5);
    let authority = base58(&a.public.to_bytes());
    let mut log = format!("key {} certificate {}; ", text, hex(&saved));
    for run in 0..runs {
        let mixed: String = text.chars().map(|ch| if c.s.coin() { ch.to_ascii_uppercase() } else { ch }).collect();
        let cert = match deserialize::<SignatureNoiseMessage>(&saved) {
            Ok(d) => d,
            Err(e) => fail!("start {}: the saved certificate is refused: {}", run, e),
        };
        let sk = match PrivateKey::from_str(&mixed).map_err(|e| es(&e)).and_then(|p| Keypair::from_private_key(p).map_err(|e| es(&e))) {
            Ok(s) => s,
            Err(e) => fail!("start {}: the key {} is refused: {}", run, mixed, e),
        };
        let first = NoiseConfig::new(cert, sk);
        let cfg = if c.s.coin() { first.clone() } else { first };
        ensure!(cfg.static_key.get_public_key().as_bytes() == want, "start {}: the configuration holds another key", run);
        let again = serialize(&cfg.sig_noise_msg).unwrap_or_default();
        ensure!(again == saved, "start {}: the certificate held is {} instead of {}", run, hex(&again), hex(&saved));
        let clients = 1 + c.s.below(3);
        for cl in 0..clients {
            let wrapped = c.s.coin();
            log.push_str(if wrapped { "wrapped client; " } else { "client; " });
            let key = if wrapped {
                let (mut i, mut r) = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(Some(cfg.static_key.clone())));
                let done = i.init_handshake().and_then(|mut m| r.recv_handshake(&mut m)).and_then(|mut m| i.recv_handshake(&mut m));
                if let Err(e) = done {
                    fail!("start {}, client {}: handshake: {}", run, cl, e);
                }
                i.get_remote_pubkey()
            } else {
                let (mut i, mut r) = (new_noise_initiator(), new_noise_responder(Some(cfg.static_key.clone())));
                if let Err(e) = shake(&mut i, &mut r, 32 + c.s.len(100), 96 + c.s.len(100)) {
                    fail!("start {}, client {}: handshake: {}", run, cl, e);
                }
                let mut b = vec![0u8; saved.len() + 16];
                b[..saved.len()].copy_from_slice(&again);
                if r.send_message(&mut b).is_err() || i.recv_message(&mut b).is_err() {
                    fail!("start {}, client {}: the certificate does not get through", run, cl);
                }
                ensure!(b[..saved.len()] == saved[..], "start {}, client {}: another certificate arrives", run, cl);
                i.get_remote_static_public_key()
            };
            let key = match key {
                Some(x) => x,
                None => fail!("start {}, client {}: the client knows no remote key", run, cl),
            };
            ensure!(key.as_bytes() == want, "start {}, client {}: the client sees key {} instead of {}", run, cl, hex(&key.as_bytes()), hex(&want));
            let at = if c.s.one_in(4) { c.s.int(from as u64, to as u64 - 1) as u32 } else { now };
            let v = verify_at(at as i64, 0, &authority, &key, &cfg.sig_noise_msg);
            ensure!(v.is_ok(), "start {}, client {}: the server is not verified at {} (from {} to {}): {:?}", run, cl, at, from, to, v);
        }
    }
    if runs > 1 {
        c.hit("restarted");
    }
    c.nontrivial = true;
    c.show(|| log);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C32",
            rule: "cases: one connection each: a certificate issued for generated keys and interval, a handshake (library or fixed keys), the certificate sent and verified by the client, then up to six bursts (mostly up to five, at times 300) of generated, sometimes repeated messages in either direction, queued, drained, framed, packed into transport messages (one per frame, all in one, or cut anywhere), with forged bytes delivered in between and both directions renewed at times; received bytes are read frame by frame and compared with what was queued. Frames of 500 sizes around the transport limit. Non-trivial: more than one message was sent.",
            assumptions: &["a refused transport message is dropped by the receiver, as a network loop would"],
            subs: vec![sub("connection", 12_000, 400_000, c32_connection), all("sizes", 500, c32_sizes)],
        },
        Prop {
            id: "C33",
            rule: "cases: an impostor with its own (sometimes neighbouring) static key presents the genuine certificate, another authority's, another server's, an altered, a self-signed one or one for another time; a responder claims the genuine key without holding it in thirteen ways, at once or after up to three refused replies; a relay injects or reflects messages after a genuine handshake. The genuine server is verified in the same case. Every case is non-trivial.",
            assumptions: &["ed25519-dalek signs correctly", "the client checks the certificate against the session's remote key, as the documentation shows"],
            subs: vec![sub("certificate", 12_000, 300_000, c33_certificate), sub("claim", 12_000, 300_000, c33_claim), sub("relay", 8_000, 200_000, c33_relay)],
        },
        Prop {
            id: "C34",
            rule: "cases: pairs of values of one type, equal, differing in one field by the smallest change (a bit, a step, a letter's case, a trailing byte), with two fields exchanged, or unrelated; built or decoded; compared both ways, encoded, copied. Values against the plain data they hold; keys against neighbours. Frames up to the largest, copied and with a bit, a byte or the kind changed. Non-trivial: both values are valid; frames with a payload.",
            assumptions: &["floats compare as numbers: NaN and the two zeros are left out"],
            subs: vec![sub("pairs", 1_500_000, 30_000_000, c34_pairs), sub("plain-data", 300_000, 6_000_000, c34_plain), sub("frames", 250, 10_000, c34_frames).threads(4)],
        },
        Prop {
            id: "C35",
            rule: "cases: up to 32 operations (encode, decode, frame, open, parse, key parsing, certificate issue and verification at a fixed clock, sessions with fixed keys), many of them small variants of each other; each is run in order, in reverse, at random again, on several threads at once, and each in a process of its own, and must give the same bytes, values, error and text every time. Up to 2000 values of one shape decoded or encoded one after another, each also alone; values of megabytes between small ones; a few operations repeated up to 70000 times. Non-trivial: all but the short repetitions.",
            assumptions: &["thread interleavings are those the scheduler produced"],
            subs: vec![sub("order", 12_000, 300_000, c35_order), sub("large", 40, 1_000, c35_large), sub("threads", 4_000, 60_000, c35_threads).threads(4), sub("crowd", 60, 2_000, c35_crowd).threads(1), sub("processes", 3_000, 60_000, c35_processes), sub("many", 300, 10_000, c35_many), sub("repeat", 60, 2_000, c35_repeat)],
        },
        Prop {
            id: "C36",
            rule: "cases: network and server configurations of generated addresses and flags and changed copies of them; histories of channel managers, channel records and peers against maps; a server whose key and certificate are kept as text and bytes, stopped and started up to five times with clients connecting in between. Non-trivial: all but histories without a channel.",
            assumptions: &["what is saved is the private key's text and the encoded certificate, as the documentation of NoiseConfig suggests"],
            subs: vec![sub("configs", 300_000, 6_000_000, c36_configs), sub("records", 100_000, 2_000_000, c36_records), sub("restarts", 8_000, 200_000, c36_restarts)],
        },
    ]
}
