//! C23: the mDNS tap.

use crate::props::soak;
use crate::ensure;
use crate::gen;
use crate::mon::{self, hex, Case, Fail, Prop, Verdict};
use crate::net;
use crate::refdns::{self, ty, Data, Item, Msg, W};
use crate::rng::hash_bytes;
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::tap::SyncTap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "case = one SyncTap in a fresh network namespace, 3 bursts of 1-12 datagrams (well-formed messages up to 1500 bytes, mutations and truncations of them, noise, empty and oversized datagrams, by unicast and multicast, each from a port of its own) and a fence message; the captured log is matched against the datagrams; non-trivial = burst with a well-formed message next to a malformed one",
        quick: 5_000,
        thorough: 120_000,
        threads: 0,
        run: c23,
        required: &["crowded", "long_histories", "taps", "fences", "well_formed", "malformed", "oversized", "empty", "full_buffer", "entries_logged", "contents_checked", "multicast", "unicast", "spoofed"],
    }]
}

/// One text per entry of a message that can be read to its end.
fn entries(b: &[u8]) -> Option<Vec<String>> {
    let mut v = vec![];
    let mut d = MessageDecoder::new(b).ok()?;
    for q in d.iter() {
        v.push(q.ok()?.to_string());
    }
    let mut d = d.answers().ok()?;
    for r in d.iter() {
        v.push(r.ok()?.to_string());
    }
    let mut d = d.authority().ok()?;
    for r in d.iter() {
        v.push(r.ok()?.to_string());
    }
    let mut d = d.additional().ok()?;
    for r in d.iter() {
        v.push(r.ok()?.to_string());
    }
    Some(v)
}

fn marker(n: u64) -> String {
    // Not turned into each other by mutations.
    format!("zq{:08x}", hash_bytes(&n.to_le_bytes()) as u32)
}

fn mark(m: &mut Msg, n: u64) {
    let l = marker(n).into_bytes();
    let names = m
        .q
        .iter_mut()
        .map(|q| &mut q.name)
        .chain(m.sec.iter_mut().flatten().map(|r| &mut r.name));
    for name in names {
        name.insert(0, l.clone());
        while refdns::name_wire_len(name) > 255 {
            name.pop();
        }
    }
}

struct Sent {
    from: SocketAddr,
    bytes: Vec<u8>,
    marker: String,
    /// Texts that have to show up, in this order, if the message can be read to its end.
    /// And what the line has to contain, as the packet says.
    texts: Option<Vec<(String, Vec<String>)>>,
    id: u16,
}

pub fn c23(c: &mut Case<'_>) -> Verdict {
    if soak::due(c) && c.idx % 2 == 0 {
        return soak::tapped(c);
    }
    net::pin();
    // Every now and then the senders are on another host than the tap.
    let other = net::sometimes_linked(c)?;
    let lines = Arc::new(Mutex::new(Vec::<String>::new()));
    let sink = lines.clone();
    let (tx, tid) = std::sync::mpsc::channel();
    let mut tap = net::call("SyncTap", move || {
        let _ = tx.send(net::thread_id());
        mon::capture_log(sink);
        SyncTap::new()?.listen()
    });
    c.count("taps", 1);
    let mut alive = move || -> Verdict {
        if !tap.finished() {
            return Ok(());
        }
        match tap.result() {
            Some(Err(p)) => Err(Fail::Violation(p.clone())),
            Some(Ok(r)) => Err(Fail::Violation(format!("SyncTap::listen returned {r:?}"))),
            None => Err(Fail::Inconclusive("tap thread died".into())),
        }
    };
    let r = match &other {
        Some(o) => o
            .enter()
            .map_err(Fail::Inconclusive)
            .and_then(|()| run(c, &lines, &mut alive, o.far(), o.near())),
        None => run(c, &lines, &mut alive, Ipv4Addr::LOCALHOST, Ipv4Addr::LOCALHOST),
    };
    // The tap cannot be ended otherwise.
    if let Ok(tid) = tid.recv_timeout(Duration::from_millis(100)) {
        net::end_listener(tid, || alive().is_err());
    }
    r
}

fn run(
    c: &mut Case<'_>,
    lines: &Mutex<Vec<String>>,
    alive: &mut dyn FnMut() -> Verdict,
    own: Ipv4Addr,
    tap: Ipv4Addr,
) -> Verdict {
    let unicast: SocketAddr = (tap, net::MDNS_PORT).into();
    let group: SocketAddr = (net::GROUP, net::MDNS_PORT).into();
    let socket = || UdpSocket::bind((own, 0)).expect("harness: bind");
    let mut serial = 0u64;
    // Sends marked messages until one shows up in the log.
    let mut fence = |alive: &mut dyn FnMut() -> Verdict, to: SocketAddr| -> Verdict {
        let t = Instant::now();
        let mut step = Duration::from_millis(20);
        let s = socket();
        let mut markers = vec![];
        while t.elapsed() < net::HANG {
            serial += 1;
            let m = format!("fence{serial}ecnef");
            let b = refdns::write_plain(&Msg {
                q: vec![refdns::Q {
                    name: vec![m.clone().into_bytes()],
                    ty: 1,
                    class: 1,
                    qu: false,
                }],
                ..Msg::default()
            });
            markers.push(m);
            net::send(&s, &b, to);
            let t2 = Instant::now();
            while t2.elapsed() < step {
                alive()?;
                let l = lines.lock().unwrap();
                if l.iter().any(|l| markers.iter().any(|m| l.contains(m))) {
                    return Ok(());
                }
                drop(l);
                std::thread::sleep(Duration::from_micros(100));
            }
            step = (step * 2).min(Duration::from_secs(2));
        }
        alive()?;
        Err(Fail::Violation(format!(
            "no message sent to {to} over {} s was logged",
            net::HANG.as_secs()
        )))
    };
    fence(alive, unicast)?;
    fence(alive, group)?;
    let mut n = 0u64;
    for _ in 0..3 {
        // Nothing is on its way: late fences come from ports of their own.
        lines.lock().unwrap().clear();
        let mut sent: Vec<Sent> = vec![];
        let mut counts: Vec<&str> = vec![];
        let mut h = 0;
        let mut keep = vec![];
        for _ in 0..c.rng.range(1, 12) {
            c.evals(1);
            n += 1;
            let r = &mut c.rng;
            let valid = |r: &mut crate::rng::Rng| {
                let mut m = gen::msg(r);
                mark(&mut m, n);
                let compress = *r.pick(&[0usize, 8, 16]);
                let mut w = W::compressing(r, compress);
                w.msg(&m);
                w.out
            };
            let b = match r.below(13) {
                0..=4 => valid(r),
                12 => {
                    // more entries than a byte can count
                    counts.push("crowded");
                    let mut m = Msg { id: r.u16(), flags: r.u16(), ..Msg::default() };
                    for i in 0..*r.pick(&[200usize, 255, 256, 257, 290]) {
                        let name = if i == 0 { vec![marker(n).into_bytes()] } else { vec![] };
                        m.q.push(refdns::Q { name, ty: r.range(1, 50) as u16, class: 1, qu: false });
                    }
                    refdns::write_plain(&m)
                }
                5 => {
                    let mut b = valid(r);
                    let at = r.below(b.len());
                    b.truncate(at);
                    b
                }
                6..=7 => {
                    let b = valid(r);
                    gen::mutate(r, b, &[12, 13], &[])
                }
                8 => vec![],
                9 => {
                    counts.push("oversized");
                    let mut b = valid(r);
                    let n = *r.pick(&[1501usize, 1600, 9000]);
                    while b.len() < n {
                        b.push(0);
                    }
                    if r.chance(1, 2) {
                        // more entries than there is room for
                        b[7] = b[7].wrapping_add(200);
                    }
                    b
                }
                10 => {
                    // exactly as large as the receive buffer
                    let mut m = Msg { id: r.u16(), ..Msg::default() };
                    let fill = r.below(40);
                    let mut left = 1500 - 12;
                    let name = vec![marker(n).into_bytes()];
                    let head = refdns::name_wire_len(&name) + 10;
                    while left > 0 {
                        let room = if left > 400 { 200 + fill } else { left };
                        let d = vec![b'x'; room - head];
                        m.sec[0].push(refdns::Rr {
                            name: name.clone(),
                            class: 1,
                            flush: false,
                            ttl: 1,
                            data: refdns::Data::Raw(10, d),
                        });
                        left -= room;
                    }
                    counts.push("full_buffer");
                    refdns::write_plain(&m)
                }
                _ => gen::hostile(r).0,
            };
            let mut b = b;
            b.truncate(9000);
            let seen = &b[..b.len().min(uwuhi::MDNS_BUFFER_SIZE)];
            let parsed = refdns::parse(seen);
            let good = b.len() <= uwuhi::MDNS_BUFFER_SIZE
                && parsed.as_ref().is_ok_and(|p| {
                    !p.long_name
                        && p.error().is_none()
                        && p.items.iter().all(|i| match i {
                            Item::Q { .. } => true,
                            Item::R { typed, .. } => typed.as_ref().is_none_or(Result::is_ok),
                            Item::E { .. } => false,
                        })
                });
            let texts = if good { entries(seen) } else { None };
            ensure!(!good || texts.is_some(), "well-formed message cannot be read: {}", hex(&b));
            let texts = texts.map(|t| {
                let items = parsed.as_ref().map_or(vec![], |p| p.items.iter().map(tokens).collect());
                t.into_iter().zip(items).collect::<Vec<_>>()
            });
            counts.push(if b.is_empty() {
                "empty"
            } else if good {
                "well_formed"
            } else {
                "malformed"
            });
            let multicast = r.chance(1, 2);
            let to = if multicast { group } else { unicast };
            let spoofed = own == tap && r.chance(1, 8) && b.len() <= 8000;
            let s = socket();
            let mut from = s.local_addr().unwrap();
            if spoofed {
                // Nothing is ever sent back, so the source does not have to exist.
                from = (Ipv4Addr::new(10, 1, r.u8(), r.range(1, 250) as u8), 1 + (n % 60000) as u16).into();
                let SocketAddr::V4(f) = from else { unreachable!() };
                let dst = if multicast { net::GROUP } else { Ipv4Addr::LOCALHOST };
                net::send_spoofed(*f.ip(), f.port(), dst, &b).map_err(Fail::Inconclusive)?;
                counts.push("spoofed");
            } else {
                net::send(&s, &b, to);
            }
            counts.push(if multicast { "multicast" } else { "unicast" });
            keep.push(s);
            h ^= hash_bytes(&b);
            sent.push(Sent {
                from,
                id: parsed.map_or(0, |p| p.hdr.id),
                bytes: b,
                marker: marker(n),
                texts,
            });
        }
        c.note = sent
            .iter()
            .map(|s| format!("{} {}", s.from, hex(&s.bytes)))
            .collect::<Vec<_>>()
            .join("; ");
        fence(alive, unicast)?;
        c.count("fences", 1);
        let log = lines.lock().unwrap().clone();
        let mut at = 0;
        // Segments of the log: from the line that names the source to the next such line.
        let mut starts = vec![];
        for s in &sent {
            let from = s.from.to_string();
            let Some(i) = log[at..].iter().position(|l| mentions(l, &from)) else {
                if s.texts.is_none() {
                    // Nothing has to be said about it.
                    starts.push(None);
                    continue;
                }
                return Err(format!(
                    "the log does not mention the datagram from {from}: {} ({} lines were logged)",
                    hex(&s.bytes),
                    log.len()
                )
                .into());
            };
            starts.push(Some(at + i));
            at += i + 1;
        }
        starts.push(Some(log.len()));
        for (i, s) in sent.iter().enumerate() {
            let Some(texts) = &s.texts else { continue };
            let end = starts[i + 1..].iter().find_map(|s| *s);
            let (Some(begin), Some(end)) = (starts[i], end) else {
                unreachable!("harness: no segment")
            };
            let seg = &log[begin..end];
            for l in &seg[1..] {
                for (j, o) in sent.iter().enumerate() {
                    ensure!(
                        i == j || o.texts.is_none() || !l.contains(&o.marker),
                        "logged for the datagram {}: {l:?}, which is from another one",
                        hex(&s.bytes)
                    );
                }
            }
            let mut at = 1;
            let id = s.id.to_string();
            let kind = if s.bytes[2] & 0x80 != 0 { "response" } else { "query" };
            ensure!(
                seg[1..].iter().any(|l| mentions(l, &id) && l.to_lowercase().contains(kind)),
                "{kind} with ID {id} is not logged as such for {}: {seg:?}",
                hex(&s.bytes)
            );
            for (t, tokens) in texts {
                let Some(k) = seg[at.min(seg.len())..].iter().position(|l| l.contains(t.as_str())) else {
                    return Err(format!(
                        "entry {t:?} of {} is missing from its log (or out of order): {seg:?}",
                        hex(&s.bytes)
                    )
                    .into());
                };
                let line = &seg[at + k];
                for x in tokens {
                    ensure!(
                        mentions(line, x),
                        "{x} is missing where an entry of {} is logged: {line:?}",
                        hex(&s.bytes)
                    );
                }
                at += k + 1;
                c.count("entries_logged", 1);
                c.count("contents_checked", tokens.len() as u64);
            }
        }
        let good = counts.iter().any(|k| *k == "well_formed" || *k == "full_buffer");
        let bad = counts.iter().any(|k| *k == "malformed" || *k == "oversized");
        for k in counts {
            c.count(k, 1);
        }
        if good && bad {
            let note = c.note.clone();
            c.nontrivial(h, || note);
        }
        alive()?;
    }
    Ok(())
}

/// What the text of an entry consists of, at least.
fn tokens(i: &Item) -> Vec<String> {
    fn name(n: &refdns::Name, out: &mut Vec<String>) {
        // Other names are escaped in some way.
        let plain = |b: &u8| b.is_ascii_alphanumeric() || matches!(b, b'-' | b'_');
        if !n.is_empty() && n.iter().flatten().all(plain) {
            let l: Vec<String> = n.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect();
            out.push(l.join("."));
        }
    }
    fn kind(t: u16, out: &mut Vec<String>) {
        let known = [
            (ty::A, "A"),
            (ty::AAAA, "AAAA"),
            (ty::CNAME, "CNAME"),
            (ty::MX, "MX"),
            (ty::NS, "NS"),
            (ty::PTR, "PTR"),
            (ty::TXT, "TXT"),
            (ty::SRV, "SRV"),
            (ty::SOA, "SOA"),
        ];
        out.extend(known.iter().filter(|k| k.0 == t).map(|k| k.1.to_string()));
    }
    let mut v = vec![];
    match i {
        Item::Q { name: n, ty, .. } => {
            name(n, &mut v);
            kind(*ty, &mut v);
        }
        Item::R { name: n, ty, typed, .. } => {
            name(n, &mut v);
            kind(*ty, &mut v);
            let Some(Ok(d)) = typed else { return v };
            match d {
                Data::A(a) => v.push(Ipv4Addr::from(*a).to_string()),
                Data::AAAA(a) => v.push(Ipv6Addr::from(*a).to_string()),
                Data::CNAME(n) | Data::NS(n) | Data::PTR(n) => name(n, &mut v),
                Data::MX(p, n) => {
                    v.push(p.to_string());
                    name(n, &mut v);
                }
                Data::SRV(a, b, c, n) => {
                    v.extend([a, b, c].map(u16::to_string));
                    name(n, &mut v);
                }
                Data::SOA(a, b, x) => {
                    name(a, &mut v);
                    name(b, &mut v);
                    v.extend(x.iter().map(u32::to_string));
                }
                Data::TXT(e) => {
                    for x in e {
                        if !x.is_empty() && x.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'=') {
                            v.push(String::from_utf8_lossy(x).into_owned());
                        }
                    }
                }
                Data::Raw(..) => {}
            }
        }
        Item::E { .. } => {}
    }
    v
}

/// Whether `l` contains `what`, and not as a part of a longer number.
fn mentions(l: &str, what: &str) -> bool {
    l.match_indices(what).any(|(i, _)| {
        let before = l[..i].chars().next_back();
        let after = l[i + what.len()..].chars().next();
        !before.is_some_and(|c| c.is_ascii_digit()) && !after.is_some_and(|c| c.is_ascii_digit())
    })
}
