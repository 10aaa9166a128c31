//! C24: a compact workload over the whole I/O-less API for the memory-checking engines
//! (AddressSanitizer, Miri). It judges nothing itself: the engines do.

use crate::gen;
use crate::mon::{hex, panics, Case, Prop, Verdict};
use crate::props::{advertiser, codec};
use crate::refdns::{self, Data, Msg, Rr, Q};
use crate::rng::hash_bytes;
use crate::sut;
use std::ops::ControlFlow;
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::records::TXT;
use uwuhi::service::{Service, ServiceTransport, TxtRecords};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "case = one record of each supported type in an exactly fitting block, decoded from every truncation and with every length byte a little off; or one small hostile or valid message through every decoding path, one small message through the encoder into a buffer of any size, names, labels, TXT records, header accessors and an advertiser exchange; or three threads doing such things at once; judged by the engine (Miri or AddressSanitizer); non-trivial = at least one entry decoded or encoded",
        quick: 4_000,
        thorough: 200_000,
        threads: 0,
        run: c24,
        required: &["messages_decoded", "entries_decoded", "messages_encoded", "advertiser_queries", "tight_messages", "at_once"],
    }]
}

/// One record, last in its message, in a heap block that ends with it: every truncation, and every
/// byte of the RDATA and its length a little off.
fn tight(c: &mut Case<'_>) -> Verdict {
    let r = &mut c.rng;
    let n = |l: &[&[u8]]| l.iter().map(|x| x.to_vec()).collect::<Vec<_>>();
    let (x, y) = (n(&[b"mx", b"a"]), n(&[b"b"]));
    let data = match c.idx % 9 {
        0 => Data::TXT((0..r.range(1, 3)).map(|_| { let k = r.below(5); r.bytes(k) }).collect()),
        1 => Data::SRV(1, 2, 3, x),
        2 => Data::PTR(n(&[b"i", b"_http", b"_tcp", b"l"])),
        3 => Data::SOA(x, y, [1; 5]),
        4 => Data::A([1, 2, 3, 4]),
        5 => Data::AAAA([7; 16]),
        6 => Data::MX(1, x),
        7 => Data::CNAME(y),
        _ => Data::NS(x),
    };
    let mut m = Msg { id: 1, flags: 0x8400, ..Msg::default() };
    let sec = r.below(3);
    m.sec[sec].push(Rr { name: vec![], class: 1, flush: false, ttl: 1, data });
    let mut w = refdns::W::plain();
    w.msg(&m);
    let at = w.rdlens[0];
    let b = w.out;
    c.note = hex(&b);
    let mut crashed = false;
    let mut entries = 0;
    let mut run = |b: Vec<u8>| {
        let b: Box<[u8]> = b.into();
        crashed |= panics(|| {
            if let Ok(v) = sut::decode(&b) {
                entries += v.len() as u64;
            }
            let mut ips = vec![];
            let _ = uwuhi::resolver::decode_answer(&b, &mut ips);
        });
    };
    for k in if cfg!(miri) { at - 4 } else { 0 }..=b.len() {
        run(b[..k].to_vec());
    }
    let rdlen = b.len() - at - 2;
    for k in 0..rdlen {
        // consistent length, fewer bytes
        let mut x = b[..at + 2 + k].to_vec();
        x[at + 1] = k as u8;
        run(x);
    }
    for i in at..b.len() {
        let left = (b.len() - i - 1) as u8;
        for v in [b[i].wrapping_add(1), b[i].wrapping_sub(1), 0xc0, left, left + 1, left.wrapping_sub(1)] {
            if cfg!(miri) && !c.rng.chance(1, 8) {
                continue; // an interpreter takes its time
            }
            let mut x = b.clone();
            x[i] = v;
            run(x);
        }
    }
    c.count("tight_messages", 1);
    c.count("entries_decoded", entries);
    c.count("panics", crashed.into());
    c.nontrivial(hash_bytes(&b), || hex(&b));
    Ok(())
}

/// The same small things on three threads at once, for races on anything they might share.
fn at_once(c: &mut Case<'_>) -> Verdict {
    let answer = small(c, Data::SRV(1, 2, 3, vec![b"b".to_vec()]));
    let host = vec![b"h".to_vec(), b"local".to_vec()];
    let q = Q { name: host.clone(), ty: refdns::ty::A, class: 1, qu: false };
    let query = refdns::write_plain(&Msg { id: 1, q: vec![q], ..Msg::default() });
    let crashed = std::sync::atomic::AtomicU64::new(0);
    let one = |k: usize| {
        let p = panics(|| {
            for i in 0..2 {
                match (i + k) % 3 {
                    0 => {
                        let mut buf = [0; 200];
                        let n = sut::dn(&host);
                        let _ = uwuhi::resolver::encode_query(&mut buf, &n).len();
                        let _ = sut::decode(&answer);
                    }
                    1 => {
                        let mut a = uwuhi::service::advertising::Advertiser::new(Label::new("h"), [1, 2, 3, 4].into()).unwrap();
                        let s = uwuhi::service::ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
                        a.add_instance(s, uwuhi::service::InstanceDetails::new(sut::dn(&host), 7));
                        let _ = a.handle_packet(&query).map(|r| r.map(<[u8]>::len));
                    }
                    _ => {
                        let _ = uwuhi::service::discovery::decode_answer(&answer, &mut |r: uwuhi::packet::records::Record<'_>| {
                            let _ = format!("{r}");
                            ControlFlow::Continue(())
                        });
                        let _ = DomainName::from_str("host.local").map(|n| n.to_string());
                        let _ = TxtRecords::from_txt(&TXT::new([b"a=b"])).get("A").is_some();
                    }
                }
            }
        });
        crashed.fetch_add(p.into(), std::sync::atomic::Ordering::SeqCst);
    };
    std::thread::scope(|s| {
        for k in 0..3 {
            let one = &one;
            s.spawn(move || one(k));
        }
    });
    c.count("at_once", 1);
    c.count("entries_decoded", 1);
    c.count("panics", crashed.into_inner());
    c.nontrivial(hash_bytes(&answer), || hex(&answer));
    Ok(())
}

fn c24(c: &mut Case<'_>) -> Verdict {
    if c.idx % 8 == 5 {
        return at_once(c);
    }
    if c.idx % 2 == 0 {
        c.idx /= 2;
        return tight(c);
    }
    // Small, so that an interpreter gets through many of them.
    let r = &mut c.rng;
    let data = match r.below(4) {
        0 => Data::A([1, 2, 3, 4]),
        1 => Data::MX(1, vec![b"mx".to_vec(), b"a".to_vec()]),
        2 => Data::SOA(vec![b"a".to_vec()], vec![], [0; 5]),
        _ => Data::PTR(vec![b"i".to_vec(), b"_http".to_vec(), b"_tcp".to_vec(), b"local".to_vec()]),
    };
    let mut b = match r.below(5) {
        0 => small(c, data),
        1 | 2 => {
            let b = small(c, data);
            gen::mutate(&mut c.rng, b, &[12, 13], &[])
        }
        3 => {
            let mut b = vec![0, 1, 0x80 * r.below(2) as u8, 0];
            for _ in 0..4 {
                b.extend([0, r.below(3) as u8]);
            }
            for _ in 0..r.range(1, 12) {
                match r.below(6) {
                    0 | 1 => b.extend([0xc0, r.below(40) as u8]),
                    2 => b.extend([0, 0, *r.pick(&[1, 2, 6, 12, 15, 16, 28, 33]), 0, 1]),
                    3 => b.extend([0, 0, 0, 120, 0, r.below(24) as u8]),
                    4 => b.extend([2, b'a', 0xc0]),
                    _ => {
                        let n = r.below(6);
                        b.extend(r.bytes(n));
                    }
                }
            }
            b
        }
        _ => {
            let n = r.below(40);
            r.bytes(n)
        }
    };
    if c.rng.chance(1, 3) && b.len() > 2 {
        b[2] = 0;
    }
    // The block on the heap ends where the message ends.
    let b: Box<[u8]> = b.into();
    c.note = hex(&b);
    let mut entries = 0;
    let mut crashed = panics(|| {
        entries = codec::exercise(&b).0;
        let mut ips = vec![];
        let _ = uwuhi::resolver::decode_answer(&b, &mut ips);
        let _ = uwuhi::service::discovery::decode_answer(&b, &mut |r| {
            let _ = r.to_string();
            ControlFlow::Continue(())
        });
    });
    c.count("messages_decoded", 1);
    c.count("entries_decoded", entries);
    // encoder
    let mut m = Msg {
        id: c.rng.u16(),
        flags: c.rng.u16(),
        ..Msg::default()
    };
    let mut pool = vec![];
    for _ in 0..c.rng.below(3) {
        m.q.push(gen::question(&mut c.rng, &mut pool));
    }
    for s in 0..3 {
        for _ in 0..c.rng.below(2) {
            let name = gen::pooled_name(&mut c.rng, &mut pool);
            let data = match c.rng.below(5) {
                0 => Data::A([0; 4]),
                1 => Data::AAAA([9; 16]),
                2 => Data::SRV(1, 2, 3, name.clone()),
                3 => Data::SOA(name.clone(), name.clone(), [1, 2, 3, 4, 5]),
                _ => Data::TXT(vec![b"k=v".to_vec(), b"flag".to_vec(), vec![]]),
            };
            m.sec[s].push(Rr { name, class: c.rng.u16() & 0x7fff, flush: false, ttl: c.rng.u32(), data });
        }
    }
    let n = 12 + c.rng.below(300);
    let drop_it = c.rng.chance(1, 3);
    crashed |= panics(|| {
        let mut buf = vec![0; n];
        let _ = sut::encode(&m, &mut buf, drop_it);
    });
    c.count("messages_encoded", 1);
    // names, headers, services
    let s: String = (0..c.rng.below(20)).map(|_| *c.rng.pick(&['a', '.', 'B', '\u{e4}', '-', '\\'])).collect();
    let flags = c.rng.u16();
    let l = gen::label(&mut c.rng);
    crashed |= panics(|| {
        if let Ok(n) = DomainName::from_str(&s) {
            let _ = format!("{n} {n:?} {}", n == n.clone());
        }
        let l = Label::new(&l);
        let _ = format!("{l} {l:?} {:?}", l.as_bytes().len());
        let mut h = sut::header(7, flags, [1, 2, 3, 4]);
        h.set_id(flags);
        let _ = format!("{h:?} {} {}", h.opcode(), h.rcode());
        let t = TxtRecords::from_txt(&TXT::new([l.as_bytes()]));
        let _ = format!("{t} {t:?}");
        if l.as_bytes().starts_with(b"_") {
            let _ = Service::new(l, ServiceTransport::TCP).to_string();
        }
    });
    // advertiser
    let inst = advertiser::random_inst(&mut c.rng, false);
    let q = Q {
        name: if c.rng.chance(1, 2) { inst.domain() } else { inst.service_domain() },
        ty: *c.rng.pick(&[refdns::ty::ANY, refdns::ty::PTR, refdns::ty::SRV]),
        class: 1,
        qu: false,
    };
    let query = refdns::write_plain(&Msg { id: 1, q: vec![q], ..Msg::default() });
    crashed |= panics(|| {
        let mut a = uwuhi::service::advertising::Advertiser::new(Label::new("h"), [1, 2, 3, 4].into()).unwrap();
        a.add_instance(inst.instance(), inst.details());
        for p in [&query[..], &b] {
            if let Ok(Some(r)) = a.handle_packet(p) {
                let _ = r.len();
            }
        }
    });
    c.count("advertiser_queries", 1);
    // Panics are for C01 to judge.
    c.count("panics", crashed.into());
    c.nontrivial(hash_bytes(&b), || hex(&b));
    Ok(())
}

fn small(c: &mut Case<'_>, d: Data) -> Vec<u8> {
    let name = vec![b"a".to_vec(), b"local".to_vec()];
    let mut m = Msg { id: 1, flags: 0x8400, ..Msg::default() };
    m.sec[c.rng.below(3)].push(Rr { name: name.clone(), class: 1, flush: true, ttl: 1, data: d });
    m.sec[0].push(Rr { name: name.clone(), class: 1, flush: true, ttl: 1, data: Data::SRV(0, 0, 1, name.clone()) });
    m.sec[0].push(Rr { name, class: 1, flush: true, ttl: 1, data: Data::TXT(vec![b"a=b".to_vec()]) });
    let mut w = refdns::W::compressing(&mut c.rng, 16);
    w.msg(&m);
    w.out
}
