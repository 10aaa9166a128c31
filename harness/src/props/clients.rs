//! C28: the functions that the resolvers and discoverers are made of, called directly: they do no
//! I/O, and the crate offers them to users who bring their own sockets.

use crate::ensure;
use crate::gen;
use crate::mon::{hex, no_panic, panics, Case, Prop, Verdict};
use crate::refdns::{self, name_str, ty, Data, Item, Msg, Name, Rr, Q};
use crate::rng::{hash_bytes, Rng};
use crate::sut;
use std::net::IpAddr;
use std::ops::ControlFlow;
use uwuhi::packet::records::Record;
use uwuhi::{resolver, service::discovery};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "case = 4 queries written into buffers of every kind of size and read back by the reference reader, and 6 received messages (responses and queries, valid, mutated, hostile, up to 64 KiB, with and without earlier addresses, with a callback that ends early) taken apart by both decode_answer functions and compared with the reference; non-trivial = message with a record in its answer section",
        quick: 60_000,
        thorough: 4_000_000,
        threads: 0,
        run: c28,
        required: &["queries", "exact_buffers", "small_buffers", "repeated_types", "responses", "not_responses", "addresses", "records_passed_on", "stopped_early", "earlier_addresses", "malformed_answers", "malformed_questions", "malformed_rdata", "other_sections", "over_1500_bytes"],
    }]
}

fn query(c: &mut Case<'_>) -> Verdict {
    let name = gen::name(&mut c.rng);
    let d = sut::dn(&name);
    let resolver = c.rng.chance(1, 2);
    let mut types = vec![];
    if resolver {
        types.extend([ty::A, ty::AAAA]);
    } else {
        for _ in 0..*c.rng.pick(&[0usize, 1, 1, 2, 2, 3, 20]) {
            let t = if c.rng.chance(1, 4) && !types.is_empty() { types[0] } else { gen::type_code(&mut c.rng) };
            types.push(t);
        }
    }
    let want = Msg {
        flags: if resolver { refdns::RD } else { 0 },
        q: types
            .iter()
            .map(|&ty| Q { name: name.clone(), ty, class: 1, qu: false })
            .collect(),
        ..Msg::default()
    };
    let need = refdns::write_plain(&want).len();
    let size = match c.rng.below(6) {
        0 => need,
        1 => need + c.rng.range(1, 3),
        2 => need - c.rng.range(1, need),
        3 => c.rng.below(need + 40),
        4 => 70_000,
        _ => 1500,
    };
    let fill = c.rng.u8();
    let mut buf = vec![fill; size];
    let qtypes: Vec<_> = types.iter().map(|&t| sut::qty(t)).collect();
    c.note = format!("query for {} with types {types:?} into {size} bytes, resolver: {resolver}", name_str(&name));
    c.count("queries", 1);
    let start = buf.as_ptr();
    let mut out: Option<Vec<u8>> = None;
    let mut place = true;
    let mut go = || {
        let b = if resolver {
            resolver::encode_query(&mut buf, &d)
        } else {
            discovery::encode_query(&mut buf, &d, &qtypes)
        };
        place = b.as_ptr() == start;
        out = Some(b.to_vec());
    };
    if size >= need {
        no_panic("encode_query", &mut go)?;
        if size == need {
            c.count("exact_buffers", 1);
        }
    } else {
        c.count("small_buffers", 1);
        // There is no other way to say so.
        panics(&mut go);
    }
    if types.len() > 2 {
        c.count("repeated_types", 1);
    }
    let Some(b) = out else { return Ok(()) };
    ensure!(place, "the query is not at the start of the buffer");
    let p = match refdns::parse(&b) {
        Ok(p) if p.error().is_none() && p.end == b.len() => p,
        p => return Err(format!("the query is not a message: {} ({p:?})", hex(&b)).into()),
    };
    ensure!(
        p.hdr.flags == want.flags && p.hdr.counts == [types.len() as u16, 0, 0, 0],
        "the header of the query says {:?}: {}",
        p.hdr,
        hex(&b)
    );
    let (got, items) = (sut::expected(&p), sut::items_of(&want));
    ensure!(got == items, "the query asks {got:?}, not {items:?}");
    Ok(())
}

fn message(r: &mut Rng) -> Vec<u8> {
    let mut b = match r.below(40) {
        0 => gen::long_valid(r),
        1 => gen::deep(r),
        2..=15 => gen::hostile(r).0,
        _ => {
            // something a client may get
            let mut m = gen::msg(r);
            let mut pool: Vec<Name> = vec![gen::name(r)];
            for _ in 0..r.below(6) {
                let data = match r.below(8) {
                    0 | 1 => Data::A(gen::v4(r)),
                    2 | 3 => Data::AAAA(gen::v6(r)),
                    4 => {
                        let n = r.below(20);
                        Data::Raw(*r.pick(&[ty::A, ty::AAAA, ty::SRV, ty::PTR, ty::TXT]), r.bytes(n))
                    }
                    _ => gen::data(r, &mut pool),
                };
                let s = if r.chance(3, 4) { 0 } else { r.below(3) };
                let at = r.below(m.sec[s].len() + 1);
                let rr = Rr { name: r.pick(&pool).clone(), class: 1, flush: r.chance(1, 3), ttl: r.u32_edge(), data };
                m.sec[s].insert(at, rr);
            }
            let compress = *r.pick(&[0usize, 8, 16]);
            let mut w = refdns::W::compressing(r, compress);
            w.msg(&m);
            w.out
        }
    };
    if b.len() > 2 && r.chance(7, 8) {
        b[2] |= 0x80;
    }
    b
}

struct Want {
    response: bool,
    /// Well-formed records of the answer section.
    records: Vec<(u16, Data)>,
    questions_bad: bool,
    answers_bad: bool,
    address_bad: bool,
    typed_bad: bool,
}

fn want(p: &refdns::Parsed) -> Want {
    let mut w = Want {
        response: p.hdr.flags & refdns::QR != 0,
        records: vec![],
        questions_bad: false,
        answers_bad: false,
        address_bad: false,
        typed_bad: false,
    };
    for i in &p.items {
        match i {
            Item::R { sec: 1, class, typed: Some(Ok(d)), .. } => w.records.push((class & 0x7fff, d.clone())),
            Item::R { sec: 1, typed: Some(Err(_)), ty: t, .. } => {
                w.typed_bad = true;
                w.address_bad |= matches!(*t, ty::A | ty::AAAA);
            }
            Item::E { sec: 0, .. } => w.questions_bad = true,
            Item::E { sec: 1, .. } => w.answers_bad = true,
            _ => {}
        }
    }
    w
}

fn ips(w: &Want) -> Vec<(u16, IpAddr)> {
    w.records
        .iter()
        .filter_map(|(c, d)| match d {
            Data::A(a) => Some((*c, IpAddr::from(*a))),
            Data::AAAA(a) => Some((*c, IpAddr::from(*a))),
            _ => None,
        })
        .collect()
}

/// `got` is `want`, except that addresses of other classes than IN may be missing, and (`prefix`)
/// anything behind some point.
fn matches_ips(got: &[IpAddr], want: &[(u16, IpAddr)], prefix: bool) -> bool {
    let mut g = got.iter().peekable();
    for (class, ip) in want {
        match g.peek() {
            Some(x) if *x == ip => {
                g.next();
            }
            None if prefix => {}
            _ if *class != 1 => {}
            _ => return false,
        }
    }
    g.next().is_none()
}

fn received(c: &mut Case<'_>) -> Verdict {
    let b = message(&mut c.rng);
    let stop = match c.rng.below(3) {
        0 => c.rng.below(5),
        _ => usize::MAX,
    };
    let earlier: Vec<IpAddr> = match c.rng.below(3) {
        0 => (0..c.rng.range(1, 4)).map(|_| super::advertiser::random_ip(&mut c.rng)).collect(),
        _ => vec![],
    };
    c.note = format!("message {}, earlier addresses {earlier:?}, stop at {stop}", hex(&b));
    if b.len() > 1500 {
        c.count("over_1500_bytes", 1);
    }
    if !earlier.is_empty() {
        c.count("earlier_addresses", 1);
    }

    let mut v = earlier.clone();
    let res = no_panic("resolver::decode_answer", || resolver::decode_answer(&b, &mut v))?;
    let mut seen: Vec<Data> = vec![];
    let mut after = false;
    let flow = no_panic("discovery::decode_answer", || {
        let mut n = 0;
        discovery::decode_answer(&b, &mut |r: Record<'_>| {
            after |= n > stop;
            n += 1;
            seen.push(sut::data(&r));
            if n > stop {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(())
            }
        })
    })?;
    ensure!(!after, "the callback was called again after it returned Break");
    ensure!(
        v.len() >= earlier.len() && v[..earlier.len()] == earlier[..],
        "the addresses that were there before became {v:?}"
    );
    let new = &v[earlier.len()..];

    let Ok(p) = refdns::parse(&b) else {
        ensure!(res.is_err() && new.is_empty(), "a message without a header gave {res:?} and {new:?}");
        ensure!(flow.is_err() && seen.is_empty(), "a message without a header gave {flow:?} and {seen:?}");
        return Ok(());
    };
    if p.long_name {
        c.count("names_over_255_octets", 1);
        return Ok(());
    }
    let w = want(&p);
    if !w.response {
        c.count("not_responses", 1);
        ensure!(new.is_empty(), "addresses {new:?} were taken from a message that is not a response");
        ensure!(seen.is_empty(), "records {seen:?} were taken from a message that is not a response");
        ensure!(
            w.questions_bad || res.is_ok(),
            "resolver::decode_answer returned {res:?} for a message that is not a response"
        );
        ensure!(
            w.questions_bad || matches!(flow, Ok(ControlFlow::Continue(()))),
            "discovery::decode_answer returned {flow:?} for a message that is not a response"
        );
        return Ok(());
    }
    c.count("responses", 1);
    if w.questions_bad {
        c.count("malformed_questions", 1);
        ensure!(res.is_err() && new.is_empty(), "malformed questions gave {res:?} and {new:?}");
        ensure!(flow.is_err() && seen.is_empty(), "malformed questions gave {flow:?} and {seen:?}");
        return Ok(());
    }
    if p.items.iter().any(|i| matches!(i, Item::R { sec: 2 | 3, typed: Some(Ok(_)), .. })) {
        c.count("other_sections", 1);
    }
    if w.records.len() + usize::from(w.typed_bad) > 0 {
        c.nontrivial(hash_bytes(&b), || format!("{} answers: {}", w.records.len(), hex(&b)));
    }

    // Addresses
    let addrs = ips(&w);
    if w.answers_bad || w.address_bad {
        c.count("malformed_answers", u64::from(w.answers_bad));
        c.count("malformed_rdata", u64::from(w.address_bad));
        ensure!(res.is_err(), "a malformed answer section gave {res:?}");
    } else if !w.typed_bad {
        ensure!(res.is_ok(), "a well-formed answer section gave {res:?}");
    }
    ensure!(
        matches_ips(new, &addrs, res.is_err()),
        "resolver::decode_answer ({res:?}) added {new:?}; the answer section has {addrs:?}"
    );
    c.count("addresses", new.len() as u64);

    // Records
    let all: Vec<&Data> = w.records.iter().map(|(_, d)| d).collect();
    let n = all.len().min(stop.saturating_add(1));
    ensure!(
        seen.iter().collect::<Vec<_>>() == all[..n],
        "discovery::decode_answer passed on {seen:?}; the answer section has {all:?}, and it was to stop after {n}"
    );
    c.count("records_passed_on", seen.len() as u64);
    if stop < all.len() {
        c.count("stopped_early", 1);
        ensure!(
            matches!(flow, Ok(ControlFlow::Break(()))),
            "the callback returned Break, discovery::decode_answer {flow:?}"
        );
    } else {
        ensure!(
            !matches!(flow, Ok(ControlFlow::Break(()))),
            "the callback never returned Break, but discovery::decode_answer did"
        );
        ensure!(
            w.answers_bad || w.typed_bad || flow.is_ok(),
            "a well-formed answer section gave {flow:?}"
        );
    }
    Ok(())
}

fn c28(c: &mut Case<'_>) -> Verdict {
    for _ in 0..4 {
        c.evals(1);
        query(c)?;
    }
    for _ in 0..6 {
        c.evals(1);
        received(c)?;
    }
    Ok(())
}
