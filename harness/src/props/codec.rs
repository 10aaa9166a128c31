//! C01-C06: the message decoder and encoder.

use crate::ensure;
use crate::gen::{self, Origin};
use crate::mon::{cpu_guard, hex, metered, no_panic, panics, rendered, Case, Prop, Verdict};
use crate::refdns::{self, Data, Item, Msg, RefErr, Rr, W};
use crate::rng::{hash_bytes, Rng};
use crate::sut::{self, DItem};
use std::fmt::Write;
use std::net::IpAddr;
use std::ops::ControlFlow;
use uwuhi::name::Label;
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::encoder::MessageEncoder;
use uwuhi::packet::records::Record;
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecords};
use uwuhi::Error;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "case = 32 byte strings (valid compressed messages, mutations of them aimed at length/pointer/count bytes, pointer soup, noise; 0..4096 bytes; now and then up to 64 KiB with the longest chains of pointers, on a small stack) driven through every decoding path, formatting and logging with the allocation meter and the CPU watchdog on; non-trivial = at least one entry decoded, or an error other than a short header",
            quick: 24_000,
            thorough: 700_000,
            threads: 0,
            run: c01,
            required: &["origin_valid", "origin_mutated", "origin_soup", "origin_noise", "err_Eof", "err_PointerLoop", "err_InvalidValue", "entries_decoded", "pointers_followed", "log_lines_rendered", "deep_messages"],
        },
        Prop {
            id: "C02",
            rule: "case = 24 byte strings as in C01, now and then a valid one of up to 17 KiB, decoded by the library and by the reference reader, compared entry by entry (owner, type, class, flush bit, TTL, RDATA, typed view, error and where it occurs); non-trivial = at least one entry or error to compare",
            quick: 45_000,
            thorough: 1_200_000,
            threads: 0,
            run: c02,
            required: &["messages_compared", "entries_compared", "pointers_followed", "overlapping_names", "err_Eof", "err_PointerLoop", "err_InvalidValue", "origin_valid", "origin_mutated", "origin_soup", "long_messages", "linked_names"],
        },
        Prop {
            id: "C03",
            rule: "case = 8 messages (valid or hostile), each traversed along 6 random schedules of next/iter/skip calls and compared with the straight traversal; non-trivial = message with entries in two or more sections",
            quick: 80_000,
            thorough: 2_400_000,
            threads: 0,
            run: c03,
            required: &["schedules", "skips", "post_error_reads", "multi_section", "jumps"],
        },
        Prop {
            id: "C04",
            rule: "case = random message (all typed records, arbitrary codes, names up to 255 octets) built through the encoder, read back by the reference reader and by the library; non-trivial = at least one entry",
            quick: 300_000,
            thorough: 9_000_000,
            threads: 0,
            run: c04,
            required: &["entries", "questions", "typed_records", "dropped_without_finish", "names_over_200_octets", "crowded_sections"],
        },
        Prop {
            id: "C05",
            rule: "case = one random message encoded into every buffer size from 0 to its full size + 4; each (message, size) is one evaluation; non-trivial = message with two or more entries",
            quick: 10_000,
            thorough: 400_000,
            threads: 0,
            run: c05,
            required: &["sizes_too_small_for_header", "truncated_sizes", "exact_fit", "whole_entries_in_truncated"],
        },
        Prop {
            id: "C06",
            rule: "case = one record per supported type with random contents behind a random compressed message prefix; decoded from its full RDATA, from every shorter RDATA length, and re-encoded; non-trivial = every record",
            quick: 15_000,
            thorough: 350_000,
            threads: 0,
            run: c06,
            required: &["type_A", "type_AAAA", "type_CNAME", "type_MX", "type_NS", "type_PTR", "type_TXT", "type_SRV", "type_SOA", "short_rdata_rejected", "short_rdata_txt_accepted", "compressed_rdata", "unknown_types"],
        },
    ]
}

fn count_origin(c: &mut Case<'_>, o: Origin) {
    c.count(
        match o {
            Origin::Valid => "origin_valid",
            Origin::Mutated => "origin_mutated",
            Origin::Soup => "origin_soup",
            Origin::Noise => "origin_noise",
        },
        1,
    );
}

/// Swallows formatted output.
struct Null(usize);
impl Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// Everything a program can do with received bytes. Collects nothing, so that the meter sees the
/// library's own memory use.
pub fn exercise(b: &[u8]) -> (u64, Option<Error>) {
    let mut out = Null(0);
    let mut entries = 0;
    let mut first_err = None;
    let d = match MessageDecoder::new(b) {
        Ok(d) => d,
        Err(e) => {
            let _ = write!(out, "{e} {e:?} {:?}", std::io::Error::from(e));
            return (0, Some(e));
        }
    };
    let _ = write!(out, "{:?}", d.header());
    let h = d.header();
    let _ = write!(out, "{} {} {} {}", h.opcode(), h.rcode(), h.id(), h.is_response());

    fn rr(out: &mut Null, r: &uwuhi::packet::decoder::ResourceRecord<'_>) {
        let _ = write!(out, "{r} {r:?}");
        match r.as_enum() {
            Some(Ok(rec)) => {
                let _ = write!(out, "{rec} {rec:?} {}", rec.record_type());
                match rec {
                    Record::TXT(t) => {
                        let t = TxtRecords::from_txt(&t);
                        let _ = write!(out, "{t} {t:?} {:?}", t.get("key").is_some());
                        for (k, v) in t.iter() {
                            let _ = write!(out, "{k} {v:?}");
                        }
                    }
                    Record::SRV(s) => {
                        if let Ok(d) = InstanceDetails::from_srv(&s) {
                            let _ = write!(out, "{} {}", d.host(), d.port());
                        }
                    }
                    Record::PTR(p) => {
                        if let Ok(s) = Service::from_ptr(p.clone()) {
                            let _ = write!(out, "{s} {s:?}");
                        }
                        if let Ok(s) = ServiceInstance::from_ptr(p) {
                            let _ = write!(out, "{s} {s:?}");
                        }
                    }
                    _ => {}
                }
            }
            Some(Err(e)) => {
                let _ = write!(out, "{e:?}");
            }
            None => {}
        }
    }

    // straight walk
    let mut d = d;
    let mut dead = false;
    while let Some(q) = d.next() {
        match q {
            Ok(q) => {
                entries += 1;
                let _ = write!(out, "{q} {q:?}");
            }
            Err(e) => {
                first_err = first_err.or(Some(e));
                dead = true;
            }
        }
    }
    macro_rules! walk {
        ($d:expr) => {{
            let mut d = match $d {
                Ok(d) => d,
                Err(e) => return (entries, first_err.or(Some(e))),
            };
            for r in d.iter() {
                match r {
                    Ok(r) => {
                        entries += 1;
                        rr(&mut out, &r);
                    }
                    Err(e) => {
                        first_err = first_err.or(Some(e));
                        dead = true;
                    }
                }
            }
            d
        }};
    }
    let d = walk!(d.answers());
    let d = walk!(d.authority());
    let d = walk!(d.additional());
    let _ = (d, dead);

    // skipping walks
    if let Ok(Ok(d)) = MessageDecoder::new(b).map(|d| d.additional()) {
        let mut d = d;
        while let Some(r) = d.next() {
            let _ = r;
        }
    }
    if let Ok(Ok(mut d)) = MessageDecoder::new(b).map(|d| d.authority()) {
        for r in d.iter() {
            let _ = r;
        }
    }
    let _ = out;
    (entries, first_err)
}

fn c01(c: &mut Case<'_>) -> Verdict {
    let mut adv = Advertiser::new(Label::new("host"), [127, 0, 0, 1].into()).unwrap();
    adv.add_instance(
        ServiceInstance::new(Label::new("b"), Label::new("_http"), ServiceTransport::TCP),
        InstanceDetails::new("host.local".parse().unwrap(), 80),
    );
    if c.rng.chance(1, 40) {
        // Names that are chains of pointers, on a stack like that of any thread.
        let b: Box<[u8]> = gen::deep(&mut c.rng).into();
        c.note = format!("message (deep): {}", hex(&b));
        c.evals(1);
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(s, || {
                    let guard = cpu_guard();
                    let r = no_panic("decoding", || exercise(&b));
                    drop(guard);
                    r
                })
                .expect("harness: cannot spawn a thread")
                .join()
                .expect("harness: thread died")
        });
        r?;
        c.count("deep_messages", 1);
    }
    for _ in 0..32 {
        let (mut b, origin) = gen::hostile(&mut c.rng);
        if c.rng.chance(1, 40) {
            // long: more of the same behind it
            while b.len() < 2500 {
                let x = gen::soup(&mut c.rng);
                b.extend_from_slice(&x);
            }
            if c.rng.chance(1, 2) {
                b[7] = 255;
            }
        }
        b.truncate(4096);
        if c.rng.chance(1, 3) && b.len() > 2 {
            b[2] &= 0x07; // an ordinary query or response
            b[2] |= 0x80 * c.rng.below(2) as u8;
        }
        // The block on the heap ends where the message ends.
        let b: Box<[u8]> = b.into();
        c.note = format!("message ({origin:?}): {}", hex(&b));
        count_origin(c, origin);
        let n = b.len() as u64;
        // A name may take one allocation per label, a label takes two bytes on the wire; a
        // record may hold three names.
        let cap = 400 * n + (256 << 10);
        let total = 100 * n * n + (32 << 20);
        let lines = rendered();
        let (r, used) = metered(cap, total, || {
            no_panic("decoding", || exercise(&b)).map(|r| {
                let mut ips: Vec<IpAddr> = vec![];
                let a = no_panic("resolver::decode_answer", || {
                    uwuhi::resolver::decode_answer(&b, &mut ips).is_ok()
                });
                let mut k = 0u64;
                let s = no_panic("discovery::decode_answer", || {
                    uwuhi::service::discovery::decode_answer(&b, &mut |rec| {
                        let mut out = Null(0);
                        let _ = write!(out, "{rec}");
                        k += 1;
                        if k > 40 {
                            ControlFlow::Break(())
                        } else {
                            ControlFlow::Continue(())
                        }
                    })
                    .is_ok()
                });
                (r, a, s)
            })
        });
        let (r, a, s) = r?;
        a?;
        s?;
        let (reply, used2) = metered(cap, total, || {
            no_panic("Advertiser::handle_packet", || {
                adv.handle_packet(&b).map(|r| r.map(<[u8]>::len))
            })
        });
        if let Ok(Some(l)) = reply? {
            c.count("advertiser_replies", 1);
            ensure!(l <= uwuhi::MDNS_BUFFER_SIZE, "reply of {l} bytes");
        }
        let (entries, err) = r;
        c.count("entries_decoded", entries);
        c.count("log_lines_rendered", rendered() - lines);
        c.max("alloc_peak_bytes", used.peak.max(used2.peak));
        c.max("alloc_total_bytes", used.total);
        c.max("allocations", used.count);
        c.max("message_len", n);
        if let Some(e) = err {
            c.count(&format!("err_{e:?}"), 1);
        }
        if let Ok(p) = refdns::parse(&b) {
            c.count("pointers_followed", p.pointers as u64);
        }
        if entries > 0 || (err.is_some() && b.len() >= 12) {
            c.nontrivial(hash_bytes(&b), || {
                format!("{origin:?} {} -> {entries} entries, error {err:?}", hex(&b))
            });
        }
        c.evals(1);
    }
    Ok(())
}

fn c02(c: &mut Case<'_>) -> Verdict {
    for _ in 0..24 {
        let (b, origin) = if c.rng.chance(1, 300) {
            c.count("long_messages", 1);
            (gen::long_valid(&mut c.rng), gen::Origin::Valid)
        } else if c.rng.chance(1, 200) {
            c.count("linked_names", 1);
            (gen::linked(&mut c.rng), gen::Origin::Valid)
        } else {
            gen::hostile(&mut c.rng)
        };
        let b: Box<[u8]> = b.into();
        c.note = format!("message ({origin:?}): {}", hex(&b));
        c.evals(1);
        count_origin(c, origin);
        let p = match refdns::parse(&b) {
            Ok(p) => p,
            Err(_) => {
                let r = no_panic("MessageDecoder::new", || MessageDecoder::new(&b).err())?;
                ensure!(
                    r == Some(Error::Eof),
                    "a message of {} bytes has no header, got {r:?}",
                    b.len()
                );
                c.count("no_header", 1);
                continue;
            }
        };
        if p.long_name {
            // RFC 1035 forbids these; accepting and rejecting them are both defensible.
            c.count("skipped_name_over_255_octets", 1);
            continue;
        }
        let got = no_panic("decoding", || sut::decode(&b))?;
        let got = match got {
            Ok(g) => g,
            Err(e) => return Err(format!("header of {} byte message rejected: {e:?}", b.len()).into()),
        };
        let want = sut::expected(&p);
        compare(&got, &want)?;
        let hd = MessageDecoder::new(&b).unwrap();
        let h = hd.header();
        ensure!(
            h.id() == p.hdr.id
                && h.question_count() == p.hdr.counts[0]
                && h.answer_count() == p.hdr.counts[1]
                && h.authoritative_count() == p.hdr.counts[2]
                && h.additional_count() == p.hdr.counts[3]
                && h.is_response() == (p.hdr.flags & refdns::QR != 0),
            "header read as {h:?}, is {:?}",
            p.hdr
        );
        c.count("messages_compared", 1);
        c.count("entries_compared", p.items.len() as u64);
        c.count("pointers_followed", p.pointers as u64);
        c.count("overlapping_names", p.overlap as u64);
        if let Some((_, e)) = p.error() {
            c.count(&format!("err_{:?}", sut::err(e)), 1);
        }
        if !p.items.is_empty() {
            c.nontrivial(hash_bytes(&b), || format!("{origin:?} {} -> {want:?}", hex(&b)));
        }
    }
    Ok(())
}

pub fn compare(got: &[DItem], want: &[DItem]) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return Err(format!(
                "entry {i} decoded as {:?}, is {:?}",
                got.get(i),
                want.get(i)
            ));
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C03

fn c03(c: &mut Case<'_>) -> Verdict {
    for _ in 0..8 {
        let (b, _) = match c.rng.below(3) {
            0 => gen::hostile(&mut c.rng),
            _ => {
                let (b, marks, rdlens) = gen::valid_bytes(&mut c.rng);
                if c.rng.chance(1, 3) {
                    (gen::mutate(&mut c.rng, b, &marks, &rdlens), Origin::Mutated)
                } else {
                    (b, Origin::Valid)
                }
            }
        };
        c.note = format!("message: {}", hex(&b));
        let Ok(straight) = no_panic("decoding", || sut::decode(&b))? else {
            continue;
        };
        let secs: std::collections::BTreeSet<usize> = straight
            .iter()
            .map(|i| match i {
                DItem::Q { .. } => 0,
                DItem::R { sec, .. } | DItem::E { sec, .. } => *sec,
            })
            .collect();
        if secs.len() >= 2 {
            c.count("multi_section", 1);
            c.nontrivial(hash_bytes(&b), || format!("{} sections {secs:?}", hex(&b)));
        }
        let per = |s: usize| -> Vec<DItem> {
            straight
                .iter()
                .filter(|i| match i {
                    DItem::Q { .. } => s == 0,
                    DItem::R { sec, .. } => *sec == s,
                    DItem::E { .. } => false,
                })
                .cloned()
                .collect()
        };
        // Where the error sits: `sut::decode` reports it for the section in which it was met.
        let error = straight.iter().find_map(|i| match i {
            DItem::E { sec, err } => Some((*sec, *err)),
            _ => None,
        });
        let want: Vec<Vec<DItem>> = (0..4).map(per).collect();
        for _ in 0..6 {
            c.evals(1);
            c.count("schedules", 1);
            schedule(c, &b, &want, error)?;
        }
    }
    Ok(())
}

/// One random traversal. In each section either everything, a prefix (by `next` and/or `iter`), or
/// nothing is read before moving on, possibly over several sections at once.
fn schedule(
    c: &mut Case<'_>,
    b: &[u8],
    want: &[Vec<DItem>],
    error: Option<(usize, Error)>,
) -> Result<(), String> {
    let rng = &mut c.rng.clone();
    c.rng.u64();
    let mut skips = 0;
    let mut post = 0;
    let mut jumps = 0;

    // Reads `k` entries of section `sec` and checks them; returns whether the error was met.
    macro_rules! read {
        ($d:ident, $sec:expr, $conv:expr) => {{
            let want = &want[$sec];
            let k = match rng.below(4) {
                0 => 0,
                1 => want.len() + 2,
                _ => rng.below(want.len() + 2),
            };
            let mut met = false;
            let mut i = 0;
            let by_next = rng.below(k + 1);
            macro_rules! take {
                ($item:expr) => {{
                    match $item {
                        None => {
                            let err_here = error.is_some_and(|(s, _)| s == $sec);
                            if !met && (i < want.len() || err_here) {
                                return Err(format!(
                                    "section {} ended after {i} entries, has {} (error: {error:?})",
                                    $sec,
                                    want.len()
                                ));
                            }
                            if met {
                                post += 1;
                            }
                        }
                        Some(Ok(r)) => {
                            let got = $conv(&r);
                            if met {
                                return Err(format!("entry after an error: {got:?}"));
                            }
                            if want.get(i) != Some(&got) {
                                return Err(format!(
                                    "section {} entry {i} is {:?}, this traversal read {got:?}",
                                    $sec,
                                    want.get(i)
                                ));
                            }
                            i += 1;
                        }
                        Some(Err(e)) => {
                            if met || i != want.len() || error != Some(($sec, e)) {
                                return Err(format!(
                                    "section {} entry {i}: error {e:?}, straight traversal: {error:?}",
                                    $sec
                                ));
                            }
                            met = true;
                        }
                    }
                }};
            }
            for _ in 0..by_next {
                take!($d.next());
            }
            let mut it = $d.iter();
            for _ in by_next..k {
                let left = want.len().saturating_sub(i)
                    + usize::from(!met && error.is_some_and(|(s, _)| s == $sec));
                let (lo, hi) = it.size_hint();
                if lo > left || hi.is_some_and(|h| h < left) {
                    return Err(format!(
                        "section {} promises {:?} more entries, has {left}",
                        $sec,
                        (lo, hi)
                    ));
                }
                if !met && rng.below(4) == 0 && i < want.len() {
                    // jump, as `skip` and `step_by` do
                    let j = rng.below(want.len() - i) + 1;
                    jumps += 1;
                    i += j;
                    take!(it.nth(j));
                } else {
                    take!(it.next());
                }
            }
            if k > i {
                take!($d.next());
                take!($d.next());
            } else {
                skips += want.len() - i;
            }
            met
        }};
    }
    // After moving on from `from` (not having met the error) to `to`.
    macro_rules! moved {
        ($r:expr, $from:expr, $to:expr, $met:expr) => {{
            let skipped_error =
                error.filter(|(s, _)| !$met && *s >= $from && *s < $to);
            match ($r, skipped_error) {
                (Ok(d), None) => d,
                (Err(e), Some((_, e2))) if e == e2 => return Ok::<_, String>((skips, post, jumps)),
                (Ok(_), Some(e)) => {
                    return Err(format!("skipped over a malformed entry ({e:?}) without an error"))
                }
                (Err(e), x) => {
                    return Err(format!(
                        "moving from section {} to {} failed with {e:?}, expected {x:?}",
                        $from, $to
                    ))
                }
            }
        }};
    }

    let mut walk = || -> Result<(usize, usize, usize), String> {
        let mut d = MessageDecoder::new(b).map_err(|e| format!("{e:?}"))?;
        let met0 = read!(d, 0, sut::ditem_q);
        let r = |s: usize| move |r: &uwuhi::packet::decoder::ResourceRecord<'_>| sut::ditem_r(s, r);
        // After an error was reported, nothing more may be read from the message at all.
        macro_rules! dead_end {
            ($d:expr) => {{
                if let Ok(mut d) = $d {
                    if d.iter().any(|r| r.is_ok()) {
                        return Err("entries were read behind a malformed one".to_string());
                    }
                    post += 1;
                }
                return Ok((skips, post, jumps));
            }};
        }
        match rng.below(4) {
            0 => {
                if met0 {
                    dead_end!(d.additional());
                }
                let mut d = moved!(d.additional(), 0, 3, false);
                read!(d, 3, r(3));
                return Ok((skips, post, jumps));
            }
            1 => {
                if met0 {
                    dead_end!(d.authority());
                }
                let mut d = moved!(d.authority(), 0, 2, false);
                let met = read!(d, 2, r(2));
                if met {
                    dead_end!(d.additional());
                }
                let mut d = moved!(d.additional(), 2, 3, met);
                read!(d, 3, r(3));
                return Ok((skips, post, jumps));
            }
            _ => {}
        }
        if met0 {
            dead_end!(d.answers());
        }
        let mut d = moved!(d.answers(), 0, 1, false);
        let met1 = read!(d, 1, r(1));
        if rng.chance(1, 3) {
            if met1 {
                dead_end!(d.additional());
            }
            let mut d = moved!(d.additional(), 1, 3, false);
            read!(d, 3, r(3));
            return Ok((skips, post, jumps));
        }
        if met1 {
            dead_end!(d.authority());
        }
        let mut d = moved!(d.authority(), 1, 2, false);
        let met2 = read!(d, 2, r(2));
        if met2 {
            dead_end!(d.additional());
        }
        let mut d = moved!(d.additional(), 2, 3, false);
        read!(d, 3, r(3));
        Ok((skips, post, jumps))
    };
    let (skips, post, jumps) = no_panic("traversal", &mut walk)??;
    c.count("skips", skips as u64);
    c.count("post_error_reads", post as u64);
    c.count("jumps", jumps as u64);
    Ok(())
}

// --------------------------------------------------------------------------------------------- C04

/// A message the library can encode.
pub fn encodable(c: &mut Case<'_>, max: usize) -> Msg {
    let r = &mut c.rng;
    let mut pool = vec![];
    let mut m = Msg {
        id: r.u16_edge(),
        flags: if r.chance(1, 2) { r.u16() } else { *r.pick(&[0, refdns::QR | refdns::AA, refdns::RD]) },
        ..Msg::default()
    };
    for _ in 0..r.below(max + 1) {
        m.q.push(gen::question(r, &mut pool));
    }
    for s in 0..3 {
        for _ in 0..r.below(max + 1) {
            m.sec[s].push(Rr {
                name: gen::pooled_name(r, &mut pool),
                class: gen::class(r),
                flush: r.chance(1, 4),
                ttl: r.u32_edge(),
                data: gen::typed_data(r, &mut pool),
            });
        }
    }
    m
}

/// Fills a section with more entries than fit a byte (or, rarely, as many as a section can have).
fn crowd(r: &mut Rng, m: &mut Msg) {
    let sec = r.below(4);
    let n = match r.below(12) {
        0..=6 => *r.pick(&[255usize, 256, 257, 300, 511, 512, 513]),
        7..=10 => r.range(256, 5000),
        _ => *r.pick(&[32767usize, 32768, 65535]),
    };
    if sec == 0 {
        m.q.truncate(2);
        while m.q.len() < n {
            let i = m.q.len() as u16;
            m.q.push(refdns::Q { name: vec![], ty: i, class: i & 0x7fff, qu: i % 3 == 0 });
        }
    } else {
        let s = &mut m.sec[sec - 1];
        s.truncate(2);
        while s.len() < n {
            let i = s.len() as u32;
            s.push(Rr { name: vec![], class: 1, flush: false, ttl: i, data: Data::A(i.to_be_bytes()) });
        }
    }
}

fn strip_rdata(v: &[DItem]) -> Vec<DItem> {
    // The encoder may choose how to compress names in RDATA; what counts is what is read back.
    v.iter()
        .cloned()
        .map(|i| match i {
            DItem::R {
                sec,
                name,
                ty,
                class,
                flush,
                ttl,
                typed,
                ..
            } => DItem::R {
                sec,
                name,
                ty,
                class,
                flush,
                ttl,
                rdata: vec![],
                typed,
            },
            i => i,
        })
        .collect()
}

fn c04(c: &mut Case<'_>) -> Verdict {
    let max = *c.rng.pick(&[1, 2, 3, 6]);
    let mut m = encodable(c, max);
    if c.rng.chance(1, 100) {
        crowd(&mut c.rng, &mut m);
        c.count("crowded_sections", 1);
    }
    c.note = format!("{m:?}");
    let full = refdns::write_plain(&m).len();
    let slack = *c.rng.pick(&[0usize, 1, 7, 600]);
    let fill = c.rng.u8();
    let drop_it = c.rng.chance(1, 6);
    let mut buf = vec![fill; full + slack];
    let r = no_panic("encoding", || sut::encode(&m, &mut buf, drop_it))?;
    let n = match r {
        Some(Ok(n)) => n,
        Some(Err(e)) => {
            return Err(format!("message of {full} bytes does not fit {} bytes: {e:?}", full + slack).into())
        }
        None => {
            c.count("dropped_without_finish", 1);
            // length only known to the reader
            refdns::parse(&buf).map_or(0, |p| p.end)
        }
    };
    ensure!(n <= buf.len(), "{n} bytes written to a buffer of {}", buf.len());
    let out = &buf[..n];
    let p = refdns::parse(out).map_err(|_| "encoded message has no header".to_string())?;
    let want = sut::items_of(&m);
    compare(&strip_rdata(&sut::expected(&p)), &strip_rdata(&want))
        .map_err(|e| format!("encoded message, read by the reference reader: {e}; {}", hex(out)))?;
    ensure!(
        p.end == n,
        "{n} bytes reported, the message ends at {}",
        p.end
    );
    ensure!(
        buf[n..].iter().all(|&b| b == fill),
        "bytes behind the reported end were modified"
    );
    ensure!(
        p.hdr.id == m.id && p.hdr.flags == m.flags & !refdns::TC,
        "header id {:#x} flags {:#x}, set were {:#x} {:#x}",
        p.hdr.id,
        p.hdr.flags,
        m.id,
        m.flags
    );
    let counts = [m.q.len(), m.sec[0].len(), m.sec[1].len(), m.sec[2].len()];
    ensure!(
        p.hdr.counts.map(usize::from) == counts,
        "header counts {:?}, entries {counts:?}",
        p.hdr.counts
    );
    let back = no_panic("decoding", || sut::decode(out))?
        .map_err(|e| format!("own message rejected: {e:?}"))?;
    compare(&strip_rdata(&back), &strip_rdata(&want))
        .map_err(|e| format!("encoded message, read back by the library: {e}; {}", hex(out)))?;
    c.count("questions", m.q.len() as u64);
    c.count("entries", want.len() as u64);
    c.count("typed_records", (want.len() - m.q.len()) as u64);
    c.count(
        "names_over_200_octets",
        m.q.iter().filter(|q| refdns::name_wire_len(&q.name) > 200).count() as u64
            + m.sec.iter().flatten().filter(|r| refdns::name_wire_len(&r.name) > 200).count() as u64,
    );
    if !want.is_empty() {
        c.nontrivial(hash_bytes(out), || hex(out));
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C05

fn c05(c: &mut Case<'_>) -> Verdict {
    let m = encodable(c, 2);
    let mut big = vec![0u8; refdns::write_plain(&m).len() + 16];
    c.note = format!("{m:?}");
    let full = match no_panic("encoding", || sut::encode(&m, &mut big, false))? {
        Some(Ok(n)) => n,
        e => return Err(format!("message does not fit its own size: {e:?}").into()),
    };
    let p = refdns::parse(&big[..full]).map_err(|_| "no header".to_string())?;
    if p.error().is_some() {
        return Err(format!("message not readable: {:?}", p.error()).into());
    }
    let ends: Vec<usize> = p
        .items
        .iter()
        .map(|i| match i {
            Item::Q { end, .. } | Item::R { end, .. } => *end,
            Item::E { .. } => unreachable!(),
        })
        .collect();
    let all = sut::items_of(&m);
    let step = if full > 1200 { 3 } else { 1 };
    for size in (0..full + 5).step_by(step) {
        c.evals(1);
        c.note = format!("buffer of {size} bytes (message needs {full}): {m:?}");
        let mut arena = vec![0xa5u8; size + 32];
        let buf = &mut arena[16..16 + size];
        if size < 12 {
            c.count("sizes_too_small_for_header", 1);
            let ok = panics(|| {
                let _e = MessageEncoder::new(buf);
            });
            ensure!(ok, "MessageEncoder::new accepted a buffer of {size} bytes");
        } else {
            let drop_it = c.rng.chance(1, 8);
            let r = no_panic("encoding", || sut::encode(&m, buf, drop_it))?;
            let n = if size < full {
                c.count("truncated_sizes", 1);
                ensure!(
                    matches!(r, None | Some(Err(Error::Truncated))),
                    "finish returned {r:?}, but the message of {full} bytes cannot fit"
                );
                size
            } else {
                if size == full {
                    c.count("exact_fit", 1);
                }
                ensure!(
                    matches!(r, None | Some(Ok(_))),
                    "finish returned {r:?} although the message fits"
                );
                if let Some(Ok(n)) = r {
                    ensure!(n == full, "{n} bytes reported, {full} in a larger buffer");
                }
                full
            };
            let k = ends.iter().filter(|&&e| e <= size).count();
            let out = &arena[16..16 + n];
            let p = refdns::parse(out).map_err(|_| "no header".to_string())?;
            ensure!(
                (p.hdr.flags & refdns::TC != 0) == (size < full),
                "truncation flag is {}, buffer {size}, message {full}",
                p.hdr.flags & refdns::TC != 0
            );
            ensure!(
                p.hdr.flags | refdns::TC == m.flags | refdns::TC && p.hdr.id == m.id,
                "header of the truncated message changed"
            );
            compare(&strip_rdata(&sut::expected(&p)), &strip_rdata(&all[..k])).map_err(|e| {
                format!("the buffer holds {k} whole entries; reading the (truncated) message: {e}; {}", hex(out))
            })?;
            let back = no_panic("decoding", || sut::decode(out))?
                .map_err(|e| format!("own message rejected: {e:?}"))?;
            compare(&strip_rdata(&back), &strip_rdata(&all[..k])).map_err(|e| {
                format!("the library reading its own truncated message: {e}; {}", hex(out))
            })?;
            if size < full {
                c.count("whole_entries_in_truncated", k as u64);
            }
        }
        ensure!(
            arena[..16].iter().chain(&arena[16 + size..]).all(|&b| b == 0xa5),
            "bytes outside of the buffer were written"
        );
    }
    if all.len() >= 2 {
        c.nontrivial(hash_bytes(&big[..full]), || {
            format!("{} entries, every buffer size up to {}", all.len(), full + 4)
        });
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C06

fn c06(c: &mut Case<'_>) -> Verdict {
    let mut pool = vec![];
    for _ in 0..3 {
        gen::pooled_name(&mut c.rng, &mut pool);
    }
    let mut seen = [false; 9];
    let mut todo = vec![];
    while todo.len() < 9 {
        let d = gen::data(&mut c.rng, &mut pool);
        if let Some(i) = refdns::ty::TYPED.iter().position(|&t| t == d.ty()) {
            if !seen[i] {
                seen[i] = true;
                todo.push(d);
            }
        }
    }
    todo.push(gen::raw_data(&mut c.rng));
    for d in todo {
        c.evals(1);
        let owner = c.rng.pick(&pool).clone();
        let compress = *c.rng.pick(&[0usize, 8, 16]);
        let before = gen::rr(&mut c.rng, &mut pool);
        let (class, flush, ttl) = (gen::class(&mut c.rng), c.rng.chance(1, 4), c.rng.u32_edge());
        let sec = c.rng.below(3);
        let mut rng = c.rng.clone();
        c.rng.u64();
        let mut w = W::compressing(&mut rng, compress);
        let mut m = Msg {
            flags: refdns::QR,
            ..Msg::default()
        };
        m.sec[0].push(before);
        m.sec[sec].push(Rr {
            name: owner,
            class,
            flush,
            ttl,
            data: d.clone(),
        });
        w.msg(&m);
        let (bytes, at) = (w.out, *w.rdlens.last().unwrap());
        let len = bytes.len() - at - 2;
        c.note = format!("{d:?} in {}", hex(&bytes));
        let name = match &d {
            Data::Raw(..) => "unknown_types".to_string(),
            d => format!("type_{}", sut::ty(d.ty())),
        };
        c.count(&name, 1);
        let mut plain = W::plain();
        plain.data(&d);
        if plain.out.len() > len {
            c.count("compressed_rdata", 1);
        }
        c.nontrivial(hash_bytes(&bytes), || format!("{d:?}"));

        let last = |b: &[u8]| -> Result<DItem, String> {
            let v = no_panic("decoding", || sut::decode(b))?.map_err(|e| format!("{e:?}"))?;
            v.last().cloned().ok_or_else(|| "no entry".to_string())
        };
        // the full record
        match (last(&bytes)?, &d) {
            (DItem::R { typed: None, rdata, ty, .. }, Data::Raw(t, b)) => {
                ensure!(rdata == *b && ty == *t, "raw RDATA read as {}", hex(&rdata));
            }
            (DItem::R { typed: Some(Ok(got)), .. }, d) if !matches!(d, Data::Raw(..)) => {
                ensure!(got == *d, "decoded as {got:?}, is {d:?}");
            }
            (got, d) => return Err(format!("decoded as {got:?}, is {d:?}").into()),
        }
        // every shorter RDATA: the bytes behind it belong to the next record and must not count
        if !matches!(d, Data::Raw(..)) {
            for short in 0..len {
                c.evals(1);
                let mut b = bytes.clone();
                b[at..at + 2].copy_from_slice(&(short as u16).to_be_bytes());
                // 2 records announced, the second is followed by the cut-off bytes
                let p = refdns::parse(&b).map_err(|_| "harness".to_string())?;
                let Some(Item::R { typed: Some(want), .. }) = p.items.last() else {
                    continue;
                };
                c.note = format!("{d:?} cut to {short} of {len} RDATA bytes in {}", hex(&b));
                match (last(&b)?, want) {
                    (DItem::R { typed: Some(Err(_)), .. }, Err(RefErr::Eof)) => {
                        c.count("short_rdata_rejected", 1);
                    }
                    (DItem::R { typed: Some(Ok(got)), .. }, Ok(want)) if got == *want => {
                        c.count(
                            if matches!(d, Data::TXT(_)) {
                                "short_rdata_txt_accepted"
                            } else {
                                "short_rdata_other_accepted"
                            },
                            1,
                        );
                    }
                    (got, want) => {
                        return Err(format!("decoded as {got:?}, reference: {want:?}").into())
                    }
                }
            }
            // re-encode (TXT without entries cannot be built)
            if !matches!(&d, Data::TXT(e) if e.is_empty()) {
                let m = Msg {
                    sec: [
                        vec![Rr {
                            name: vec![],
                            class: 1,
                            flush: false,
                            ttl: 0,
                            data: d.clone(),
                        }],
                        vec![],
                        vec![],
                    ],
                    ..Msg::default()
                };
                let mut buf = vec![0; 2048 + plain.out.len()];
                let r = no_panic("encoding", || sut::encode(&m, &mut buf, false))?;
                let Some(Ok(n)) = r else {
                    return Err(format!("encoding failed: {r:?}").into());
                };
                let p = refdns::parse(&buf[..n]).map_err(|_| "no header".to_string())?;
                match p.items.first() {
                    Some(Item::R { ty, typed: Some(Ok(got)), .. }) => {
                        ensure!(got == &d && *ty == d.ty(), "encoded as {got:?}, is {d:?}");
                    }
                    x => return Err(format!("encoded as {x:?}, is {d:?}").into()),
                }
            }
        }
    }
    Ok(())
}
