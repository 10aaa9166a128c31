//! C26: what happens to one object does not depend on what others are doing: on other threads, in
//! between on the same thread, inside callbacks, or before them, up to a panic.

use crate::ensure;
use crate::gen;
use crate::mon::{self, hex, no_panic, panics, Case, Prop, Verdict};
#[cfg(feature = "net")]
use crate::mon::Fail;
#[cfg(feature = "net")]
use crate::net;
use crate::props::advertiser::{self, Reg};
use crate::props::codec;
#[cfg(feature = "net")]
use crate::props::{
    discovery::{self, Disc},
    resolver::{How, Resolver},
    soak,
};
use crate::refdns::{self, Data, Msg, Name};
use crate::rng::{hash_bytes, Rng};
use crate::sut;
use std::fmt::Write;
use std::ops::ControlFlow;
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::encoder::{self, MessageEncoder};
use uwuhi::packet::records::{Record, PTR, TXT};
use uwuhi::service::{Service, ServiceInstance, TxtRecords};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "case = 8 jobs (decoding, encoding, names, identities and TXT, decode_answer, an advertiser with its packets), each run alone first; then run nested in each other's steps, on 4 threads at once, with advertisers handed from thread to thread, and after panics, with the same results; or (one case in 16) 2-6 clients of a server on threads of their own, with loads and resolutions inside the callbacks of discoveries, and with callbacks that panic; non-trivial = every case",
        quick: 5_000,
        thorough: 150_000,
        threads: 4,
        run: c26,
        required: &["jobs", "nested_runs", "concurrent_runs", "handed_over", "panics", "concurrent_clients", "nested_operations", "panicking_callbacks"],
    }]
}

// --------------------------------------------------------------------------- without I/O

enum Job {
    Decode(Vec<u8>),
    Encode(Msg, usize),
    Names(Vec<Name>),
    Txt(Vec<Vec<u8>>),
    Answer(Vec<u8>),
    Advertise(Vec<Reg>, Vec<Vec<u8>>),
}

fn job(c: &mut Case<'_>) -> Job {
    match c.rng.below(6) {
        0 => Job::Decode(gen::hostile(&mut c.rng).0),
        1 => {
            let m = codec::encodable(c, 4);
            let n = *c.rng.pick(&[100usize, 512, 1500, 9000]);
            Job::Encode(m, n)
        }
        2 => {
            let n = c.rng.range(2, 8);
            Job::Names((0..n).map(|_| gen::name(&mut c.rng)).collect())
        }
        3 => {
            let mut v = gen::txt_entries(&mut c.rng);
            v.push(b"last=1".to_vec());
            Job::Txt(v)
        }
        4 => {
            let mut b = gen::hostile(&mut c.rng).0;
            if b.len() > 2 {
                b[2] |= 0x80;
            }
            Job::Answer(b)
        }
        _ => {
            let regs = advertiser::random_regs(&mut c.rng);
            let recs = advertiser::records(&regs);
            let n = c.rng.range(2, 8);
            let packets = (0..n)
                .map(|_| {
                    if c.rng.chance(1, 4) {
                        return gen::hostile(&mut c.rng).0;
                    }
                    let mut qs = vec![];
                    for _ in 0..c.rng.range(1, 3) {
                        qs.push(advertiser::random_question(&mut c.rng, &recs).0);
                    }
                    let id = c.rng.u16();
                    advertiser::query_bytes(&mut c.rng, id, 0, &qs, false)
                })
                .collect();
            Job::Advertise(regs, packets)
        }
    }
}

/// A reply in a form that does not depend on the order of its records.
fn canonical(b: &[u8]) -> String {
    match refdns::parse(b) {
        // which records are left out is open
        Ok(p) if p.hdr.flags & refdns::TC != 0 => format!("truncated {}", p.hdr.id),
        Ok(p) if p.error().is_none() => format!("{:?} {:?}", p.hdr, advertiser::sorted_items(&p)),
        _ => hex(b),
    }
}

fn handle(a: &mut uwuhi::service::advertising::Advertiser, p: &[u8], out: &mut String) {
    let _ = match a.handle_packet(p) {
        Ok(Some(r)) => writeln!(out, "{}", canonical(r)),
        Ok(None) => writeln!(out, "-"),
        Err(e) => writeln!(out, "{e:?}"),
    };
}

/// Does the job, calling `between` between its steps; what it led to.
fn run(j: &Job, between: &mut dyn FnMut()) -> String {
    let mut out = String::new();
    match j {
        Job::Decode(b) => {
            let r = (|| {
                let mut d = MessageDecoder::new(b)?;
                let _ = writeln!(out, "{:?}", d.header());
                for q in d.iter() {
                    between();
                    let _ = writeln!(out, "{:?}", sut::ditem_q(&q?));
                }
                let mut d = d.answers()?;
                for r in d.iter() {
                    between();
                    let r = r?;
                    let _ = writeln!(out, "{:?} {r}", sut::ditem_r(1, &r));
                }
                let mut d = d.authority()?;
                for r in d.iter() {
                    between();
                    let _ = writeln!(out, "{:?}", sut::ditem_r(2, &r?));
                }
                let mut d = d.additional()?;
                for r in d.iter() {
                    between();
                    let _ = writeln!(out, "{:?}", sut::ditem_r(3, &r?));
                }
                Ok::<_, uwuhi::Error>(())
            })();
            let _ = writeln!(out, "{r:?}");
        }
        Job::Encode(m, n) => {
            let mut buf = vec![0; *n];
            let mut e = MessageEncoder::new(&mut buf);
            e.set_header(sut::header(m.id, m.flags, [0; 4]));
            for q in &m.q {
                let name = sut::dn(&q.name);
                between();
                e.question(encoder::Question::new(&name).ty(sut::qty(q.ty)));
            }
            let mut e = e.answers();
            for r in &m.sec[0] {
                let (name, d) = (sut::dn(&r.name), sut::record(&r.data));
                between();
                e.add_answer(encoder::ResourceRecord::new(&name, &d).ttl(r.ttl));
            }
            between();
            let mut e = e.authority();
            for r in &m.sec[1] {
                let (name, d) = (sut::dn(&r.name), sut::record(&r.data));
                between();
                e.add_authority(encoder::ResourceRecord::new(&name, &d).ttl(r.ttl));
            }
            let mut e = e.additional();
            for r in &m.sec[2] {
                let (name, d) = (sut::dn(&r.name), sut::record(&r.data));
                between();
                e.add_additional(encoder::ResourceRecord::new(&name, &d).ttl(r.ttl));
            }
            let r = e.finish();
            let len = r.as_ref().copied().unwrap_or(buf.len());
            let _ = writeln!(out, "{r:?} {}", hex(&buf[..len]));
        }
        Job::Names(v) => {
            let mut ds: Vec<DomainName> = vec![];
            for n in v {
                let d = sut::dn(n);
                between();
                let s = d.to_string();
                let _ = writeln!(out, "{s} {d:?} {:?}", s.parse::<DomainName>());
                between();
                let _ = writeln!(out, "{:?} {:?}", Service::from_ptr(PTR::new(d.clone())), ServiceInstance::from_ptr(PTR::new(d.clone())));
                ds.push(d);
            }
            between();
            let eq: Vec<bool> = ds.iter().map(|d| *d == ds[0]).collect();
            let _ = writeln!(out, "{ds:?} {eq:?}");
        }
        Job::Txt(v) => {
            let t = TXT::new(v.iter().cloned());
            between();
            let t = TxtRecords::from_txt(&t);
            between();
            let mut lines = vec![];
            for (k, v) in t.iter() {
                between();
                lines.push(format!("{k} {v:?} {:?}", t.get(k)));
            }
            lines.sort();
            let _ = writeln!(out, "{lines:?}");
        }
        Job::Answer(b) => {
            let mut v = vec![];
            let r = uwuhi::resolver::decode_answer(b, &mut v);
            let _ = writeln!(out, "{r:?} {v:?}");
            let mut n = 0;
            let r = uwuhi::service::discovery::decode_answer(b, &mut |r: Record<'_>| {
                between();
                let _ = writeln!(out, "{:?}", sut::data(&r));
                n += 1;
                if n == 7 { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
            });
            let _ = writeln!(out, "{r:?}");
        }
        Job::Advertise(regs, packets) => {
            let mut a = advertiser::build(regs).expect("harness: built before");
            for p in packets {
                between();
                handle(&mut a, p, &mut out);
            }
        }
    }
    out
}

fn show(j: &Job) -> String {
    match j {
        Job::Decode(b) => format!("decoding {}", hex(b)),
        Job::Encode(m, n) => format!("encoding {m:?} into {n} bytes"),
        Job::Names(v) => format!("names {v:?}"),
        Job::Txt(v) => format!("TXT {v:?}"),
        Job::Answer(b) => format!("decode_answer {}", hex(b)),
        Job::Advertise(r, p) => format!("advertiser with {r:?}, packets {:?}", p.iter().map(|p| hex(p)).collect::<Vec<_>>()),
    }
}

fn differs(how: &str, j: &Job, alone: &str, got: &str) -> String {
    format!("{how}: {} gave {got:?}; alone it gives {alone:?}", show(j))
}

/// Runs job `i` with others nested in its steps.
fn nested(jobs: &[Job], alone: &[String], i: usize, r: &mut Rng, depth: usize, runs: &mut u64) -> Result<(), String> {
    let mut err = None;
    let got = run(&jobs[i], &mut || {
        if depth > 0 && err.is_none() && r.chance(1, 3) {
            let k = r.below(jobs.len());
            if let Err(e) = nested(jobs, alone, k, r, depth - 1, runs) {
                err = Some(e);
            }
        }
    });
    *runs += 1;
    match err {
        Some(e) => Err(e),
        None if got == alone[i] => Ok(()),
        None => Err(differs("with other jobs between its steps", &jobs[i], &alone[i], &got)),
    }
}

/// Panics that the library documents, in the middle of something.
fn documented_panics(r: &mut Rng) -> u64 {
    let mut n = 0;
    let mut p = |f: &mut dyn FnMut()| n += u64::from(panics(f));
    p(&mut || drop(Label::new([b'x'; 64])));
    p(&mut || {
        let mut small = [0; 20];
        uwuhi::resolver::encode_query(&mut small, &sut::dn(&vec![b"abc".to_vec()]));
    });
    p(&mut || drop(Service::new(Label::new("no-underscore"), uwuhi::service::ServiceTransport::TCP)));
    // A callback that panics.
    let data = Data::A([1, 2, 3, 4]);
    let m = Msg {
        flags: refdns::QR,
        sec: [vec![refdns::Rr { name: vec![], class: 1, flush: false, ttl: 1, data }], vec![], vec![]],
        ..Msg::default()
    };
    let b = refdns::write_plain(&m);
    p(&mut || {
        let _ = uwuhi::service::discovery::decode_answer(&b, &mut |_: Record<'_>| panic!("callback"));
    });
    // While a message is being written.
    let k = r.range(0, 3);
    p(&mut || {
        let mut buf = [0; 300];
        let name = sut::dn(&vec![b"abc".to_vec()]);
        let mut e = MessageEncoder::new(&mut buf);
        for _ in 0..k {
            e.question(encoder::Question::new(&name));
        }
        panic!("in the middle");
    });
    n
}

fn jobs(c: &mut Case<'_>) -> Verdict {
    let v: Vec<Job> = (0..8).map(|_| job(c)).collect();
    let mut alone = vec![];
    for j in &v {
        c.note = show(j);
        alone.push(no_panic("a job", || run(j, &mut || ()))?);
    }
    c.note = String::new();
    c.count("jobs", v.len() as u64);

    // One thread
    let mut runs = 0;
    for i in 0..v.len() {
        let r = &mut c.rng;
        no_panic("a nested job", || nested(&v, &alone, i, r, 2, &mut runs))??;
    }
    c.count("nested_runs", runs);
    if c.idx % 4 == 0 {
        let n = documented_panics(&mut c.rng);
        c.count("panics", n);
        for (j, alone) in v.iter().zip(&alone) {
            let got = no_panic("a job after a panic", || run(j, &mut || ()))?;
            ensure!(got == *alone, "{}", differs("after panics on this thread", j, alone, &got));
        }
    }

    // Several threads
    let seed = c.rng.u64();
    let (v, alone) = (&v, &alone);
    let threads = 4;
    let (mut done, mut handed) = (0, 0);
    std::thread::scope(|s| {
        let mut handles = vec![];
        for t in 0..threads {
            handles.push(s.spawn(move || {
                let _guard = mon::cpu_guard();
                let mut r = Rng::new(seed, "thread", t);
                let mut n = 0;
                for round in 0..12 {
                    let i = r.below(v.len());
                    no_panic("a job on another thread", || {
                        nested(v, alone, i, &mut r, usize::from(round % 3 == 0), &mut n)
                    })??;
                    if r.chance(1, 4) {
                        std::thread::yield_now();
                    }
                }
                Ok::<_, String>(n)
            }));
        }
        for h in handles {
            match h.join() {
                Ok(r) => done += r?,
                Err(p) => std::panic::resume_unwind(p),
            }
        }
        Ok::<_, String>(())
    })?;
    c.count("concurrent_runs", done);

    // From one thread to the next
    for (j, alone) in v.iter().zip(alone) {
        let Job::Advertise(regs, packets) = j else { continue };
        let mut a = advertiser::build(regs)?;
        let mut out = String::new();
        for p in packets.chunks(2) {
            (a, out) = std::thread::scope(|s| {
                s.spawn(move || {
                    no_panic("an advertiser on another thread", || {
                        for p in p {
                            handle(&mut a, p, &mut out);
                        }
                        (a, out)
                    })
                })
                .join()
                .expect("harness: joined")
            })?;
            handed += 1;
        }
        ensure!(out == *alone, "{}", differs("handed from thread to thread", j, alone, &out));
    }
    c.count("handed_over", handed);
    c.evals(runs + done);
    Ok(())
}

// ------------------------------------------------------------------------------- with sockets

#[cfg(feature = "net")]
mod clients {
    use super::*;
    use std::net::{IpAddr, SocketAddr};
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::time::Duration;

    const N: u32 = 4;

    fn local() -> Name {
        vec![b"local".to_vec()]
    }

    fn addresses(host: u32) -> Vec<IpAddr> {
        (0..1 + host % 3).map(|i| IpAddr::from((host * 16 + i).to_be_bytes())).collect()
    }

    /// What the server says about a name.
    pub fn answers(name: &Name) -> Vec<Vec<Data>> {
        let n = soak::number(name);
        if name[0].starts_with(b"host") {
            return vec![addresses(n)
                .into_iter()
                .map(|a| match a {
                    IpAddr::V4(a) => Data::A(a.octets()),
                    IpAddr::V6(a) => Data::AAAA(a.octets()),
                })
                .collect()];
        }
        if name[0].starts_with(b"_svc") {
            // in several packets
            return (0..N)
                .map(|i| vec![Data::PTR(discovery::join(&[format!("inst-{}", n * N + i).as_bytes()], name))])
                .collect();
        }
        if name[0].starts_with(b"inst") {
            return vec![
                vec![Data::TXT(vec![format!("n={n}").into_bytes()])],
                vec![Data::SRV(0, 0, n as u16, vec![format!("host-{n}").into_bytes(), b"local".to_vec()])],
            ];
        }
        if name[0] == b"_services" {
            return (0..N)
                .map(|i| vec![Data::PTR(discovery::join(&[format!("_type-{i}").as_bytes(), b"_udp"], &local()))])
                .collect();
        }
        vec![]
    }

    struct Trio {
        d: Disc,
        d2: Disc,
        r: Resolver,
    }

    fn trio(kinds: [bool; 3], server: SocketAddr) -> std::io::Result<Trio> {
        let mut t = Trio {
            d: Disc::new(kinds[0], server, &local())?,
            d2: Disc::new(kinds[1], server, &local())?,
            r: Resolver::new(kinds[2], server)?,
        };
        t.d.timeouts(discovery::NO_RETRANSMIT, discovery::LONG);
        t.d2.timeouts(discovery::NO_RETRANSMIT, discovery::LONG);
        t.r.set_timeout(Duration::from_secs(20));
        Ok(t)
    }

    fn resolve(r: &mut Resolver, host: u32) -> Result<(), String> {
        let got = r.resolve(&How::Str(format!("host-{host}.local")));
        match &got {
            Ok(v) if *v == addresses(host) => Ok(()),
            g => Err(format!("host-{host} resolved to {g:?}, the server says {:?}", addresses(host))),
        }
    }

    fn load(d: &mut Disc, r: &mut Resolver, i: &ServiceInstance) -> Result<(), String> {
        let n = soak::number(&vec![i.instance_name().as_bytes().to_vec()]);
        let got = d.details(i).map(|x| discovery::loaded(&x));
        let want = (
            vec![format!("host-{n}").into_bytes(), b"local".to_vec()],
            n as u16,
            vec![("n".to_string(), Some(n.to_string().into_bytes()))],
        );
        match &got {
            Ok(g) if *g == want => {}
            g => return Err(format!("loading inst-{n} gave {g:?}, the server says {want:?}")),
        }
        resolve(r, n)
    }

    /// All instances of a service; what the callback does with each.
    fn discover(
        d: &mut Disc,
        svc: u32,
        mut each: impl FnMut(&ServiceInstance) -> Result<(), String> + Send,
    ) -> Result<(), String> {
        let s = Service::new(Label::new(format!("_svc-{svc}")), discovery::transport(true));
        let mut got = vec![];
        let mut err = None;
        let cb = |i: &ServiceInstance| {
            got.push(soak::number(&vec![i.instance_name().as_bytes().to_vec()]));
            if let Err(e) = each(i) {
                err = Some(e);
                return ControlFlow::Break(());
            }
            if got.len() == N as usize { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
        };
        let r = match d {
            Disc::Sync(d) => d.discover_instances(&s, cb),
            Disc::Async(d) => futures_lite::future::block_on(d.discover_instances(&s, cb)),
        };
        if let Some(e) = err {
            return Err(e);
        }
        r.map_err(|e| format!("discovery of _svc-{svc} failed: {e}"))?;
        let want: Vec<u32> = (0..N).map(|i| svc * N + i).collect();
        if got != want {
            return Err(format!("discovery of _svc-{svc} found instances {got:?}, the server has {want:?}"));
        }
        Ok(())
    }

    /// All service types.
    fn types(d: &mut Disc, mut each: impl FnMut() -> Result<(), String> + Send) -> Result<(), String> {
        let mut got = vec![];
        let mut err = None;
        let cb = |s: &Service| {
            got.push(soak::number(&vec![s.name().as_bytes().to_vec()]));
            if let Err(e) = each() {
                err = Some(e);
                return ControlFlow::Break(());
            }
            if got.len() == N as usize { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
        };
        let r = match d {
            Disc::Sync(d) => d.discover_service_types(cb),
            Disc::Async(d) => futures_lite::future::block_on(d.discover_service_types(cb)),
        };
        if let Some(e) = err {
            return Err(e);
        }
        r.map_err(|e| format!("discovery of service types failed: {e}"))?;
        let want: Vec<u32> = (0..N).collect();
        if got != want {
            return Err(format!("discovery of service types found {got:?}, the server has {want:?}"));
        }
        Ok(())
    }

    struct Quiet;

    /// What one thread does.
    fn script(mut r: Rng, kinds: [bool; 3], server: SocketAddr) -> Result<(u64, u64), String> {
        let e = |e: std::io::Error| format!("client cannot be created: {e}");
        let mut t = trio(kinds, server).map_err(e)?;
        let (mut nested, mut panicked) = (0, 0);
        for _ in 0..r.range(2, 5) {
            let svc = r.below(500) as u32;
            match r.below(6) {
                0 => resolve(&mut t.r, svc)?,
                1 => discover(&mut t.d, svc, |_| Ok(()))?,
                2 => {
                    let i = ServiceInstance::new(
                        Label::new(format!("inst-{svc}")),
                        Label::new("_svc-0"),
                        discovery::transport(true),
                    );
                    load(&mut t.d2, &mut t.r, &i)?;
                }
                3 => {
                    // The program learns all about an instance as soon as it hears of it.
                    let Trio { d, d2, r } = &mut t;
                    discover(d, svc, |i| {
                        nested += 1;
                        load(d2, r, i)
                    })?;
                }
                4 => {
                    // What service types there are, and something else while they come in.
                    let mut t2 = trio(kinds, server).map_err(e)?;
                    let Trio { d, .. } = &mut t2;
                    let Trio { d2, r, .. } = &mut t;
                    let mut n = 0;
                    types(d, || {
                        n += 1;
                        nested += 1;
                        match (svc + n) % 3 {
                            0 => Ok(()),
                            1 => resolve(r, svc + n),
                            _ => {
                                let i = ServiceInstance::new(
                                    Label::new(format!("inst-{n}")),
                                    Label::new("_svc-0"),
                                    discovery::transport(true),
                                );
                                load(d2, r, &i)
                            }
                        }
                    })?;
                }
                _ => {
                    // Again and again, sometimes
                    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 12, 40]) {
                        let k = r.below(N as usize);
                        let of_types = r.chance(1, 2);
                        let mut n = 0;
                        let mut d = trio(kinds, server).map_err(e)?.d;
                        let mut each = || {
                            n += 1;
                            if n > k {
                                std::panic::resume_unwind(Box::new(Quiet));
                            }
                            Ok(())
                        };
                        let x = catch_unwind(AssertUnwindSafe(|| {
                            if of_types {
                                types(&mut d, each)
                            } else {
                                discover(&mut d, svc, |_| each())
                            }
                        }));
                        match x {
                            Ok(r) => return Err(format!("the panic of a callback was lost: {r:?}")),
                            Err(p) if p.is::<Quiet>() => {}
                            Err(p) => std::panic::resume_unwind(p),
                        }
                        panicked += 1;
                    }
                    // The others are as they were, and so is a new one.
                    resolve(&mut t.r, svc)?;
                    discover(&mut trio(kinds, server).map_err(e)?.d, svc, |_| Ok(()))?;
                    types(&mut trio(kinds, server).map_err(e)?.d, || Ok(()))?;
                }
            }
        }
        Ok((nested, panicked))
    }

    pub fn go(c: &mut Case<'_>) -> Verdict {
        net::pin();
        let server = net::udp(false);
        let addr = server.local_addr().unwrap();
        let n = c.rng.range(2, 6);
        c.note = format!("{n} threads with clients");
        let mut calls: Vec<_> = (0..n)
            .map(|i| {
                let r = Rng::new(c.rng.u64(), "client", i as u64);
                let kinds = [c.rng.chance(1, 2), c.rng.chance(1, 2), c.rng.chance(1, 2)];
                net::call("a client", move || script(r, kinds, addr))
            })
            .collect();
        let t = std::time::Instant::now();
        let mut queries = 0;
        while calls.iter_mut().any(|c| !c.finished()) && t.elapsed() < net::HANG {
            let mut b = [0; 2000];
            let Ok((len, from)) = net::recv(&server, &mut b) else { continue };
            queries += 1;
            let p = refdns::parse(&b[..len]).map_err(|_| Fail::Violation(format!("query without header: {}", hex(&b[..len]))))?;
            let Some(refdns::Item::Q { name, .. }) = p.items.first() else {
                return Err(format!("query without question: {}", hex(&b[..len])).into());
            };
            for data in answers(name) {
                net::send(&server, &soak::plain_response(p.hdr.id, name, data), from);
            }
        }
        for x in calls {
            let (nested, panicked) = x.wait()??;
            c.count("nested_operations", nested);
            c.count("panicking_callbacks", panicked);
        }
        c.count("concurrent_clients", n as u64);
        c.evals(queries);
        Ok(())
    }
}

fn c26(c: &mut Case<'_>) -> Verdict {
    let id = c.idx.to_be_bytes();
    #[cfg(feature = "net")]
    if c.idx % 16 == 3 {
        clients::go(c)?;
        let note = c.note.clone();
        c.nontrivial(hash_bytes(&id), || note);
        return Ok(());
    }
    jobs(c)?;
    c.nontrivial(hash_bytes(&id), || "8 jobs".into());
    Ok(())
}
