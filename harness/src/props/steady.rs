//! C27: long use of anything in the library takes a bounded amount of memory, file descriptors and
//! threads, and objects that are gone leave nothing behind.

use crate::ensure;
use crate::gen;
use crate::mon::{self, no_panic, Case, Fail, Prop, Verdict};
use crate::net;
use crate::props::{advertiser, codec};
use crate::props::discovery::{self, Disc, Seen};
use crate::props::resolver::{How, Resolver};
use crate::props::sockets::{self, Server};
use crate::props::soak;
use crate::refdns::{ty, Data, Name, Q};
use crate::sut;
use futures_lite::future::{block_on, poll_once};
use std::net::{Ipv4Addr, SocketAddr, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use uwuhi::name::{DomainName, Label};
use uwuhi::service::{Service, ServiceInstance};
use uwuhi::tap::SyncTap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        rule: "case = one of: an advertiser without I/O, the codec and the names, a resolver, a discoverer (both blocking or async), clients created, used and dropped (async operations also half-way), an advertiser with a socket (blocking or async), a tap; driven through some thousand different operations, with the memory, descriptors and threads of the process compared between a quarter of the way and the end, and after the object is gone; non-trivial = every case",
        quick: 44,
        thorough: 1_100,
        threads: 1,
        run: c27,
        required: &["rounds", "handled_packets", "decoded_messages", "sync_resolutions", "async_resolutions", "resolution_timeouts", "sync_discoveries", "async_discoveries", "discovery_timeouts", "clients_dropped", "operations_dropped", "sync_packets_served", "async_packets_served", "listens_dropped", "messages_tapped", "ports_released"],
    }]
}

/// What the process may hold more after the last three quarters of the rounds than before them.
const SLACK: i64 = 64 << 10;
/// What each further quarter of the rounds may add, at least once.
const STEADILY: i64 = 3 << 10;

fn entries(dir: &str) -> usize {
    std::fs::read_dir(dir).map_or(0, |d| d.count())
}

struct Mark {
    held: i64,
    fds: usize,
    threads: usize,
}

impl Mark {
    fn now() -> Self {
        Self {
            held: mon::held(),
            fds: entries("/proc/self/fd"),
            threads: entries("/proc/self/task"),
        }
    }

    /// Fails if there is lastingly more than there was.
    fn compare(&self, what: &str, rounds: u32, slack: i64) -> Result<(), String> {
        let t = Instant::now();
        loop {
            let now = Self::now();
            let grown = now.held - self.held;
            if grown <= slack && now.fds <= self.fds && now.threads <= self.threads {
                return Ok(());
            }
            if t.elapsed() > Duration::from_secs(3) {
                return Err(format!(
                    "{what}: {rounds} further rounds left {grown} bytes, {} file descriptors and {} threads behind",
                    now.fds as i64 - self.fds as i64,
                    now.threads as i64 - self.threads as i64
                ));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

/// What the process holds once everything on its way has arrived.
fn settled() -> i64 {
    let mut held = mon::held();
    for _ in 0..5 {
        std::thread::sleep(Duration::from_millis(2));
        held = held.min(mon::held());
    }
    held
}

/// Runs `f` `rounds` times.
///
/// Memory may not have grown by much after the first quarter, nor have grown steadily, which even a few
/// bytes per round would do.
fn steady(what: &str, rounds: u32, mut f: impl FnMut(u32) -> Result<(), String>) -> Result<(), String> {
    let quarter = rounds / 4;
    for i in 0..quarter {
        f(i)?;
    }
    // Nothing is on its way between two rounds, but threads of the harness may be about to end.
    std::thread::sleep(Duration::from_millis(5));
    let m = Mark::now();
    let mut held = [settled(); 4];
    for k in 1..4 {
        for i in quarter * k..quarter * (k + 1) {
            f(i)?;
        }
        held[k as usize] = settled();
    }
    m.compare(what, rounds - quarter, SLACK)?;
    let t = Instant::now();
    while held.windows(2).all(|w| w[1] - w[0] > STEADILY) {
        if t.elapsed() > Duration::from_secs(3) {
            return Err(format!(
                "{what}: every {quarter} further rounds left memory behind: {} bytes were held, then {}, then {}, then {}",
                held[0], held[1], held[2], held[3]
            ));
        }
        held[3] = held[3].min(settled());
    }
    Ok(())
}

fn handled(c: &mut Case<'_>) -> Verdict {
    const ROUNDS: u32 = 24_000;
    let regs = advertiser::random_regs(&mut c.rng);
    let recs = advertiser::records(&regs);
    let mut a = advertiser::build(&regs)?;
    c.note = format!("advertiser without I/O: {regs:?}");
    let r = &mut c.rng;
    steady("Advertiser::handle_packet", ROUNDS, |i| {
        let b = match i % 3 {
            0 => {
                let mut b = gen::hostile(r).0;
                if b.len() > 5 && i % 2 == 0 {
                    // A query, at least.
                    b[2..4].fill(0);
                    b[4..6].copy_from_slice(&(1 + i as u16 % 3).to_be_bytes());
                }
                b
            }
            1 => {
                let q = Q { name: vec![format!("n{i}").into_bytes(), b"local".to_vec()], ty: ty::ANY, class: 1, qu: false };
                sockets::plain_query(i as u16, &q)
            }
            _ => {
                let q = advertiser::random_question(r, &recs).0;
                sockets::plain_query(r.u16(), &q)
            }
        };
        no_panic("handle_packet", || a.handle_packet(&b).is_ok())?;
        Ok(())
    })?;
    c.count("handled_packets", u64::from(ROUNDS));
    c.count("rounds", u64::from(ROUNDS));
    Ok(())
}

fn coding(c: &mut Case<'_>) -> Verdict {
    const ROUNDS: u32 = 16_000;
    c.note = "decoding, encoding, names".into();
    let mut buf = vec![0; 70_000];
    steady("the codec", ROUNDS, |i| {
        let b = gen::hostile(&mut c.rng).0;
        no_panic("the decoder", || sut::decode(&b).is_ok())?;
        let mut ips = vec![];
        no_panic("decode_answer", || uwuhi::resolver::decode_answer(&b, &mut ips).is_ok())?;
        let m = codec::encodable(c, 4);
        let size = if i % 4 == 0 { c.rng.below(500) } else { 70_000 };
        no_panic("the encoder", || sut::encode(&m, &mut buf[..size.max(12)], i % 3 == 0).is_some())?;
        let n = gen::name(&mut c.rng);
        no_panic("the names", || {
            let d = sut::dn(&n);
            let t = format!("{d} {d:?} host-{i}");
            let e = t.parse::<DomainName>().is_ok() | format!("host-{i}.local").parse::<DomainName>().is_ok();
            let s = Service::new(Label::new(format!("_s{i}")), discovery::transport(i % 2 == 0));
            let x = ServiceInstance::from_service(Label::new(format!("i{i}")), s);
            format!("{x} {e}").len()
        })?;
        Ok(())
    })?;
    c.count("decoded_messages", u64::from(ROUNDS));
    c.count("rounds", u64::from(ROUNDS));
    Ok(())
}

fn respond(id: u16, name: &Name, n: u32) -> Vec<Vec<u8>> {
    let mut data = vec![];
    for i in 0..1 + n % 5 {
        data.push(Data::A((n * 8 + i).to_be_bytes()));
    }
    data.push(Data::Raw(ty::TXT, vec![3, b'a', b'=', b'b']));
    let good = soak::plain_response(id, name, data);
    match n % 4 {
        0 => {
            let mut bad = good.clone();
            bad.truncate(bad.len() - 9);
            vec![bad, good]
        }
        1 => {
            let mut foreign = good.clone();
            foreign[0] ^= 0x55;
            vec![foreign, vec![], good.clone(), good]
        }
        _ => vec![good],
    }
}

fn resolving(c: &mut Case<'_>, is_async: bool) -> Verdict {
    const ROUNDS: u32 = 6_000;
    let server = net::udp(false);
    let addr = server.local_addr().unwrap();
    c.note = format!("resolver used {ROUNDS} times, async {is_async}");
    let mut call = net::call("resolutions", move || {
        let what = if is_async { "AsyncResolver" } else { "SyncResolver" };
        let mut r = Resolver::new(is_async, addr).map_err(|e| format!("resolver cannot be created: {e}"))?;
        r.set_timeout(Duration::from_millis(1500));
        steady(what, ROUNDS, |i| {
            if i % 100 == 7 {
                // nobody answers these
                r.set_timeout(Duration::from_millis(1));
                let res = r.resolve(&How::Str(format!("silent-{i}.local")));
                r.set_timeout(Duration::from_millis(1500));
                // Late answers to earlier queries are answers, too.
                let _ = res;
                return Ok(());
            }
            r.resolve(&How::Str(format!("host-{i}.local"))).map(drop).map_err(|e| format!("resolution {i} failed: {e}"))
        })
    });
    soak::serve(&server, &mut call, |id, name| {
        if name[0].starts_with(b"silent") {
            return vec![];
        }
        respond(id, name, soak::number(name))
    })?;
    call.wait()??;
    c.count(if is_async { "async_resolutions" } else { "sync_resolutions" }, u64::from(ROUNDS));
    c.count("resolution_timeouts", u64::from(ROUNDS / 100));
    c.count("rounds", u64::from(ROUNDS));
    Ok(())
}

fn discovering(c: &mut Case<'_>, is_async: bool) -> Verdict {
    const ROUNDS: u32 = 4_000;
    let server = net::udp(false);
    let addr = server.local_addr().unwrap();
    c.note = format!("discoverer used {ROUNDS} times, async {is_async}");
    let mut call = net::call("discoveries", move || {
        let what = if is_async { "AsyncDiscoverer" } else { "SyncDiscoverer" };
        let mut d = Disc::new(is_async, addr, &vec![b"local".to_vec()])
            .map_err(|e| format!("discoverer cannot be created: {e}"))?;
        let seen = Seen::default();
        steady(what, ROUNDS, |i| {
            let silent = i % 100 == 7;
            let ms = if silent { 1 } else { 2000 };
            d.timeouts(Duration::from_millis(ms), Duration::from_millis(ms * 2));
            let s = Service::new(Label::new(format!("_{}-{i}", if silent { "silent" } else { "svc" })), discovery::transport(true));
            let r = match i % 3 {
                0 => d.instances_until(&s, &seen, || !silent),
                1 => d.types_until(&seen, || !silent),
                _ => d.details(&ServiceInstance::from_service(Label::new(format!("inst-{i}")), s)).map(drop),
            };
            seen.lock().unwrap().clear();
            match r {
                Ok(()) => Ok(()),
                Err(_) if silent => Ok(()),
                Err(e) => Err(format!("discovery {i} failed: {e}")),
            }
        })
    });
    let mut n = 0u32;
    soak::serve(&server, &mut call, |id, name| {
        n += 1;
        if name.iter().any(|l| l.starts_with(b"_silent")) {
            return vec![];
        }
        let data = match name.len() {
            // instance, service, transport, domain
            4 if name[0].starts_with(b"inst") => {
                vec![
                    Data::TXT(vec![format!("k={n}").into_bytes(), b"flag".to_vec()]),
                    Data::SRV(0, 0, n as u16, vec![format!("h{n}").into_bytes(), b"local".to_vec()]),
                ]
            }
            4 => (0..1 + n % 4)
                .map(|i| Data::PTR(discovery::join(&[format!("_t{n}-{i}").as_bytes(), b"_udp"], &vec![b"local".to_vec()])))
                .collect(),
            _ => (0..1 + n % 4)
                .map(|i| Data::PTR(discovery::join(&[format!("i{n}-{i}").as_bytes()], name)))
                .collect(),
        };
        let good = soak::plain_response(id, name, data);
        let mut bad = good.clone();
        bad.truncate(bad.len() - 3);
        match n % 5 {
            0 => vec![bad, good],
            1 => vec![vec![1, 2, 3], good],
            _ => vec![good],
        }
    })?;
    call.wait()??;
    c.count(if is_async { "async_discoveries" } else { "sync_discoveries" }, u64::from(ROUNDS));
    c.count("discovery_timeouts", u64::from(ROUNDS / 100));
    c.count("rounds", u64::from(ROUNDS));
    Ok(())
}

fn dropped(c: &mut Case<'_>, is_async: bool) -> Verdict {
    const ROUNDS: u32 = 2_400;
    let server = net::udp(false);
    let addr = server.local_addr().unwrap();
    c.note = format!("{ROUNDS} clients created, used and dropped, async {is_async}");
    let mut call = net::call("clients", move || {
        let dom: Name = vec![b"local".to_vec()];
        steady("clients that are dropped", ROUNDS, |i| {
            let e = |e: std::io::Error| format!("client {i}: {e}");
            let s = Service::new(Label::new("_svc"), discovery::transport(true));
            match i % 4 {
                0 => {
                    let mut r = Resolver::new(is_async, addr).map_err(e)?;
                    r.set_timeout(Duration::from_secs(2));
                    r.add_server(addr);
                    r.resolve(&How::Str(format!("host-{i}.local"))).map_err(e)?;
                }
                1 => {
                    let mut d = Disc::new(is_async, addr, &dom).map_err(e)?;
                    d.timeouts(Duration::from_secs(2), Duration::from_secs(2));
                    let seen = Seen::default();
                    d.instances_until(&s, &seen, || true).map_err(e)?;
                }
                2 => match Resolver::new(is_async, addr).map_err(e)? {
                    Resolver::Async(mut r) => block_on(async {
                        // Not even a datagram is certain to have been sent.
                        let f = r.resolve("silent-1.local");
                        poll_once(f).await.map(|r| r.map(drop)).transpose().map_err(e)
                    })
                    .map(drop)?,
                    Resolver::Sync(mut r) => {
                        r.set_timeout(Duration::from_micros(10)).map_err(e)?;
                        if i % 16 == 2 {
                            let _ = r.resolve("silent-1.local").map(drop);
                        }
                    }
                },
                _ => match Disc::new(is_async, addr, &dom).map_err(e)? {
                    Disc::Async(mut d) => block_on(async {
                        let s = Service::new(Label::new("_silent-1"), discovery::transport(true));
                        poll_once(d.discover_instances(&s, |_| std::ops::ControlFlow::Continue(()))).await;
                        let i = ServiceInstance::from_service(Label::new("x"), s);
                        poll_once(d.load_instance_details(&i)).await;
                    }),
                    Disc::Sync(d) => drop(d),
                },
            }
            Ok(())
        })
    });
    soak::serve(&server, &mut call, |id, name| {
        if name.iter().any(|l| l.starts_with(b"silent") || l.starts_with(b"_silent")) {
            return vec![];
        }
        if name[0].starts_with(b"host") {
            return respond(id, name, soak::number(name));
        }
        vec![soak::plain_response(id, name, vec![Data::PTR(discovery::join(&[b"inst"], name))])]
    })?;
    call.wait()??;
    c.count("clients_dropped", u64::from(ROUNDS));
    if is_async {
        c.count("operations_dropped", u64::from(ROUNDS) / 4 * 3);
    }
    c.count("rounds", u64::from(ROUNDS));
    Ok(())
}

/// Port 5353 can be had again.
fn released(what: &str) -> Verdict {
    let t = Instant::now();
    loop {
        match UdpSocket::bind((Ipv4Addr::UNSPECIFIED, net::MDNS_PORT)) {
            Ok(_) => return Ok(()),
            Err(e) if t.elapsed() > Duration::from_secs(3) => {
                return Err(format!("{what} is gone, but its port is not free: {e}").into());
            }
            Err(_) => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

fn serving(c: &mut Case<'_>, is_async: bool) -> Verdict {
    const ROUNDS: u32 = 12_000;
    let regs = advertiser::random_regs(&mut c.rng);
    c.note = format!("{ROUNDS} packets to an advertiser, async {is_async}, {regs:?}");
    let recs = advertiser::records(&regs);
    let host = sockets::host_question(&regs);
    let mut srv = Server::start(is_async, &regs);
    let to: SocketAddr = (Ipv4Addr::LOCALHOST, net::MDNS_PORT).into();
    let ask = || UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("harness: bind");
    {
        let mut ids = 1;
        sockets::ask_until_answered(&ask(), to, &host, &mut ids, &mut srv)?;
    }
    let mut s = ask();
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let r = &mut c.rng;
    let kind = if is_async { "AsyncAdvertiser" } else { "SyncAdvertiser" };
    let mut again = 0;
    steady(kind, ROUNDS, |i| {
        let fence = 0x8000 | (i as u16);
        if is_async && i % 16 == 5 {
            srv.relisten();
            again += 1;
        }
        match i % 4 {
            0 => {
                let x = gen::hostile(r).0;
                if x.len() < 1400 {
                    net::send(&s, &x, to);
                }
            }
            1 => {
                let q = Q { name: vec![format!("n{i}").into_bytes()], ty: ty::A, class: 1, qu: false };
                net::send(&s, &sockets::plain_query(i as u16 & 0x7fff, &q), to);
            }
            _ => {
                let q = advertiser::random_question(r, &recs).0;
                net::send(&s, &sockets::plain_query(i as u16 & 0x7fff, &q), to);
            }
        }
        if i % 8 != 7 {
            if i % 2 == 0 {
                // another client
                s = ask();
                s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
            }
            return Ok(());
        }
        net::send(&s, &sockets::plain_query(fence, &host), to);
        let mut b = [0; 2000];
        loop {
            match net::recv(&s, &mut b) {
                Ok(_) if b[..2] == fence.to_be_bytes() => return Ok(()),
                Ok(_) => {}
                Err(e) => {
                    return Err(match srv.alive() {
                        Err(Fail::Violation(v)) => v,
                        _ => format!("packet {i} was not answered: {e}"),
                    })
                }
            }
        }
    })?;
    srv.alive()?;
    c.count(if is_async { "async_packets_served" } else { "sync_packets_served" }, u64::from(ROUNDS));
    c.count("listens_dropped", again);
    if srv.end() {
        released(kind)?;
        c.count("ports_released", 1);
    }
    c.count("rounds", u64::from(ROUNDS));
    Ok(())
}

fn tapping(c: &mut Case<'_>) -> Verdict {
    const ROUNDS: u32 = 8_000;
    let lines = Arc::new(Mutex::new(Vec::<String>::with_capacity(4096)));
    let sink = lines.clone();
    let (tx, tid) = std::sync::mpsc::channel();
    let mut tap = net::call("SyncTap", move || {
        let _ = tx.send(net::thread_id());
        mon::capture_log(sink);
        SyncTap::new()?.listen()
    });
    c.note = format!("{ROUNDS} messages to a tap");
    let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("harness: bind");
    let s2 = || UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("harness: bind");
    let to: SocketAddr = (Ipv4Addr::LOCALHOST, net::MDNS_PORT).into();
    let mut serial = 0;
    let mut fence = |tap: &mut net::Call<std::io::Result<()>>, wait: Duration| {
        serial += 1;
        let m = format!("fence{serial}ecnef");
        let q = Q { name: vec![m.clone().into_bytes()], ty: ty::A, class: 1, qu: false };
        net::send(&s, &sockets::plain_query(1, &q), to);
        let t = Instant::now();
        loop {
            let mut l = lines.lock().unwrap();
            if l.iter().any(|l| l.contains(&m)) {
                l.clear();
                return Ok(());
            }
            drop(l);
            if tap.finished() {
                return Err(format!("SyncTap::listen ended with {:?}", tap.result()));
            }
            if t.elapsed() > wait {
                return Err("messages are not logged any more".to_string());
            }
            std::thread::sleep(Duration::from_micros(20));
        }
    };
    let t = Instant::now();
    while let Err(e) = fence(&mut tap, Duration::from_millis(20)) {
        ensure!(t.elapsed() < net::HANG, "{e}");
    }
    let r = &mut c.rng;
    let v = steady("SyncTap", ROUNDS, |i| {
        let mut x = gen::hostile(r).0;
        x.truncate(1400);
        if i % 2 == 0 {
            let q = Q { name: vec![format!("n{i}").into_bytes()], ty: ty::A, class: 1, qu: false };
            x = sockets::plain_query(i as u16, &q);
        }
        net::send(&s2(), &x, to);
        if i % 16 == 15 {
            fence(&mut tap, Duration::from_secs(10))?;
        }
        Ok(())
    });
    let mut ended = false;
    if let Ok(tid) = tid.recv_timeout(Duration::from_millis(100)) {
        ended = net::end_listener(tid, || tap.finished());
    }
    v?;
    if ended {
        released("SyncTap")?;
        c.count("ports_released", 1);
    }
    c.count("messages_tapped", u64::from(ROUNDS));
    c.count("rounds", u64::from(ROUNDS));
    Ok(())
}

fn c27(c: &mut Case<'_>) -> Verdict {
    static WARM: std::sync::Once = std::sync::Once::new();
    WARM.call_once(|| {
        // The thread that drives async I/O stays.
        let server = net::udp(false);
        let r = block_on(uwuhi_async::resolver::AsyncResolver::new(server.local_addr().unwrap()));
        if let Ok(mut r) = r {
            let _ = r.set_timeout(Duration::from_millis(1));
            let _ = block_on(async { r.resolve("a.b").await.map(drop) });
        }
    });
    net::fresh_network()?;
    let before = Mark::now();
    match c.idx % 11 {
        0 => handled(c)?,
        1 => coding(c)?,
        2 => resolving(c, false)?,
        3 => resolving(c, true)?,
        4 => discovering(c, false)?,
        5 => discovering(c, true)?,
        6 => dropped(c, false)?,
        7 => dropped(c, true)?,
        8 => serving(c, false)?,
        9 => serving(c, true)?,
        _ => tapping(c)?,
    }
    // All of it is gone. (A blocking advertiser or tap may not be, if it cannot be made to return.)
    if c.idx % 11 < 8 {
        before.compare("everything dropped", 1, 4 * SLACK)?;
    }
    let idx = c.idx;
    let note = c.note.clone();
    c.nontrivial(crate::rng::hash_bytes(&idx.to_be_bytes()), || note);
    Ok(())
}
