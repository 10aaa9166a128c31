//! C13-C15: the stub resolvers (blocking and async) against scripted servers on loopback sockets.

use crate::props::soak;
use crate::ensure;
use crate::gen;
use crate::mon::{hex, panics, Case, Fail, Prop, Verdict};
use crate::net::{self, Call};
use crate::refdns::{self, name_str, ty, Data, Item, Msg, Name, Rr, Q, W};
use crate::rng::{hash_bytes, Rng};
use crate::sut;
use std::io;
use std::net::{IpAddr, SocketAddr, UdpSocket};
use std::time::{Duration, Instant};
use uwuhi::resolver::SyncResolver;
use uwuhi_async::resolver::AsyncResolver;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "case = a resolver (blocking or async, IPv4 or IPv6, 1-3 servers) that resolves 1-4 names in a row; per name the servers play a random script of unusable packets (no addresses, not responses, foreign ids, cut off, malformed records, noise) around one response with addresses; the result is compared with the model; non-trivial = resolution with at least one unusable packet or more than one address",
            quick: 40_000,
            thorough: 1_500_000,
            threads: 0,
            run: c13,
            required: &["long_histories", "crowds", "sync_resolutions", "async_resolutions", "addresses_returned", "cname_chains", "responses_over_512_bytes", "skip_no_addresses", "skip_not_a_response", "skip_foreign_id", "skip_cut_off", "skip_malformed_rdata", "skip_pointer_loop", "skip_noise", "resolver_reused", "several_servers", "decoys_in_other_sections"],
        },
        Prop {
            id: "C14",
            rule: "case = a resolver with 1-4 servers and one of: queries captured at every server; silent or unhelpful servers until the timeout; ignored packets spaced so that only a per-receive timeout lets the answer through; hostnames that are not domain names; forbidden add_server calls; non-trivial = every case",
            quick: 1_600,
            thorough: 40_000,
            threads: 0,
            run: c14,
            required: &["crowds_of_servers", "sync_resolutions", "async_resolutions", "queries_checked", "several_servers", "timeouts", "default_timeouts", "spaced_answers", "spaced_timeouts", "invalid_hostnames", "add_server_panics", "usable_after_error"],
        },
        Prop {
            id: "C15",
            rule: "case = a resolver that resolves 1-3 names while its servers and strangers send packets with addresses that are not responses to its query (foreign id, QR bit clear, answers about another name), followed by the response or by silence; non-trivial = resolution with at least one such packet",
            quick: 16_000,
            thorough: 500_000,
            threads: 0,
            run: c15,
            required: &["crowds", "sync_resolutions", "async_resolutions", "skip_not_a_response", "skip_foreign_id", "from_strangers", "decoys_then_silence", "other_name_responses"],
        },
    ]
}

pub enum Resolver {
    Sync(SyncResolver),
    Async(AsyncResolver),
}

impl Resolver {
    pub fn new(is_async: bool, server: SocketAddr) -> io::Result<Self> {
        Ok(if is_async {
            Self::Async(futures_lite::future::block_on(AsyncResolver::new(server))?)
        } else {
            Self::Sync(SyncResolver::new(server)?)
        })
    }
    pub fn multicast(is_async: bool) -> io::Result<Self> {
        Ok(if is_async {
            Self::Async(futures_lite::future::block_on(AsyncResolver::new_multicast_v4())?)
        } else {
            Self::Sync(SyncResolver::new_multicast_v4()?)
        })
    }
    pub fn multicast_v6(is_async: bool) -> io::Result<Self> {
        Ok(if is_async {
            Self::Async(futures_lite::future::block_on(AsyncResolver::new_multicast_v6())?)
        } else {
            Self::Sync(SyncResolver::new_multicast_v6()?)
        })
    }
    pub fn add_server(&mut self, s: SocketAddr) {
        match self {
            Self::Sync(r) => r.add_server(s),
            Self::Async(r) => r.add_server(s),
        }
    }
    pub fn set_timeout(&mut self, t: Duration) {
        match self {
            Self::Sync(r) => r.set_timeout(t).unwrap(),
            Self::Async(r) => r.set_timeout(t).unwrap(),
        }
    }
    pub fn resolve(&mut self, how: &How) -> io::Result<Vec<IpAddr>> {
        match (self, how) {
            (Self::Sync(r), How::Str(s)) => r.resolve(s).map(Iterator::collect),
            (Self::Sync(r), How::Name(n)) => r.resolve_domain(&sut::dn(n)).map(Iterator::collect),
            (Self::Async(r), How::Str(s)) => {
                futures_lite::future::block_on(async { r.resolve(s).await.map(Iterator::collect) })
            }
            (Self::Async(r), How::Name(n)) => futures_lite::future::block_on(async {
                r.resolve_domain(&sut::dn(n)).await.map(Iterator::collect)
            }),
        }
    }
}

#[derive(Clone, Debug)]
pub enum How {
    Str(String),
    Name(Name),
}

type Done = (Resolver, io::Result<Vec<IpAddr>>, Duration);

/// Runs one resolution on a thread of its own.
fn start(mut r: Resolver, how: How) -> Call<Done> {
    net::call("resolve", move || {
        let t = Instant::now();
        let res = r.resolve(&how);
        (r, res, t.elapsed())
    })
}

/// A name that survives being written as text.
pub fn hostname(r: &mut Rng) -> Name {
    if r.chance(1, 25) {
        // as long as a name can be
        return [63, 63, 63, 61].map(|n| vec![*r.pick(b"abcXYZ019-_"); n]).to_vec();
    }
    let mut v: Name = vec![];
    let mut len = 1;
    for _ in 0..r.range(1, 5) {
        let l: Vec<u8> = match r.below(6) {
            0 => b"example".to_vec(),
            1 => b"local".to_vec(),
            2 => {
                let n = *r.pick(&[1usize, 20, 62, 63]);
                (0..n).map(|_| *r.pick(b"abcXYZ019-_")).collect()
            }
            _ => {
                let n = r.range(1, 10);
                (0..n).map(|_| *r.pick(b"abcdefXYZ019-_")).collect()
            }
        };
        if len + l.len() + 1 > 255 {
            break;
        }
        len += l.len() + 1;
        v.push(l);
    }
    v
}

fn how(r: &mut Rng, n: &Name) -> How {
    match r.below(3) {
        0 => How::Str(name_str(n)),
        1 => {
            let mut s = name_str(n);
            s.pop();
            How::Str(s)
        }
        _ => How::Name(n.clone()),
    }
}

fn ip_data(ip: IpAddr) -> Data {
    match ip {
        IpAddr::V4(a) => Data::A(a.octets()),
        IpAddr::V6(a) => Data::AAAA(a.octets()),
    }
}

fn ip(r: &mut Rng) -> IpAddr {
    super::advertiser::random_ip(r)
}

fn rr(r: &mut Rng, name: &Name, data: Data) -> Rr {
    Rr {
        name: name.clone(),
        class: 1,
        flush: r.chance(1, 4),
        ttl: r.u32_edge(),
        data,
    }
}

pub struct Response {
    pub msg: Msg,
    pub ips: Vec<IpAddr>,
    chain: bool,
    decoys: bool,
}

pub fn response(r: &mut Rng, id: u16, name: &Name, addresses: usize) -> Response {
    use refdns::{AA, QR, RA, RD, TC};
    // (The three bits next to RA are reserved, or used by DNSSEC.)
    let any = r.u16() & (AA | TC | RD | RA | 0x70);
    let mut flags = QR | *r.pick(&[0, AA, RD, RD | RA, AA | TC, any, any]);
    if addresses == 0 && r.chance(1, 2) {
        flags |= 3; // no such name
    }
    let mut m = Msg {
        id,
        flags,
        ..Msg::default()
    };
    if r.chance(2, 3) {
        for t in [ty::A, ty::AAAA] {
            m.q.push(Q {
                name: name.clone(),
                ty: t,
                class: 1,
                qu: false,
            });
        }
    }
    let mut ips: Vec<IpAddr> = vec![];
    while ips.len() < addresses {
        // now and then one comes twice
        let a = if r.chance(1, 12) && !ips.is_empty() { *r.pick(&ips) } else { ip(r) };
        ips.push(a);
    }
    let mut owner = name.clone();
    let mut chain = false;
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            let next = hostname(r);
            let x = rr(r, &owner, Data::CNAME(next.clone()));
            m.sec[0].push(x);
            owner = next;
            chain = true;
        }
    }
    for &a in &ips {
        if r.chance(1, 6) {
            let d = match r.below(3) {
                0 => Data::TXT(vec![b"x=y".to_vec()]),
                1 => Data::Raw(46, r.bytes(20)),
                _ => Data::Raw(65400, vec![]),
            };
            let x = rr(r, &owner, d);
            m.sec[0].push(x);
        }
        let x = rr(r, &owner, ip_data(a));
        m.sec[0].push(x);
    }
    let mut decoys = false;
    if r.chance(1, 3) {
        let ns = hostname(r);
        let x = rr(r, name, Data::NS(ns.clone()));
        m.sec[1].push(x);
        for s in 1..3 {
            if r.chance(2, 3) {
                let a = ip(r);
                let x = rr(r, &ns, ip_data(a));
                m.sec[s].push(x);
                decoys = true;
            }
        }
    }
    Response {
        msg: m,
        ips,
        chain,
        decoys,
    }
}

pub fn bytes(r: &mut Rng, m: &Msg) -> Vec<u8> {
    let compress = *r.pick(&[0usize, 8, 16]);
    let mut w = W::compressing(r, compress);
    w.msg(m);
    if w.out.len() > 1500 {
        // a datagram holds no more than that
        let mut w = W::compressing(r, 16);
        w.msg(m);
        return w.out;
    }
    w.out
}

/// End of the answer section.
fn answers_end(b: &[u8]) -> usize {
    refdns::parse(b)
        .unwrap()
        .items
        .iter()
        .filter_map(|i| match i {
            Item::R { sec: 1, end, .. } => Some(*end),
            _ => None,
        })
        .max()
        .unwrap_or(12)
}

/// A packet the resolver has to pass over while it resolves `name` with a query of this id.
pub fn skipped(r: &mut Rng, id: u16, name: &Name) -> (&'static str, Vec<u8>) {
    let n = r.range(1, 3);
    match r.below(9) {
        0 => {
            let m = response(r, id, name, 0).msg;
            ("skip_no_addresses", bytes(r, &m))
        }
        1 => not_a_response(r, id, name),
        2 => foreign_id(r, id, name),
        3 => {
            let m = response(r, id, name, n).msg;
            let mut b = bytes(r, &m);
            let end = answers_end(&b);
            let at = r.below(end);
            b.truncate(at);
            ("skip_cut_off", b)
        }
        4 | 5 => {
            // an address record of the wrong length behind good ones
            let mut m = response(r, id, name, n).msg;
            let d = if r.chance(1, 2) {
                let l = r.below(4);
                Data::Raw(ty::A, r.bytes(l))
            } else {
                let l = r.below(16);
                Data::Raw(ty::AAAA, r.bytes(l))
            };
            let x = rr(r, name, d);
            m.sec[0].push(x);
            ("skip_malformed_rdata", bytes(r, &m))
        }
        6 => {
            let mut m = response(r, id, name, n).msg;
            m.sec = Default::default();
            let mut b = bytes(r, &m);
            b[7] = 2;
            let x = ip(r);
            let good = rr(r, name, ip_data(x));
            let mut w = W::plain();
            w.rr(&good);
            b.extend_from_slice(&w.out);
            let here = b.len() as u16;
            b.extend_from_slice(&(0xc000 | here).to_be_bytes());
            b.extend_from_slice(&[0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
            ("skip_pointer_loop", b)
        }
        _ => loop {
            let (mut b, _) = gen::hostile(r);
            b.truncate(1400);
            let harmless = b.len() < 12
                || u16::from_be_bytes([b[0], b[1]]) != id
                || b[2] & 0x80 == 0;
            if harmless {
                return ("skip_noise", b);
            }
        },
    }
}

fn not_a_response(r: &mut Rng, id: u16, name: &Name) -> (&'static str, Vec<u8>) {
    let n = r.range(1, 3);
    let mut m = response(r, id, name, n).msg;
    m.flags &= !refdns::QR;
    ("skip_not_a_response", bytes(r, &m))
}

fn foreign_id(r: &mut Rng, id: u16, name: &Name) -> (&'static str, Vec<u8>) {
    let n = r.range(1, 3);
    let mut m = response(r, id, name, n).msg;
    m.id ^= *r.pick(&[1u16, 2, 0x80, 0x100, 0x8000, 0xffff, 0x0101]);
    ("skip_foreign_id", bytes(r, &m))
}

struct Setup {
    is_async: bool,
    v6: bool,
    servers: Vec<UdpSocket>,
    stranger: UdpSocket,
}

fn setup(c: &mut Case<'_>, max_servers: usize) -> Setup {
    net::pin();
    let is_async = c.rng.chance(1, 2);
    let v6 = c.rng.chance(1, 4) && net::have_v6();
    let n = c.rng.range(1, max_servers);
    if n > 1 {
        c.count("several_servers", 1);
    }
    Setup {
        is_async,
        v6,
        servers: (0..n).map(|_| net::udp(v6)).collect(),
        stranger: net::udp(v6),
    }
}

impl Setup {
    fn resolver(&self) -> Result<Resolver, Fail> {
        let mut r = Resolver::new(self.is_async, self.servers[0].local_addr().unwrap())
            .map_err(|e| Fail::Violation(format!("resolver cannot be created: {e}")))?;
        for s in &self.servers[1..] {
            r.add_server(s.local_addr().unwrap());
        }
        Ok(r)
    }
    fn count(&self, c: &mut Case<'_>) {
        c.count(if self.is_async { "async_resolutions" } else { "sync_resolutions" }, 1);
    }
}

/// Judges a query as the servers see it.
pub fn check_query(b: &[u8], name: &Name) -> Result<u16, String> {
    let p = refdns::parse(b).map_err(|_| format!("query without header: {}", hex(b)))?;
    let mut qs: Vec<(Name, u16, u16)> = vec![];
    for i in &p.items {
        match i {
            Item::Q { name, ty, class, .. } => qs.push((name.clone(), *ty, *class)),
            i => return Err(format!("query contains {i:?}: {}", hex(b))),
        }
    }
    qs.sort();
    let mut want = vec![(name.clone(), ty::A, 1), (name.clone(), ty::AAAA, 1)];
    want.sort();
    if qs != want || p.end != b.len() {
        return Err(format!("query for {} is {}", name_str(name), hex(b)));
    }
    if p.hdr.flags & (refdns::QR | 0x7800 | 0xf | refdns::TC) != 0 || p.hdr.flags & refdns::RD == 0 {
        return Err(format!("query flags {:#06x}", p.hdr.flags));
    }
    Ok(p.hdr.id)
}

/// Waits for the query at all servers. `None`: the call ended before they got it.
fn queries(
    s: &Setup,
    call: &mut Call<Done>,
    name: &Name,
) -> Result<Option<(u16, SocketAddr)>, Fail> {
    let mut first: Option<(Vec<u8>, SocketAddr)> = None;
    for sock in &s.servers {
        let Some((b, a)) = net::recv_during(sock, call) else {
            return Ok(None);
        };
        if let Some((b0, a0)) = &first {
            ensure!(*b0 == b && *a0 == a, "servers were sent different queries: {} / {}", hex(b0), hex(&b));
        }
        first = Some((b, a));
    }
    let (b, mut a) = first.unwrap();
    a.set_ip(net::loopback(s.v6));
    let id = check_query(&b, name).map_err(Fail::Violation)?;
    Ok(Some((id, a)))
}

const LONG: Duration = Duration::from_secs(20);

pub fn c13(c: &mut Case<'_>) -> Verdict {
    if soak::due(c) {
        return soak::resolutions(c);
    }
    let s = setup(c, 3);
    let mut res = s.resolver()?;
    res.set_timeout(LONG);
    let rounds = c.rng.range(1, 4);
    let mut log = vec![format!(
        "{} resolver, {} servers",
        if s.is_async { "async" } else { "blocking" },
        s.servers.len()
    )];
    for round in 0..rounds {
        c.evals(1);
        let name = hostname(&mut c.rng);
        let h = how(&mut c.rng, &name);
        log.push(format!("resolve {h:?}"));
        let mut call = start(res, h);
        let Some((id, client)) = queries(&s, &mut call, &name)? else {
            let (_, r, _) = call.wait()?;
            c.note = log.join("; ");
            return Err(format!("returned {r:?} before all servers had the query").into());
        };
        let before = c.rng.below(7);
        let after = c.rng.below(3);
        let n = match c.rng.below(8) {
            0 => c.rng.range(20, 36),
            1..=3 => 1,
            _ => c.rng.range(2, 6),
        };
        let (good, good_bytes) = loop {
            let good = response(&mut c.rng, id, &name, n);
            let b = bytes(&mut c.rng, &good.msg);
            if b.len() <= 1500 {
                break (good, b);
            }
        };
        let mut script: Vec<(&'static str, Vec<u8>)> = vec![];
        for _ in 0..before {
            script.push(skipped(&mut c.rng, id, &name));
        }
        if c.rng.chance(1, 25) {
            // As many as surely fit into the socket's buffer
            for _ in 0..c.rng.range(30, 110) {
                let (k, b) = skipped(&mut c.rng, id, &name);
                if b.len() <= 300 {
                    script.insert(0, (k, b));
                }
            }
            c.count("crowds", 1);
        }
        let before = script.len();
        script.push(("good", good_bytes));
        for _ in 0..after {
            script.push(skipped(&mut c.rng, id, &name));
        }
        for (k, b) in &script {
            let sock = c.rng.pick(&s.servers);
            net::send(sock, b, client);
            if log.len() < 60 {
                log.push(format!("{k} {}", hex(b)));
            }
            if *k != "good" {
                c.count(k, 1);
            }
        }
        c.note = log.join("; ");
        let (r, got, took) = call.wait()?;
        res = r;
        if got.is_err() && took >= LONG {
            return Err(Fail::Violation(format!(
                "no result although a response with {n} addresses was sent: {got:?}"
            )));
        }
        let want = &good.ips;
        match &got {
            Ok(v) if v == want => {}
            g => return Err(format!("resolved to {g:?}, the response says {want:?}").into()),
        }
        for sock in &s.servers {
            for b in net::drain(sock) {
                // retransmissions would be fine
                check_query(&b, &name)?;
            }
        }
        s.count(c);
        c.count("addresses_returned", n as u64);
        c.count("cname_chains", good.chain.into());
        c.count("decoys_in_other_sections", good.decoys.into());
        c.count("responses_over_512_bytes", (script[before].1.len() > 512).into());
        c.count("resolver_reused", (round > 0).into());
        if before > 0 || n > 1 {
            let h = script.iter().fold(0, |h, (_, b)| h ^ hash_bytes(b).rotate_left(5));
            c.nontrivial(h, || {
                let kinds: Vec<_> = script.iter().map(|x| x.0).collect();
                format!("{} after {kinds:?} -> {got:?}", name_str(&name))
            });
        }
    }
    Ok(())
}

fn timed_out(r: &io::Result<Vec<IpAddr>>) -> bool {
    matches!(r, Err(e) if matches!(e.kind(), io::ErrorKind::WouldBlock | io::ErrorKind::TimedOut))
}

/// Timers may be this much early (clock granularity).
const EARLY: Duration = Duration::from_millis(8);

fn c14(c: &mut Case<'_>) -> Verdict {
    if soak::due(c) {
        return soak::many_servers(c);
    }
    let s = setup(c, 4);
    let mut res = s.resolver()?;
    let name = hostname(&mut c.rng);
    let kind = if c.idx % 16 == 0 { 16 } else { c.rng.below(10) };
    let what = if s.is_async { "async" } else { "blocking" };
    c.evals(1);
    c.note = format!("{what} resolver, {} servers, case kind {kind}, {}", s.servers.len(), name_str(&name));
    let key = c.rng.u64();
    match kind {
        // what a new resolver does by itself
        0..=2 if c.rng.chance(1, 30) => {
            c.note += ", timeout never set";
            let h = how(&mut c.rng, &name);
            let mut call = start(res, h);
            let Some((id, client)) = queries(&s, &mut call, &name)? else {
                let (_, r, took) = call.wait()?;
                return Err(format!("returned {r:?} after {took:?}, before all servers had the query").into());
            };
            if c.rng.chance(1, 2) {
                let (_, b) = skipped(&mut c.rng, id, &name);
                net::send(c.rng.pick(&s.servers), &b, client);
            }
            let (r, got, took) = call.wait()?;
            res = r;
            ensure!(timed_out(&got), "nobody answered, the result is {got:?}");
            ensure!(
                took >= Duration::from_millis(50) && took < Duration::from_secs(20),
                "by itself, the resolver gave up after {took:?}"
            );
            c.count("default_timeouts", 1);
            c.nontrivial(key, || format!("{what}: timeout never set: {got:?} after {took:?}"));
        }
        // servers that never help
        0..=2 => {
            let t = Duration::from_millis(*c.rng.pick(&[25u64, 40, 60, 90]));
            let t = if c.rng.chance(1, 40) { t * 12 } else { t };
            res.set_timeout(t);
            let mut late = 0;
            let (noise, got, took) = loop {
                let control = net::Control::start(t);
                let h = how(&mut c.rng, &name);
                let mut call = start(res, h);
                let mut last = call.started;
                let mut noise = 0;
                if let Some((id, client)) = queries(&s, &mut call, &name)? {
                    if c.rng.chance(1, 2) {
                        noise = c.rng.range(1, 4);
                        for _ in 0..noise {
                            let (_, b) = skipped(&mut c.rng, id, &name);
                            net::send(c.rng.pick(&s.servers), &b, client);
                        }
                        last = Instant::now();
                    }
                }
                let (r, got, took) = call.wait()?;
                let quiet = last.elapsed();
                res = r;
                ensure!(timed_out(&got), "nobody answered, the result is {got:?}");
                ensure!(took + EARLY >= t, "gave up after {took:?}, the timeout is {t:?}");
                for sock in &s.servers {
                    net::drain(sock);
                }
                let most = t + t / 2 + Duration::from_millis(20);
                if quiet <= most || control.lateness() > t / 4 {
                    break (noise, got, took);
                }
                late += 1;
                c.count("late", 1);
                ensure!(
                    late < net::LATE_RUNS,
                    "gave up only {quiet:?} after the last packet, the timeout is {t:?} (and so {late} times in a row, while another timer was on time)"
                );
            };
            c.count("timeouts", 1);
            let n = noise;
            c.nontrivial(key, || format!("{what}: {n} unusable packets, timeout {t:?}: {got:?} after {took:?}"));
        }
        // hostnames that are not domain names
        3..=5 => {
            let (host, fault) = bad_hostname(&mut c.rng);
            c.note = format!("{what} resolver, hostname {host:?}");
            res.set_timeout(Duration::from_millis(100));
            let (r, got, _) = start(res, How::Str(host.clone())).wait()?;
            res = r;
            match &got {
                Err(e) if e.kind() == io::ErrorKind::InvalidInput => {}
                g => return Err(format!("hostname {host:?} ({fault}): {g:?}").into()),
            }
            for sock in &s.servers {
                let d = net::drain(sock);
                ensure!(d.is_empty(), "a query was sent for hostname {host:?}: {}", hex(&d[0]));
            }
            c.count("invalid_hostnames", 1);
            c.nontrivial(key, || format!("{what}: {host:?} ({fault}) -> {got:?}"));
        }
        // servers that must not be added
        6 => {
            let other = net::loopback(!s.v6);
            let p = panics(|| res.add_server((other, 5353).into()));
            ensure!(p, "a server of the other address family was accepted");
            let m = if s.is_async {
                futures_lite::future::block_on(AsyncResolver::new_multicast_v4()).map(Resolver::Async)
            } else {
                SyncResolver::new_multicast_v4().map(Resolver::Sync)
            };
            let mut m = m.map_err(|e| format!("multicast resolver: {e}"))?;
            let p = panics(|| m.add_server("127.0.0.1:53".parse().unwrap()));
            ensure!(p, "add_server was accepted by a multicast resolver");
            if net::have_v6() {
                let m = if s.is_async {
                    futures_lite::future::block_on(AsyncResolver::new_multicast_v6()).map(Resolver::Async)
                } else {
                    SyncResolver::new_multicast_v6().map(Resolver::Sync)
                };
                if let Ok(mut m) = m {
                    let p = panics(|| m.add_server("[::1]:53".parse().unwrap()));
                    ensure!(p, "add_server was accepted by an IPv6 multicast resolver");
                }
            }
            c.count("add_server_panics", 1);
            c.nontrivial(key, || format!("{what}: add_server refused"));
        }
        // spaced packets
        16 => {
            let t = Duration::from_millis(300);
            let gap = Duration::from_millis(110);
            res.set_timeout(t);
            let h = how(&mut c.rng, &name);
            let mut call = start(res, h);
            let mut prev = call.started;
            let n = c.rng.range(4, 5);
            let answer = c.rng.chance(2, 3);
            let Some((id, client)) = queries(&s, &mut call, &name)? else {
                let (_, r, _) = call.wait()?;
                return Err(format!("returned {r:?} before all servers had the query").into());
            };
            let mut want = vec![];
            for i in 0..n {
                std::thread::sleep(gap);
                if prev.elapsed() > t * 2 / 3 {
                    // the server was late: nothing can be said
                    let _ = call.wait()?;
                    return Err(Fail::Inconclusive("server thread was late".into()));
                }
                let b = if i == n - 1 && answer {
                    let g = response(&mut c.rng, id, &name, 2);
                    want = g.ips.clone();
                    bytes(&mut c.rng, &g.msg)
                } else {
                    skipped(&mut c.rng, id, &name).1
                };
                prev = Instant::now();
                net::send(c.rng.pick(&s.servers), &b, client);
            }
            let (r, got, _) = call.wait()?;
            res = r;
            if answer {
                match &got {
                    Ok(v) if *v == want => {}
                    g => return Err(format!(
                        "packets {gap:?} apart kept coming, none later than the timeout {t:?} after another, and the answer {want:?} among them; the result is {g:?}"
                    ).into()),
                }
                c.count("spaced_answers", 1);
            } else {
                ensure!(timed_out(&got), "nobody answered, the result is {got:?}");
                let quiet = prev.elapsed();
                ensure!(
                    quiet + EARLY >= t,
                    "gave up {quiet:?} after the last ignored packet, the timeout is {t:?}"
                );
                c.count("spaced_timeouts", 1);
            }
            c.nontrivial(key, || format!("{what}: {n} packets {gap:?} apart, timeout {t:?}: {got:?}"));
        }
        _ => {}
    }
    // The resolver is as good as new, and asks all its servers.
    for sock in &s.servers {
        net::drain(sock);
    }
    res.set_timeout(LONG);
    let h = how(&mut c.rng, &name);
    let mut call = start(res, h);
    let Some((id, client)) = queries(&s, &mut call, &name)? else {
        let (_, r, _) = call.wait()?;
        return Err(format!("returned {r:?} before all servers had the query").into());
    };
    c.count("queries_checked", s.servers.len() as u64);
    let n = c.rng.range(1, 3);
    let g = response(&mut c.rng, id, &name, n);
    let b = bytes(&mut c.rng, &g.msg);
    net::send(c.rng.pick(&s.servers), &b, client);
    let (_, got, _) = call.wait()?;
    match &got {
        Ok(v) if *v == g.ips => {}
        r => return Err(format!("resolved to {r:?}, the response says {:?}", g.ips).into()),
    }
    if kind <= 5 {
        c.count("usable_after_error", 1);
    }
    s.count(c);
    c.nontrivial(key, || format!("{what}: {} queries for {}", s.servers.len(), name_str(&name)));
    Ok(())
}

fn bad_hostname(r: &mut Rng) -> (String, &'static str) {
    let n = hostname(r);
    let s = name_str(&n);
    match r.below(6) {
        0 => (format!(".{s}"), "empty label"),
        1 => (format!("{s}."), "empty label"),
        2 => (format!("a..{s}"), "empty label"),
        3 => (format!("{}.{s}", "x".repeat(*r.pick(&[64usize, 65, 300]))), "label over 63 bytes"),
        4 => ("..".into(), "empty label"),
        _ => {
            let k = *r.pick(&[0usize, 1, 128, 200, 700]);
            if k <= 1 {
                // 256 or 257 octets
                let x = "x".repeat(63);
                let dot = if r.chance(1, 2) { "." } else { "" };
                (format!("{x}.{x}.{x}.{}{dot}", "y".repeat(62 + k)), "name over 255 bytes")
            } else {
                ("a.".repeat(k), "name over 255 bytes")
            }
        }
    }
}

fn c15(c: &mut Case<'_>) -> Verdict {
    let s = setup(c, 2);
    let mut res = s.resolver()?;
    let rounds = c.rng.range(1, 3);
    let what = if s.is_async { "async" } else { "blocking" };
    let mut log = vec![format!("{what} resolver, {} servers", s.servers.len())];
    // Answers about another name, with the right id: known to be accepted.
    let other_name = c.rng.chance(1, 10);
    let silence = !other_name && c.rng.chance(1, 10);
    for round in 0..rounds {
        c.evals(1);
        let last = round == rounds - 1;
        let quiet = silence && last;
        res.set_timeout(if quiet { Duration::from_millis(60) } else { LONG });
        let name = hostname(&mut c.rng);
        let h = how(&mut c.rng, &name);
        log.push(format!("resolve {h:?}"));
        let mut call = start(res, h);
        let Some((id, client)) = queries(&s, &mut call, &name)? else {
            let (_, r, _) = call.wait()?;
            return Err(format!("returned {r:?} before all servers had the query").into());
        };
        let crowd = c.rng.chance(1, 25);
        let n = if crowd { c.rng.range(30, 110) } else { c.rng.range(1, 5) };
        c.count("crowds", crowd.into());
        let mut hash = 0;
        for i in 0..n {
            let (k, b) = if c.rng.chance(1, 2) {
                foreign_id(&mut c.rng, id, &name)
            } else {
                not_a_response(&mut c.rng, id, &name)
            };
            if b.len() > 300 && i >= 5 {
                continue;
            }
            let from_stranger = c.rng.chance(1, 3);
            let sock = if from_stranger { &s.stranger } else { c.rng.pick(&s.servers) };
            net::send(sock, &b, client);
            log.push(format!("{k} {}", hex(&b)));
            c.count(k, 1);
            c.count("from_strangers", from_stranger.into());
            hash ^= hash_bytes(&b);
        }
        let mut wrong = None;
        if other_name && last {
            let mut other = hostname(&mut c.rng);
            if refdns::lower(&other) == refdns::lower(&name) {
                other.insert(0, b"not".to_vec());
            }
            let m = response(&mut c.rng, id, &other, 2);
            let b = bytes(&mut c.rng, &m.msg);
            net::send(&s.servers[0], &b, client);
            log.push(format!("about {}: {}", name_str(&other), hex(&b)));
            wrong = Some((other, m.ips));
            c.count("other_name_responses", 1);
        }
        let g = response(&mut c.rng, id, &name, 2);
        if !quiet {
            let b = bytes(&mut c.rng, &g.msg);
            net::send(&s.servers[0], &b, client);
            log.push(format!("good {}", hex(&b)));
        }
        c.note = log.join("; ");
        let (r, got, _) = call.wait()?;
        res = r;
        s.count(c);
        if quiet {
            ensure!(timed_out(&got), "nobody answered the query, the result is {got:?}");
            c.count("decoys_then_silence", 1);
        } else {
            match (&got, &wrong) {
                (Ok(v), _) if *v == g.ips => {}
                (Ok(v), Some((other, ips))) if v == ips => {
                    return Err(Fail::Known {
                        sig: "wrong-name-accepted",
                        what: format!(
                            "asked for {}, was given the addresses in a response about {}",
                            name_str(&name),
                            name_str(other)
                        ),
                    });
                }
                _ => {
                    return Err(format!(
                        "resolved to {got:?}, the only response to the query says {:?}",
                        g.ips
                    )
                    .into())
                }
            }
        }
        c.nontrivial(hash, || format!("{what}: {} after {n} foreign packets -> {got:?}", name_str(&name)));
    }
    Ok(())
}
