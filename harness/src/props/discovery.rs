//! C16-C19: the service discoverers (blocking and async) against scripted servers on loopback
//! sockets.

use super::advertiser::{random_txt, service_label};
use crate::props::soak;
use crate::ensure;
use crate::gen;
use crate::mon::{hex, Case, Fail, Prop, Verdict};
use crate::net::{self, Call};
use crate::refdns::{self, lower, name_str, ty, Data, Item, Msg, Name, Rr, Q, W};
use crate::rng::{hash_bytes, Rng};
use crate::sut;
use std::io;
use std::net::{SocketAddr, UdpSocket};
use std::ops::ControlFlow;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use uwuhi::name::Label;
use uwuhi::service::discovery::SyncDiscoverer;
use uwuhi::service::{
    InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue,
};
use uwuhi_async::service::discovery::AsyncDiscoverer;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "case = a discoverer (blocking or async) used for 1-3 instance discoveries, each against a random script of response packets (new and repeated instances of the service, instances of other services, unusable pointers, malformed records, other types), packets that are not responses, cut-off packets and noise, in some cases so slowly that the query is retransmitted in between; the calls of the callback are compared with the model, up to the instance at which the callback stops; non-trivial = discovery with two or more instances or a decoy",
            quick: 48_000,
            thorough: 1_800_000,
            threads: 0,
            run: c16,
            required: &["long_histories", "sync_discoveries", "async_discoveries", "instances_reported", "repeated_instances", "other_services", "bad_pointers", "malformed_records", "queries_not_responses", "cut_off_packets", "noise_packets", "stopped_early", "multi_packet", "full_packets", "slow_servers", "retransmissions_in_between"],
        },
        Prop {
            id: "C17",
            rule: "case = as C16 for the enumeration of service types; non-trivial = enumeration with two or more types or a decoy",
            quick: 48_000,
            thorough: 1_800_000,
            threads: 0,
            run: c17,
            required: &["long_histories", "sync_discoveries", "async_discoveries", "types_reported", "repeated_types", "bad_pointers", "malformed_records", "queries_not_responses", "cut_off_packets", "noise_packets", "stopped_early", "multi_packet", "full_packets", "slow_servers", "retransmissions_in_between"],
        },
        Prop {
            id: "C18",
            rule: "case = a discovery (instances, types or details) whose server is silent or floods the client with packets, with random short timeouts; the queries and the duration are recorded; a duration out of bounds counts only if it recurs 7 times in a row while a control timer is on time, or also at 5 and 20 times the time scale; non-trivial = every case",
            quick: 800,
            thorough: 20_000,
            threads: 0,
            run: c18,
            required: &["sync_discoveries", "async_discoveries", "silent", "default_timeouts", "floods", "sparse_floods", "retransmissions", "instances", "types", "details", "flood_packets"],
        },
        Prop {
            id: "C19",
            rule: "case = a discoverer that loads the details of 1-3 instances; the SRV and TXT record come in one or two packets, in either order, among other records, repeated packets, packets that are not responses, cut-off packets and noise, in some cases so slowly that the query is retransmitted in between; or no SRV record comes at all; non-trivial = every load",
            quick: 9_000,
            thorough: 250_000,
            threads: 0,
            run: c19,
            required: &["long_histories", "sync_discoveries", "async_discoveries", "srv_before_txt", "txt_before_srv", "separate_packets", "one_packet", "empty_txt", "txt_values", "without_srv", "without_txt", "queries_not_responses", "cut_off_packets", "foreign_owner", "several_srv", "full_packets", "slow_servers", "retransmissions_in_between"],
        },
    ]
}

pub enum Disc {
    Sync(SyncDiscoverer),
    Async(AsyncDiscoverer),
}

pub type Seen = Arc<Mutex<Vec<Vec<u8>>>>;

impl Disc {
    pub fn new(is_async: bool, server: SocketAddr, domain: &Name) -> io::Result<Self> {
        let domain = sut::dn(domain);
        Ok(if is_async {
            Self::Async(futures_lite::future::block_on(AsyncDiscoverer::new(server, domain))?)
        } else {
            Self::Sync(SyncDiscoverer::new(server, domain)?)
        })
    }
    pub fn multicast(is_async: bool) -> io::Result<Self> {
        Ok(if is_async {
            Self::Async(futures_lite::future::block_on(AsyncDiscoverer::new_multicast_v4())?)
        } else {
            Self::Sync(SyncDiscoverer::new_multicast_v4()?)
        })
    }
    pub fn timeouts(&mut self, retransmit: Duration, discovery: Duration) {
        match self {
            Self::Sync(d) => {
                d.set_retransmit_timeout(retransmit).unwrap();
                d.set_discovery_timeout(discovery).unwrap();
            }
            Self::Async(d) => {
                d.set_retransmit_timeout(retransmit).unwrap();
                d.set_discovery_timeout(discovery).unwrap();
            }
        }
    }
    /// The callback asks to stop at the item `stop`.
    fn instances(&mut self, s: &Service, seen: &Seen, stop: Option<Vec<u8>>) -> io::Result<()> {
        let cb = move |i: &ServiceInstance| note(seen, flat_instance(i), &stop);
        match self {
            Self::Sync(d) => d.discover_instances(s, cb),
            Self::Async(d) => futures_lite::future::block_on(d.discover_instances(s, cb)),
        }
    }
    fn types(&mut self, seen: &Seen, stop: Option<Vec<u8>>) -> io::Result<()> {
        let seen = seen.clone();
        let cb = move |s: &Service| note(&seen, flat_service(s), &stop);
        match self {
            Self::Sync(d) => d.discover_service_types(cb),
            Self::Async(d) => futures_lite::future::block_on(d.discover_service_types(cb)),
        }
    }
    /// The callback asks to stop when `done`.
    pub fn instances_until(&mut self, s: &Service, seen: &Seen, done: impl Fn() -> bool + Send) -> io::Result<()> {
        let cb = move |i: &ServiceInstance| {
            seen.lock().unwrap().push(flat_instance(i));
            if done() { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
        };
        match self {
            Self::Sync(d) => d.discover_instances(s, cb),
            Self::Async(d) => futures_lite::future::block_on(d.discover_instances(s, cb)),
        }
    }
    pub fn types_until(&mut self, seen: &Seen, done: impl Fn() -> bool + Send) -> io::Result<()> {
        let cb = move |s: &Service| {
            seen.lock().unwrap().push(flat_service(s));
            if done() { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
        };
        match self {
            Self::Sync(d) => d.discover_service_types(cb),
            Self::Async(d) => futures_lite::future::block_on(d.discover_service_types(cb)),
        }
    }
    pub fn details(&mut self, i: &ServiceInstance) -> io::Result<InstanceDetails> {
        match self {
            Self::Sync(d) => d.load_instance_details(i),
            Self::Async(d) => futures_lite::future::block_on(d.load_instance_details(i)),
        }
    }
}

fn note(seen: &Seen, item: Vec<u8>, stop: &Option<Vec<u8>>) -> ControlFlow<()> {
    let mut v = seen.lock().unwrap();
    v.push(item);
    if v.last() == stop.as_ref() {
        ControlFlow::Break(())
    } else {
        ControlFlow::Continue(())
    }
}

/// Identities as the labels in front of the domain, length-prefixed.
pub fn flat(labels: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for l in labels {
        v.push(l.len() as u8);
        v.extend_from_slice(l);
    }
    v
}

pub fn transport(tcp: bool) -> ServiceTransport {
    if tcp {
        ServiceTransport::TCP
    } else {
        ServiceTransport::Other
    }
}

pub fn t_label(tcp: bool) -> &'static [u8] {
    if tcp {
        b"_tcp"
    } else {
        b"_udp"
    }
}

fn t_of(t: ServiceTransport) -> &'static [u8] {
    t_label(t == ServiceTransport::TCP)
}

pub fn flat_instance(i: &ServiceInstance) -> Vec<u8> {
    flat(&[
        i.instance_name().as_bytes(),
        i.service_name().as_bytes(),
        t_of(i.service_transport()),
    ])
}

pub fn flat_service(s: &Service) -> Vec<u8> {
    flat(&[s.name().as_bytes(), t_of(s.transport())])
}

pub fn show(v: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < v.len() {
        let l = v[i] as usize;
        s.push_str(&refdns::esc(&v[i + 1..i + 1 + l]));
        s.push('.');
        i += 1 + l;
    }
    s
}

pub fn domain(r: &mut Rng) -> Name {
    match r.below(4) {
        0 | 1 => vec![b"local".to_vec()],
        2 => vec![b"example".to_vec(), b"com".to_vec()],
        _ => {
            let n = r.range(1, 3);
            (0..n)
                .map(|_| {
                    let k = r.range(1, 12);
                    (0..k).map(|_| *r.pick(b"abcXYZ09-")).collect()
                })
                .collect()
        }
    }
}

pub fn join(a: &[&[u8]], b: &Name) -> Name {
    let mut n: Name = a.iter().map(|l| l.to_vec()).collect();
    n.extend(b.iter().cloned());
    n
}

pub fn rr(r: &mut Rng, name: &Name, data: Data) -> Rr {
    Rr {
        name: name.clone(),
        class: 1,
        flush: r.chance(1, 4),
        ttl: r.u32_edge(),
        data,
    }
}

/// Responders and DNS servers set these as they like (RFC 6762, section 18).
fn response_flags(r: &mut Rng) -> u16 {
    use refdns::{AA, QR, RA, RD, TC};
    let any = r.u16() & (AA | TC | RD | RA | 0x70);
    QR | *r.pick(&[AA, AA, AA, 0, AA | TC, RD | RA, AA | RD | RA, any])
}

pub fn packet(r: &mut Rng, id: u16, response: bool, questions: &[Q], answers: Vec<Rr>) -> Vec<u8> {
    let mut m = Msg {
        id,
        flags: if response { response_flags(r) } else { 0 },
        ..Msg::default()
    };
    if r.chance(1, 2) {
        m.q = questions.to_vec();
    }
    m.sec[0] = answers;
    if r.chance(1, 4) {
        let host = vec![b"some".to_vec(), b"host".to_vec()];
        let x = rr(r, &host, Data::A([10, 0, 0, 1]));
        m.sec[2].push(x);
    }
    let compress = *r.pick(&[0usize, 8, 16]);
    let mut w = W::compressing(r, compress);
    w.msg(&m);
    w.out
}

/// A response that fills a datagram (nearly) to the last byte with its last answer.
fn full_packet(r: &mut Rng, mut answers: Vec<Rr>) -> Option<Vec<u8>> {
    let mut m = Msg {
        flags: response_flags(r),
        ..Msg::default()
    };
    m.sec[0] = answers.clone();
    let len = refdns::write_plain(&m).len();
    let size = if r.chance(1, 2) { 1500 } else { r.range(1400, 1499) };
    let fill = size.checked_sub(len + 11)?;
    let filler = Rr {
        name: vec![],
        class: 1,
        flush: false,
        ttl: 1,
        data: Data::Raw(10, r.bytes(fill)),
    };
    let at = answers.len() - 1;
    answers.insert(at, filler);
    m.sec[0] = answers;
    Some(refdns::write_plain(&m))
}

fn cut(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    let end = refdns::parse(&b)
        .unwrap()
        .items
        .iter()
        .filter_map(|i| match i {
            Item::R { sec: 1, end, .. } => Some(*end),
            _ => None,
        })
        .max()
        .unwrap_or(12);
    let at = r.below(end);
    b.truncate(at);
    b
}

/// Bytes that are not a response with a PTR, SRV or TXT record in its answers.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    loop {
        let (mut b, _) = gen::hostile(r);
        b.truncate(1400);
        if b.len() >= 3 && b[2] & 0x80 != 0 && r.chance(1, 2) {
            b[2] &= 0x7f;
        }
        let harmless = match refdns::parse(&b) {
            Err(_) => true,
            Ok(p) => {
                p.hdr.flags & refdns::QR == 0
                    || (!p.long_name
                        && !p.items.iter().any(|i| {
                            matches!(i, Item::R { sec: 1, ty: ty::PTR | ty::SRV | ty::TXT, .. })
                        }))
            }
        };
        if harmless {
            return b;
        }
    }
}

/// Waits for the query and judges it.
fn query<T>(
    s: &UdpSocket,
    call: &mut Call<T>,
    name: &Name,
    types: &[u16],
) -> Result<Option<(u16, SocketAddr)>, Fail> {
    let Some((b, a)) = net::recv_during(s, call) else {
        return Ok(None);
    };
    let id = check_query(&b, name, types).map_err(Fail::Violation)?;
    Ok(Some((id, a)))
}

pub fn check_query(b: &[u8], name: &Name, types: &[u16]) -> Result<u16, String> {
    let p = refdns::parse(b).map_err(|_| format!("query without header: {}", hex(b)))?;
    let mut qs: Vec<(Name, u16, u16)> = vec![];
    for i in &p.items {
        match i {
            Item::Q { name, ty, class, .. } => qs.push((name.clone(), *ty, *class)),
            i => return Err(format!("query contains {i:?}: {}", hex(b))),
        }
    }
    qs.sort();
    let mut want: Vec<_> = types.iter().map(|t| (name.clone(), *t, 1)).collect();
    want.sort();
    if qs != want || p.end != b.len() {
        return Err(format!("query for {} {types:?} is {}", name_str(name), hex(b)));
    }
    if p.hdr.flags & (refdns::QR | 0x7800 | 0xf | refdns::TC) != 0 {
        return Err(format!("query flags {:#06x}", p.hdr.flags));
    }
    Ok(p.hdr.id)
}

pub const LONG: Duration = Duration::from_secs(25);
pub const NO_RETRANSMIT: Duration = Duration::from_secs(15);

/// What the packets of a script may make the discoverer report.
#[derive(Default)]
struct Script {
    packets: Vec<Vec<u8>>,
    /// In this order.
    must: Vec<Vec<u8>>,
    /// From packets that cannot be read to their end.
    may: Vec<Vec<u8>>,
    counts: Vec<(&'static str, u64)>,
    log: Vec<String>,
    decoys: usize,
}

impl Script {
    fn must(&mut self, x: Vec<u8>) {
        if !self.must.contains(&x) {
            self.must.push(x);
        }
    }
    fn count(&mut self, k: &'static str) {
        self.counts.push((k, 1));
    }
}

struct Enumeration {
    id: u16,
    /// Owner of the pointers.
    owner: Name,
    domain: Name,
    /// The service, when instances are enumerated.
    service: Option<(Vec<u8>, bool)>,
    fresh: usize,
    /// Service types handed out.
    given: Vec<(Vec<u8>, bool)>,
}

impl Enumeration {
    /// A new item, and the pointer target for it.
    fn item(&mut self, r: &mut Rng) -> (Vec<u8>, Name) {
        self.fresh += 1;
        let k = self.fresh;
        match &self.service {
            Some((s, tcp)) => {
                // distinct in more than the case of letters
                let mark = format!("#{k}").into_bytes();
                let name = match r.below(6) {
                    0 => [&[b'n'; 58][..], &mark].concat(),
                    1 => [&mark, &[b'n'; 58][..]].concat(),
                    2 => [&mark, &b".n"[..]].concat(),
                    _ => {
                        let mut l = gen::label(r);
                        l.truncate(50);
                        l.extend(mark);
                        l
                    }
                };
                let t = t_label(*tcp);
                (flat(&[&name, s, t]), join(&[&name, s, t], &self.domain))
            }
            None => {
                let mark = format!("-{k}").into_bytes();
                let mut s = match r.below(5) {
                    0 => [&b"_"[..], &[b'n'; 56], &mark].concat(),
                    1 => [&b"_"[..], &mark, &[b'n'; 56]].concat(),
                    _ => {
                        let mut s = service_label(r);
                        s.truncate(50);
                        s.extend(mark);
                        s
                    }
                };
                let mut tcp = r.chance(1, 2);
                if r.chance(1, 3) && !self.given.is_empty() {
                    // the same name with the other transport is another type
                    let (s2, t2) = r.pick(&self.given).clone();
                    if !self.given.contains(&(s2.clone(), !t2)) {
                        (s, tcp) = (s2, !t2);
                    }
                }
                self.given.push((s.clone(), tcp));
                let t = t_label(tcp);
                (flat(&[&s, t]), join(&[&s, t], &self.domain))
            }
        }
    }

    fn question(&self) -> Vec<Q> {
        vec![Q {
            name: self.owner.clone(),
            ty: ty::PTR,
            class: 1,
            qu: false,
        }]
    }

    /// A record that stands for nothing to report.
    fn decoy(&mut self, r: &mut Rng, s: &mut Script) -> Rr {
        s.decoys += 1;
        let target = |r: &mut Rng, e: &mut Self| e.item(r).1;
        match r.below(6) {
            0 if self.service.is_some() => {
                // an instance of another service
                s.count("other_services");
                let (name, tcp) = self.service.clone().unwrap();
                let (name, tcp) = match r.below(3) {
                    0 => (name, !tcp),
                    1 => {
                        let mut n = name;
                        if n.len() < 60 {
                            n.extend_from_slice(b"x");
                        } else {
                            n.pop();
                        }
                        (n, tcp)
                    }
                    _ => (b"_other-service".to_vec(), tcp),
                };
                let service = join(&[&name, t_label(tcp)], &self.domain);
                let mut t = service.clone();
                t.insert(0, b"somebody".to_vec());
                let owner = if r.chance(1, 2) { service } else { self.owner.clone() };
                rr(r, &owner, Data::PTR(t))
            }
            0 | 1 => {
                s.count("bad_pointers");
                let mut t = target(r, self);
                let at = if self.service.is_some() { 2 } else { 1 };
                if r.chance(1, 2) {
                    t[at] = r.pick(&[&b"_sctp"[..], b"tcp", b"_TCPx", b"_", b"_tc"]).to_vec();
                } else {
                    let keep = r.below(at + 2);
                    t.truncate(keep);
                }
                rr(r, &self.owner.clone(), Data::PTR(t))
            }
            2 => {
                s.count("malformed_records");
                let b = match r.below(5) {
                    0 => vec![],
                    1 => vec![5, b'a'],
                    2 => vec![0x40, 0],
                    3 => vec![0xff, 0xff],
                    _ => vec![1, b'a', 0xc0],
                };
                rr(r, &self.owner.clone(), Data::Raw(ty::PTR, b))
            }
            3 => rr(r, &self.owner.clone(), Data::TXT(vec![b"a=b".to_vec()])),
            4 => {
                let t = target(r, self);
                rr(r, &self.owner.clone(), Data::CNAME(t))
            }
            _ => {
                let t = target(r, self);
                rr(r, &self.owner.clone(), Data::Raw(47, t.concat()))
            }
        }
    }

    fn add_packet(&mut self, r: &mut Rng, s: &mut Script) {
        let qs = self.question();
        let n = r.below(5);
        match r.below(8) {
            0 => {
                s.count("queries_not_responses");
                s.decoys += 1;
                let mut v = vec![];
                for _ in 0..=n {
                    let t = self.item(r).1;
                    v.push(rr(r, &self.owner.clone(), Data::PTR(t)));
                }
                let b = packet(r, self.id, false, &qs, v);
                s.log.push(format!("not a response {}", hex(&b)));
                s.packets.push(b);
            }
            1 => {
                s.count("cut_off_packets");
                s.decoys += 1;
                let mut v = vec![];
                for _ in 0..=n {
                    let (i, t) = self.item(r);
                    s.may.push(i);
                    v.push(rr(r, &self.owner.clone(), Data::PTR(t)));
                }
                let b = packet(r, self.id, true, &qs, v);
                let b = cut(r, b);
                s.log.push(format!("cut off {}", hex(&b)));
                s.packets.push(b);
            }
            2 => {
                s.count("noise_packets");
                s.decoys += 1;
                let b = noise(r);
                s.log.push(format!("noise {}", hex(&b)));
                s.packets.push(b);
            }
            _ => {
                let mut v = vec![];
                let mut size = 100;
                for _ in 0..r.range(1, 6) {
                    let x = match r.below(4) {
                        0 => self.decoy(r, s),
                        1 if !s.must.is_empty() => {
                            let i = r.pick(&s.must).clone();
                            s.count(if self.service.is_some() { "repeated_instances" } else { "repeated_types" });
                            let t = join(&unflat(&i), &self.domain);
                            rr(r, &self.owner.clone(), Data::PTR(t))
                        }
                        _ => {
                            let (i, t) = self.item(r);
                            s.must(i);
                            rr(r, &self.owner.clone(), Data::PTR(t))
                        }
                    };
                    size += refdns::rr_wire_len(&x);
                    v.push(x);
                    if size > 1000 {
                        break;
                    }
                }
                let full = if r.chance(1, 8) { full_packet(r, v.clone()) } else { None };
                if full.is_some() {
                    s.count("full_packets");
                }
                let b = full.unwrap_or_else(|| packet(r, self.id, true, &qs, v));
                s.log.push(format!("response {}", hex(&b)));
                s.packets.push(b);
            }
        }
    }
}

fn unflat(v: &[u8]) -> Vec<&[u8]> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let l = v[i] as usize;
        out.push(&v[i + 1..i + 1 + l]);
        i += 1 + l;
    }
    out
}

/// An enumeration, what its server sends, and what is to come out of it.
pub struct Plan {
    /// `None`: service types.
    pub service: Option<(Vec<u8>, bool)>,
    pub owner: Name,
    /// Without the message ID.
    pub packets: Vec<Vec<u8>>,
    /// Items that may be reported, or not.
    pub may: Vec<Vec<u8>>,
    /// The item at which the callback breaks.
    pub stop: Vec<u8>,
    pub want: Vec<Vec<u8>>,
    pub counts: Vec<(&'static str, u64)>,
    pub log: Vec<String>,
    pub decoys: usize,
}

pub fn plan(r: &mut Rng, types: bool, dom: &Name, round: usize, early: bool) -> Plan {
    let service = if types {
        None
    } else {
        let mut s = service_label(r);
        s.truncate(40);
        s.extend_from_slice(format!("{round}").as_bytes());
        Some((s, r.chance(1, 2)))
    };
    let owner = match &service {
        Some((s, tcp)) => join(&[s, t_label(*tcp)], dom),
        None => join(&[b"_services", b"_dns-sd", b"_udp"], dom),
    };
    let mut e = Enumeration {
        id: 0,
        owner: owner.clone(),
        domain: dom.clone(),
        service: service.clone(),
        fresh: 0,
        given: vec![],
    };
    let mut s = Script::default();
    for _ in 0..r.range(1, 7) {
        e.add_packet(r, &mut s);
    }
    let (fin, t) = match &service {
        Some((s, tcp)) => (
            flat(&[b"the end", s, t_label(*tcp)]),
            join(&[b"the end", s, t_label(*tcp)], dom),
        ),
        None => (flat(&[b"_the-end", b"_udp"]), join(&[b"_the-end", b"_udp"], dom)),
    };
    let x = rr(r, &owner, Data::PTR(t));
    let b = packet(r, 0, true, &e.question(), vec![x]);
    s.packets.push(b);
    s.must(fin.clone());
    let stop = if early { r.pick(&s.must).clone() } else { fin };
    let want: Vec<Vec<u8>> = {
        let n = s.must.iter().position(|x| *x == stop).unwrap();
        s.must[..=n].to_vec()
    };
    Plan {
        service,
        owner,
        packets: s.packets,
        may: s.may,
        stop,
        want,
        counts: s.counts,
        log: s.log,
        decoys: s.decoys,
    }
}

/// The calls of the callback are those of the plan.
pub fn judge(got: &[Vec<u8>], want: &[Vec<u8>], may: &[Vec<u8>]) -> Verdict {
    let shown: Vec<String> = got.iter().map(|x| show(x)).collect();
    let firm: Vec<&Vec<u8>> = got.iter().filter(|x| !may.contains(x)).collect();
    ensure!(
        firm.len() == want.len() && firm.iter().zip(want).all(|(a, b)| *a == b),
        "reported {shown:?}, expected {:?}",
        want.iter().map(|x| show(x)).collect::<Vec<_>>()
    );
    for (i, x) in got.iter().enumerate() {
        ensure!(!got[..i].contains(x), "{} was reported twice", show(x));
    }
    Ok(())
}

/// The retransmit timeout where the packets of a script are to come with retransmissions of the
/// query in between.
fn pace(r: &mut Rng, one_in: usize) -> Option<Duration> {
    if !r.chance(1, one_in) {
        return None;
    }
    let ms = if r.chance(1, 12) { r.range(150, 500) } else { r.range(3, 25) };
    Some(Duration::from_millis(ms as u64))
}

/// Lets the client wait for a packet.
fn linger(r: &mut Rng, rt: Duration) {
    if r.chance(1, 2) {
        std::thread::sleep(Duration::from_micros(r.below(2 * rt.as_micros() as usize) as u64));
    }
}

/// Judges the queries that came after the first one.
fn retransmitted(c: &mut Case<'_>, s: &UdpSocket, id: u16, owner: &Name, types: &[u16]) -> Verdict {
    for q in net::drain(s) {
        let i = check_query(&q, owner, types)?;
        ensure!(i == id, "the id of the query is {id}, that of its retransmission {i}");
        c.count("retransmissions_in_between", 1);
    }
    Ok(())
}

/// Gives a packet of a script the id of the query.
pub fn stamp(b: &mut [u8], id: u16) {
    if b.len() >= 2 {
        b[..2].copy_from_slice(&id.to_be_bytes());
    }
}

fn enumerate(c: &mut Case<'_>, types: bool) -> Verdict {
    net::pin();
    let is_async = c.rng.chance(1, 2);
    let v6 = c.rng.chance(1, 4) && net::have_v6();
    let server = net::udp(v6);
    let dom = domain(&mut c.rng);
    let what = match (is_async, v6) {
        (false, false) => "blocking",
        (false, true) => "blocking IPv6",
        (true, false) => "async",
        (true, true) => "async IPv6",
    };
    let mut d = Disc::new(is_async, server.local_addr().unwrap(), &dom)
        .map_err(|e| format!("discoverer cannot be created: {e}"))?;
    let rounds = c.rng.range(1, 3);
    for round in 0..rounds {
        c.evals(1);
        let last = round == rounds - 1;
        let early = last && c.rng.chance(1, 2);
        let plan = plan(&mut c.rng, types, &dom, round, early);
        let Plan { service, owner, mut packets, may, stop, want, counts, log, decoys } = plan;
        let slow = pace(&mut c.rng, 90);
        d.timeouts(slow.unwrap_or(NO_RETRANSMIT), LONG);
        let seen: Seen = Default::default();
        let (seen2, stop2, sv) = (seen.clone(), stop.clone(), service.clone());
        let mut call = net::call("discovery", move || {
            let t = Instant::now();
            let r = match sv {
                Some((s, tcp)) => {
                    let s = Service::new(Label::new(s), transport(tcp));
                    d.instances(&s, &seen2, Some(stop2))
                }
                None => d.types(&seen2, Some(stop2)),
            };
            (d, r, t.elapsed())
        });
        c.note = format!("{what} discovery of {} in {rounds} rounds, retransmissions after {slow:?}, stop at {}; {}", name_str(&owner), show(&stop), log.join("; "));
        let Some((id, client)) = query(&server, &mut call, &owner, &[ty::PTR])? else {
            let (_, r, _) = call.wait()?;
            return Err(format!("returned {r:?} without a query").into());
        };
        for b in &mut packets {
            stamp(b, id);
            if let Some(rt) = slow {
                linger(&mut c.rng, rt);
            }
            net::send(&server, b, (net::loopback(v6), client.port()).into());
        }
        let sent = Instant::now();
        let started = call.started;
        let (d2, r, took) = call.wait()?;
        d = d2;
        if took >= LONG && sent - started > LONG / 2 {
            return Err(Fail::Inconclusive("server thread was late".into()));
        }
        let got = seen.lock().unwrap().clone();
        let shown: Vec<String> = got.iter().map(|x| show(x)).collect();
        ensure!(r.is_ok(), "discovery failed: {r:?}; reported {shown:?}");
        judge(&got, &want, &may)?;
        retransmitted(c, &server, id, &owner, &[ty::PTR])?;
        c.count("slow_servers", slow.is_some().into());
        c.count(if is_async { "async_discoveries" } else { "sync_discoveries" }, 1);
        c.count(if types { "types_reported" } else { "instances_reported" }, want.len() as u64);
        c.count("stopped_early", early.into());
        c.count("multi_packet", (packets.len() > 2).into());
        for (k, n) in &counts {
            c.count(k, *n);
        }
        if want.len() >= 2 || decoys > 0 {
            let h = packets.iter().fold(3u64, |h, b| h.rotate_left(7) ^ hash_bytes(b));
            c.nontrivial(h, || format!("{what}: {} packets, {decoys} decoys -> {shown:?}", packets.len()));
        }
    }
    Ok(())
}

pub fn c16(c: &mut Case<'_>) -> Verdict {
    if soak::due(c) {
        return soak::big_discovery(c, false);
    }
    enumerate(c, false)
}

pub fn c17(c: &mut Case<'_>) -> Verdict {
    if soak::due(c) {
        return soak::big_discovery(c, true);
    }
    enumerate(c, true)
}

/// Timers may be this much early (clock granularity).
const EARLY: Duration = Duration::from_millis(8);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Flood {
    None,
    Dense,
    /// A packet every 0.2 to 0.7 retransmit timeouts.
    Sparse,
}

struct Timed {
    took: Duration,
    queries: Vec<Vec<u8>>,
    sent: u64,
    reported: Vec<Vec<u8>>,
    result: String,
    fine: bool,
}

fn c18(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let mut is_async = c.rng.chance(1, 2);
    let op = c.rng.below(3);
    let flood = match c.rng.below(6) {
        0 | 1 => Flood::Dense,
        2 => Flood::Sparse,
        _ => Flood::None,
    };
    let dom = domain(&mut c.rng);
    let mut sv = service_label(&mut c.rng);
    sv.truncate(40);
    let tcp = c.rng.chance(1, 2);
    let mut retransmit = c.rng.range(8, 30) as u64;
    let mut timeout = retransmit * c.rng.range(3, 8) as u64;
    let mut flood = flood;
    let long = soak::which(c, 4);
    if let Some(k) = long {
        // More queries than a byte can count, or many intervals that can be told from longer ones.
        (retransmit, timeout, flood) = ([2, 40][k as usize / 2], 4000, Flood::None);
        is_async = k % 2 == 1;
    }
    let what = if is_async { "async" } else { "blocking" };
    let kind = ["instances", "types", "details"][op];
    let mut bad = String::new();
    c.evals(1);
    if long.is_none() && c.rng.chance(1, 40) {
        // What a new discoverer does by itself; how long that takes is its own business.
        c.note = format!("{what} discovery of {kind}, timeouts never set");
        let t = timed(c, is_async, op, Flood::None, &dom, &sv, tcp, None)?;
        ensure!(t.fine, "the result is {}", t.result);
        ensure!(
            t.took >= Duration::from_millis(50) && t.took < Duration::from_secs(20),
            "by itself, the discovery took {:?}",
            t.took
        );
        ensure!(t.queries.iter().all(|q| *q == t.queries[0]), "not always the same query: {:?}", t.queries);
        c.count("default_timeouts", 1);
        let n = t.queries.len();
        let key = c.rng.u64();
        c.nontrivial(key, || format!("{what} discovery of {kind}, timeouts never set: {n} queries in {:?}", t.took));
        return Ok(());
    }
    let scales: &[u64] = if long.is_some() {
        &[1; net::LATE_RUNS]
    } else if c.rng.chance(1, 30) {
        &[20]
    } else {
        &[1, 1, 1, 1, 1, 1, 1, 5, 20]
    };
    let mut late = 0;
    for (i, &scale) in scales.iter().enumerate() {
        let (rt, dt) = (
            Duration::from_millis(retransmit * scale),
            Duration::from_millis(timeout * scale),
        );
        c.note = format!("{what} discovery of {kind}, retransmit timeout {rt:?}, discovery timeout {dt:?}, flood {flood:?}");
        let control = net::Control::start(dt);
        let t = timed(c, is_async, op, flood, &dom, &sv, tcp, Some((rt, dt)))?;
        ensure!(t.fine, "the result is {}", t.result);
        for q in &t.queries {
            ensure!(*q == t.queries[0], "retransmitted query differs: {} / {}", hex(&t.queries[0]), hex(q));
        }
        for (i, x) in t.reported.iter().enumerate() {
            ensure!(!t.reported[..i].contains(x), "{} was reported twice", show(x));
        }
        ensure!(
            t.took + EARLY >= dt,
            "ended after {:?}, before the discovery timeout of {dt:?}",
            t.took
        );
        // Each further query takes a whole retransmit timeout without packets.
        let most = (t.took + EARLY).as_secs_f64() / (rt - EARLY.min(rt / 4)).as_secs_f64() + 2.0;
        ensure!(
            t.queries.len() as f64 <= most,
            "{} queries in {:?} at a retransmit timeout of {rt:?}",
            t.queries.len(),
            t.took
        );
        bad = if t.took > dt + 2 * rt + Duration::from_millis(20) {
            format!("took {:?}, the discovery timeout is {dt:?}", t.took)
        } else if flood == Flood::None
            && t.queries.len() < if retransmit == 2 { 300 } else { (dt.as_micros() / (rt + EARLY).as_micros()) as usize - usize::from(scale < 20) }
        {
            format!(
                "{} queries in {:?} without any response, at a retransmit timeout of {rt:?}",
                t.queries.len(),
                t.took
            )
        } else {
            String::new()
        };
        if bad.is_empty() {
            c.count(
                match flood {
                    Flood::None => "silent",
                    Flood::Dense => "floods",
                    Flood::Sparse => "sparse_floods",
                },
                1,
            );
            c.count(kind, 1);
            c.count(if is_async { "async_discoveries" } else { "sync_discoveries" }, 1);
            c.count("retransmissions", t.queries.len() as u64 - 1);
            c.max("queries_in_one_discovery", t.queries.len() as u64);
            c.count("flood_packets", t.sent);
            let key = c.rng.u64();
            let n = t.queries.len();
            c.nontrivial(key, || {
                format!("{what} {kind}: {n} queries in {:?} (timeouts {rt:?}, {dt:?}), {} packets received", t.took, t.sent)
            });
            return Ok(());
        }
        c.count("late", 1);
        late += usize::from(control.lateness() <= rt / 2);
        if i + 1 == net::LATE_RUNS && late == net::LATE_RUNS {
            bad += &format!(" ({late} times in a row, while another timer was on time)");
            break;
        }
    }
    Err(bad.into())
}

#[allow(clippy::too_many_arguments)]
fn timed(
    c: &mut Case<'_>,
    is_async: bool,
    op: usize,
    flood: Flood,
    dom: &Name,
    sv: &[u8],
    tcp: bool,
    timeouts: Option<(Duration, Duration)>,
) -> Result<Timed, Fail> {
    let rt = timeouts.map_or(Duration::ZERO, |t| t.0);
    let v6 = c.rng.chance(1, 4) && net::have_v6();
    let server = net::udp(v6);
    server.set_read_timeout(Some(Duration::from_millis(1))).unwrap();
    let mut d = Disc::new(is_async, server.local_addr().unwrap(), dom)
        .map_err(|e| format!("discoverer cannot be created: {e}"))?;
    if let Some((rt, dt)) = timeouts {
        d.timeouts(rt, dt);
    }
    let seen: Seen = Default::default();
    let seen2 = seen.clone();
    let service = Service::new(Label::new(sv), transport(tcp));
    let (owner, types) = match op {
        0 => (join(&[sv, t_label(tcp)], dom), vec![ty::PTR]),
        1 => (join(&[b"_services", b"_dns-sd", b"_udp"], dom), vec![ty::PTR]),
        _ => (join(&[b"inst", sv, t_label(tcp)], dom), vec![ty::SRV, ty::TXT]),
    };
    let mut call = net::call("discovery", move || {
        let t = Instant::now();
        let r = match op {
            0 => d.instances(&service, &seen2, None).map(|()| None),
            1 => d.types(&seen2, None).map(|()| None),
            _ => d
                .details(&ServiceInstance::from_service(Label::new("inst"), service))
                .map(Some),
        };
        (r, t.elapsed())
    });
    let mut e = Enumeration {
        id: 0,
        owner: owner.clone(),
        domain: dom.clone(),
        service: (op == 0).then(|| (sv.to_vec(), tcp)),
        fresh: 0,
        given: vec![],
    };
    let mut queries = vec![];
    let mut peer = None;
    let mut sent = 0u64;
    let mut b = [0; 2000];
    let begin = Instant::now();
    let mut hang = false;
    // No packet was on its way to the client for at most `silence` since its last query.
    let mut silence = Duration::ZERO;
    let mut since = call.started;
    let mut polled = call.started;
    let mut next_send = begin;
    while !call.finished() {
        if begin.elapsed() > net::HANG {
            hang = true;
            break;
        }
        let poll = Instant::now();
        if let Ok((n, a)) = net::recv(&server, &mut b) {
            let now = Instant::now();
            let id = check_query(&b[..n], &owner, &types).map_err(Fail::Violation)?;
            e.id = id;
            queries.push(b[..n].to_vec());
            peer = Some(a);
            silence = silence.max(now - since);
            ensure!(
                queries.len() == 1 || silence + EARLY.min(rt / 4) >= rt,
                "another query although the client received a packet every {silence:?}; the retransmit timeout is {rt:?}"
            );
            // The query was sent after the start of the last poll that found none.
            silence = Duration::ZERO;
            since = polled;
        } else {
            polled = poll;
        }
        if let (Some(a), false) = (peer, flood == Flood::None) {
            let n = match flood {
                Flood::Sparse if Instant::now() < next_send => 0,
                Flood::Sparse => 1,
                _ => 3,
            };
            if flood == Flood::Sparse && n > 0 {
                let wait = rt.as_micros() as usize * c.rng.range(2, 7) / 10;
                next_send = Instant::now() + Duration::from_micros(wait as u64);
            }
            for _ in 0..n {
                let before = Instant::now();
                let x = if op < 2 && c.rng.chance(1, 2) {
                    let mut s = Script::default();
                    e.add_packet(&mut c.rng, &mut s);
                    let mut p = s.packets.remove(0);
                    if p.len() >= 2 {
                        p[..2].copy_from_slice(&e.id.to_be_bytes());
                    }
                    p
                } else {
                    noise(&mut c.rng)
                };
                net::send(&server, &x, (net::loopback(v6), a.port()).into());
                silence = silence.max(Instant::now() - since);
                since = before;
                sent += 1;
            }
        }
    }
    if hang {
        return Err(Fail::Violation(format!(
            "discovery is still running after {} s",
            net::HANG.as_secs()
        )));
    }
    let (r, took) = call.wait()?;
    for q in net::drain(&server) {
        check_query(&q, &owner, &types).map_err(Fail::Violation)?;
        queries.push(q);
    }
    let fine = match (&r, op) {
        (Ok(None), 0 | 1) => true,
        (Err(e), 2) => e.kind() == io::ErrorKind::TimedOut,
        _ => false,
    };
    let result = match &r {
        Ok(None) => "Ok".to_string(),
        Ok(Some(d)) => format!("details {}:{}", d.host(), d.port()),
        Err(e) => format!("{e:?}"),
    };
    ensure!(!queries.is_empty(), "ended with {result} without a query");
    let reported = seen.lock().unwrap().clone();
    if flood == Flood::None {
        ensure!(reported.is_empty(), "reported something without a response");
    }
    Ok(Timed {
        took,
        queries,
        sent,
        reported,
        result,
        fine,
    })
}

pub type Loaded = (Name, u16, Vec<(String, Option<Vec<u8>>)>);

pub fn loaded(d: &InstanceDetails) -> Loaded {
    let mut txt: Vec<(String, Option<Vec<u8>>)> = d
        .txt_records()
        .iter()
        .map(|(k, v)| {
            let v = match v {
                TxtRecordValue::NoValue => None,
                TxtRecordValue::Value(v) => Some(v.to_vec()),
            };
            (k.to_string(), v)
        })
        .collect();
    txt.sort();
    (sut::nm(d.host()), d.port(), txt)
}

pub fn txt_data(txt: &[(String, Option<Vec<u8>>)]) -> Data {
    if txt.is_empty() {
        return Data::TXT(vec![vec![]]);
    }
    Data::TXT(
        txt.iter()
            .map(|(k, v)| {
                let mut e = k.as_bytes().to_vec();
                if let Some(v) = v {
                    e.push(b'=');
                    e.extend_from_slice(v);
                }
                e
            })
            .collect(),
    )
}

pub fn c19(c: &mut Case<'_>) -> Verdict {
    if soak::due(c) {
        return soak::many_loads(c);
    }
    net::pin();
    let is_async = c.rng.chance(1, 2);
    let v6 = c.rng.chance(1, 4) && net::have_v6();
    let server = net::udp(v6);
    let dom = domain(&mut c.rng);
    let what = match (is_async, v6) {
        (false, false) => "blocking",
        (false, true) => "blocking IPv6",
        (true, false) => "async",
        (true, true) => "async IPv6",
    };
    let mut d = Disc::new(is_async, server.local_addr().unwrap(), &dom)
        .map_err(|e| format!("discoverer cannot be created: {e}"))?;
    let rounds = c.rng.range(1, 3);
    for round in 0..rounds {
        c.evals(1);
        let last = round == rounds - 1;
        let mut sv = service_label(&mut c.rng);
        sv.truncate(40);
        let tcp = c.rng.chance(1, 2);
        let name = gen::label(&mut c.rng);
        let inst = ServiceInstance::new(Label::new(&name), Label::new(&sv), transport(tcp));
        let owner = join(&[&name, &sv, t_label(tcp)], &dom);
        let mut host = gen::name(&mut c.rng);
        while refdns::name_wire_len(&host) > 200 {
            host.pop();
        }
        let port = c.rng.u16_edge();
        let mut txt = random_txt(&mut c.rng, false);
        txt.sort();
        let want: Loaded = (host.clone(), port, txt.clone());
        let qs: Vec<Q> = [ty::SRV, ty::TXT]
            .iter()
            .map(|t| Q {
                name: owner.clone(),
                ty: *t,
                class: 1,
                qu: false,
            })
            .collect();
        let r = &mut c.rng;
        let srv = rr(r, &owner, Data::SRV(r.clone().u16_edge(), 7, port, host.clone()));
        let txt_rr = rr(r, &owner, txt_data(&txt));
        // 0: both records; 1: no SRV; 2: no TXT; 3: first the records of somebody else
        let kind = match r.below(24) {
            0 => 1,
            1 => 2,
            2 if last => 3,
            _ => 0,
        };
        let mut counts: Vec<&'static str> = vec![];
        let mut packets: Vec<Vec<u8>> = vec![];
        let mut log = vec![];
        let decoy = |r: &mut Rng, packets: &mut Vec<Vec<u8>>, counts: &mut Vec<&'static str>, log: &mut Vec<String>| {
            let srv = rr(r, &owner, Data::SRV(0, 0, 4242, vec![b"decoy".to_vec()]));
            let txt = rr(r, &owner, Data::TXT(vec![b"decoy=1".to_vec()]));
            let (k, b) = match r.below(5) {
                0 | 1 => {
                    let v = if r.chance(1, 2) { vec![srv, txt] } else { vec![txt, srv] };
                    ("queries_not_responses", packet(r, 0, false, &qs, v))
                }
                2 => {
                    // cut inside of the first record
                    let v = vec![if r.chance(1, 2) { srv } else { txt }];
                    let b = packet(r, 0, true, &qs, v);
                    ("cut_off_packets", cut(r, b))
                }
                3 => {
                    let a = rr(r, &owner, Data::A([1, 2, 3, 4]));
                    let bad = rr(r, &owner, Data::Raw(ty::SRV, vec![0, 0, 1]));
                    let p = rr(r, &owner, Data::PTR(owner.clone()));
                    ("other_records", packet(r, 0, true, &qs, vec![a, bad, p]))
                }
                _ => ("noise_packets", noise(r)),
            };
            counts.push(k);
            log.push(format!("{k} {}", hex(&b)));
            packets.push(b);
        };
        for _ in 0..r.below(4) {
            decoy(r, &mut packets, &mut counts, &mut log);
        }
        let foreign: Loaded = (vec![b"foreign".to_vec()], 666, vec![("foreign".into(), None)]);
        if kind == 3 {
            let other = join(&[b"not-the-instance", b"_x", b"_tcp"], &dom);
            let v = vec![
                rr(r, &other, Data::SRV(0, 0, foreign.1, foreign.0.clone())),
                rr(r, &other, txt_data(&foreign.2)),
            ];
            let b = packet(r, 0, true, &[], v);
            log.push(format!("of somebody else {}", hex(&b)));
            packets.push(b);
        }
        let srv_first = r.chance(1, 2);
        let one = r.chance(1, 2);
        match kind {
            1 => {
                counts.push("without_srv");
                if r.chance(1, 2) {
                    let b = packet(r, 0, true, &qs, vec![txt_rr]);
                    log.push(format!("TXT {}", hex(&b)));
                    packets.push(b);
                }
            }
            2 => {
                counts.push("without_txt");
                let b = packet(r, 0, true, &qs, vec![srv]);
                log.push(format!("SRV {}", hex(&b)));
                packets.push(b);
            }
            _ => {
                counts.push(if srv_first { "srv_before_txt" } else { "txt_before_srv" });
                counts.push(if one { "one_packet" } else { "separate_packets" });
                let (mut first, mut second) = if srv_first {
                    (vec![srv.clone()], vec![txt_rr.clone()])
                } else {
                    (vec![txt_rr.clone()], vec![srv.clone()])
                };
                if r.chance(1, 3) {
                    // Further SRV records of the same priority: the first one counts.
                    counts.push("several_srv");
                    let Data::SRV(p, w, ..) = &srv.data else { unreachable!() };
                    for i in 0..r.range(1, 2) {
                        let x = rr(r, &owner, Data::SRV(*p, *w, port.wrapping_add(1 + i as u16), vec![b"second".to_vec()]));
                        if srv_first && r.chance(2, 3) {
                            first.push(x);
                        } else {
                            second.push(x);
                        }
                    }
                    if r.chance(1, 3) {
                        // repeated, with the same contents
                        second.push(txt_rr.clone());
                    }
                }
                if one {
                    let mut v = first;
                    v.append(&mut second);
                    if r.chance(1, 3) {
                        let x = rr(r, &owner, Data::A([9, 9, 9, 9]));
                        let at = r.below(3);
                        v.insert(at, x);
                    }
                    if r.chance(1, 4) {
                        let x = rr(r, &owner, Data::Raw(ty::MX, vec![0]));
                        let at = r.below(v.len() + 1);
                        v.insert(at, x);
                    }
                    let full = if r.chance(1, 8) { full_packet(r, v.clone()) } else { None };
                    if full.is_some() {
                        counts.push("full_packets");
                    }
                    let b = full.unwrap_or_else(|| packet(r, 0, true, &qs, v));
                    log.push(format!("both {}", hex(&b)));
                    packets.push(b);
                } else {
                    let b = packet(r, 0, true, &qs, first);
                    log.push(format!("first {}", hex(&b)));
                    packets.push(b);
                    for _ in 0..r.below(2) {
                        decoy(r, &mut packets, &mut counts, &mut log);
                    }
                    let b = packet(r, 0, true, &qs, second);
                    log.push(format!("second {}", hex(&b)));
                    packets.push(b);
                }
            }
        }
        c.note = format!("{what} details of {}; {}", name_str(&owner), log.join("; "));
        let want = match kind {
            2 => (want.0, want.1, vec![]),
            _ => want,
        };
        let mut result = None;
        // Where nothing ends the call but the timeout, a failure has to recur at longer timeouts.
        let scales: &[u64] = if kind == 1 || kind == 2 { &[60, 400, 3000] } else { &[0] };
        let slow = if kind == 1 || kind == 2 { None } else { pace(&mut c.rng, 40) };
        for ms in scales {
            let dt = if *ms == 0 { LONG } else { Duration::from_millis(*ms) };
            d.timeouts(if *ms == 0 { slow.unwrap_or(NO_RETRANSMIT) } else { dt / 2 }, dt);
            let i2 = inst.clone();
            let mut call = net::call("load_instance_details", move || {
                let t = Instant::now();
                let r = d.details(&i2).map(|d| loaded(&d)).map_err(|e| e.kind());
                (d, r, t.elapsed())
            });
            let Some((id, client)) = query(&server, &mut call, &owner, &[ty::SRV, ty::TXT])? else {
                let (_, r, _) = call.wait()?;
                return Err(format!("returned {r:?} without a query").into());
            };
            for b in &mut packets {
                if b.len() >= 2 {
                    b[..2].copy_from_slice(&id.to_be_bytes());
                }
                if let Some(rt) = slow {
                    linger(&mut c.rng, rt);
                }
                net::send(&server, b, (net::loopback(v6), client.port()).into());
            }
            let sent = Instant::now();
            let started = call.started;
            let (d2, r, took) = call.wait()?;
            d = d2;
            if took >= LONG && sent - started > LONG / 2 {
                return Err(Fail::Inconclusive("server thread was late".into()));
            }
            retransmitted(c, &server, id, &owner, &[ty::SRV, ty::TXT])?;
            if kind == 1 {
                ensure!(
                    r == Err(io::ErrorKind::TimedOut),
                    "no SRV record was sent, the result is {r:?}"
                );
                ensure!(took + EARLY >= dt, "gave up after {took:?}, the timeout is {dt:?}");
            }
            let good = kind == 1 || r.as_ref() == Ok(&want);
            result = Some(r);
            if good {
                break;
            }
        }
        let r = result.unwrap();
        if kind == 3 {
            c.count("foreign_owner", 1);
        }
        if kind == 3 && r.as_ref().is_ok_and(|x| *x == foreign) {
            return Err(Fail::Known {
                sig: "foreign-owner-accepted",
                what: format!("asked for {}, was given the SRV and TXT records of another name", name_str(&owner)),
            });
        }
        ensure!(kind == 1 || r.as_ref() == Ok(&want), "details are {r:?}, expected {want:?}");
        c.count(if is_async { "async_discoveries" } else { "sync_discoveries" }, 1);
        c.count("slow_servers", slow.is_some().into());
        c.count("empty_txt", txt.is_empty().into());
        c.count("txt_values", txt.iter().filter(|x| x.1.is_some()).count() as u64);
        for k in counts {
            c.count(k, 1);
        }
        let h = packets.iter().fold(3u64, |h, b| h.rotate_left(7) ^ hash_bytes(b));
        c.nontrivial(h, || format!("{what}: {} -> {r:?}", name_str(&owner)));
    }
    let _ = lower;
    Ok(())
}
