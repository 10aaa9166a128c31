//! C22: the advertisers that own a socket, each in a network of its own. Also the means to run
//! them, for the end-to-end monitor.

use crate::props::soak;
use crate::ensure;
use crate::gen;
use crate::mon::{hex, no_panic, Case, Fail, Prop, Verdict};
use crate::net::{self, Call};
use crate::props::advertiser::{self, Reg};
use crate::refdns::{self, Q};
use crate::rng::hash_bytes;
use std::collections::VecDeque;
use std::io;
use std::net::{Ipv4Addr, SocketAddr, UdpSocket};
use std::pin::pin;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::{Duration, Instant};
use uwuhi::name::Label;
use uwuhi::service::advertising::SyncAdvertiser;
use uwuhi_async::service::advertising::AsyncAdvertiser;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "case = one advertiser (sync and async in turns) in a fresh network namespace, 6 batches of 1-8 datagrams (queries by unicast and multicast from three clients, near misses, responses, hostile bytes, empty and oversized datagrams, clients that are gone, spoofed sources that cannot be replied to), each followed by a fence query; the datagrams each client gets are compared with the replies of the I/O-less advertiser and with the registered records; non-trivial = batch with at least one expected reply and one datagram that must not be replied to",
        quick: 6_000,
        thorough: 150_000,
        threads: 0,
        run: c22,
        required: &["long_histories", "sync_advertisers", "async_advertisers", "unicast_queries", "multicast_queries", "replies_compared", "unanswered_queries", "hostile_datagrams", "empty_datagrams", "oversized_datagrams", "full_datagrams", "clients_gone", "source_port_0", "unroutable_sources", "registered_while_running", "fences"],
    }]
}

enum Cmd {
    /// Says when it is done.
    Register(Reg, Sender<()>),
    /// Drops the operation and starts it anew.
    Again,
    Stop,
}

#[derive(Default)]
struct Mailbox {
    cmds: VecDeque<Cmd>,
    waker: Option<Waker>,
}

/// A running advertiser.
pub struct Server {
    pub call: Call<io::Result<()>>,
    mailbox: Arc<Mutex<Mailbox>>,
    pub is_async: bool,
    tid: Receiver<i32>,
}

impl Server {
    pub fn start(is_async: bool, regs: &[Reg]) -> Self {
        let mailbox = Arc::new(Mutex::new(Mailbox::default()));
        let mb = mailbox.clone();
        let regs = regs.to_vec();
        let Reg::Name(n, ip) = regs[0].clone() else {
            panic!("harness: first registration is the host")
        };
        let (tx, tid) = channel();
        let call = if is_async {
            net::call("AsyncAdvertiser", move || {
                let mut a = AsyncAdvertiser::new(Label::new(&n), ip)?;
                let reg = |a: &mut AsyncAdvertiser, r: &Reg| match r {
                    Reg::Name(n, ip) => a.add_name(Label::new(n), *ip),
                    Reg::Inst(i) => a.add_instance(i.instance(), i.details()),
                };
                for r in &regs[1..] {
                    reg(&mut a, r);
                }
                loop {
                    let next = std::future::poll_fn(|cx| {
                        let mut m = mb.lock().unwrap();
                        match m.cmds.pop_front() {
                            Some(c) => Poll::Ready(c),
                            None => {
                                m.waker = Some(cx.waker().clone());
                                Poll::Pending
                            }
                        }
                    });
                    enum Ev {
                        Listen(io::Result<()>),
                        Cmd(Cmd),
                    }
                    let ev = {
                        let listen = pin!(a.listen());
                        futures_lite::future::block_on(futures_lite::future::or(
                            async { Ev::Cmd(next.await) },
                            async { Ev::Listen(listen.await) },
                        ))
                    };
                    match ev {
                        Ev::Listen(r) => return r,
                        Ev::Cmd(Cmd::Again) => {}
                        Ev::Cmd(Cmd::Stop) => return Ok(()),
                        Ev::Cmd(Cmd::Register(r, done)) => {
                            reg(&mut a, &r);
                            let _ = done.send(());
                        }
                    }
                }
            })
        } else {
            net::call("SyncAdvertiser", move || {
                let _ = tx.send(net::thread_id());
                let mut a = SyncAdvertiser::new(Label::new(&n), ip)?;
                for r in &regs[1..] {
                    match r {
                        Reg::Name(n, ip) => a.add_name(Label::new(n), *ip),
                        Reg::Inst(i) => a.add_instance(i.instance(), i.details()),
                    }
                }
                a.listen_blocking()
            })
        };
        Self {
            call,
            mailbox,
            is_async,
            tid,
        }
    }

    fn command(&self, c: Cmd) {
        let mut m = self.mailbox.lock().unwrap();
        m.cmds.push_back(c);
        if let Some(w) = m.waker.take() {
            w.wake();
        }
    }

    /// Registers something while the (async) advertiser runs, and waits until that is done.
    pub fn register(&self, r: &Reg) {
        let (tx, done) = channel();
        self.command(Cmd::Register(r.clone(), tx));
        // (If that does not happen, the queries that follow are not answered either.)
        let _ = done.recv_timeout(net::HANG);
    }

    /// Has the (async) advertiser's operation dropped and started again.
    pub fn relisten(&self) {
        self.command(Cmd::Again);
    }

    /// Ends the advertiser; whether that worked.
    pub fn end(&mut self) -> bool {
        self.command(Cmd::Stop);
        if self.is_async {
            let t = Instant::now();
            while !self.call.finished() && t.elapsed() < net::HANG {
                std::thread::sleep(Duration::from_micros(100));
            }
            return self.call.finished();
        }
        if self.call.finished() {
            return true;
        }
        // A blocking advertiser has no way to be ended. If this does not work, it stays behind in
        // its network.
        let Ok(tid) = self.tid.recv_timeout(Duration::from_millis(100)) else {
            return false;
        };
        let call = &mut self.call;
        net::end_listener(tid, || call.finished())
    }

    /// `Err` if the advertiser is not running any more.
    pub fn alive(&mut self) -> Verdict {
        if !self.call.finished() {
            return Ok(());
        }
        let kind = if self.is_async { "AsyncAdvertiser::listen" } else { "SyncAdvertiser::listen_blocking" };
        match self.call.result() {
            Some(Err(panic)) => Err(Fail::Violation(panic.clone())),
            Some(Ok(r)) => Err(Fail::Violation(format!("{kind} returned {r:?}"))),
            None => Err(Fail::Inconclusive("advertiser thread died".into())),
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        if self.is_async {
            self.command(Cmd::Stop);
        } else {
            self.end();
        }
    }
}

pub fn host_question(regs: &[Reg]) -> Q {
    let Reg::Name(n, ip) = &regs[0] else {
        panic!("harness: first registration is the host")
    };
    let (name, d) = advertiser::host_record(n, *ip);
    Q {
        name,
        ty: d.ty(),
        class: 1,
        qu: false,
    }
}

pub fn plain_query(id: u16, q: &Q) -> Vec<u8> {
    refdns::write_plain(&refdns::Msg {
        id,
        q: vec![q.clone()],
        ..Default::default()
    })
}

/// Sends `q` to `to` until it is answered; returns the reply. `ids`: source of fresh IDs.
pub fn ask_until_answered(
    s: &UdpSocket,
    to: SocketAddr,
    q: &Q,
    ids: &mut u16,
    server: &mut Server,
) -> Result<Vec<u8>, Fail> {
    let t = Instant::now();
    let first = *ids;
    let mut tries = 0;
    let mut wait = 10;
    while t.elapsed() < net::HANG {
        server.alive()?;
        tries += 1;
        let id = *ids;
        *ids += 1;
        net::send(s, &plain_query(id, q), to);
        if let Some((b, _)) = net::recv_for(s, Duration::from_millis(wait)) {
            if b.len() >= 2 && (first..*ids).contains(&u16::from_be_bytes([b[0], b[1]])) {
                return Ok(b);
            }
        }
        wait = (wait * 2).min(2000);
    }
    server.alive()?;
    Err(Fail::Violation(format!(
        "none of {tries} queries for {} sent to {to} over {} s was answered",
        refdns::name_str(&q.name),
        net::HANG.as_secs()
    )))
}

/// What a reply says, independent of the order of its records.
fn canon(b: &[u8]) -> String {
    match refdns::parse(b) {
        Err(_) => format!("unreadable {}", hex(b)),
        Ok(p) => {
            let items = if p.hdr.flags & refdns::TC != 0 {
                vec![]
            } else {
                advertiser::sorted_items(&p)
            };
            format!("{:04x} {:04x} {items:?}", p.hdr.id, p.hdr.flags)
        }
    }
}

struct Client {
    s: UdpSocket,
    expect: Vec<String>,
    /// Replies to oversized datagrams.
    tolerated: Vec<String>,
}

pub fn c22(c: &mut Case<'_>) -> Verdict {
    if soak::due(c) {
        return soak::served(c);
    }
    net::pin();
    // Every now and then the requesters are on another host than the advertiser.
    let other = net::sometimes_linked(c)?;
    let is_async = c.idx % 2 == 1;
    let mut regs = advertiser::random_regs(&mut c.rng);
    let mut late = vec![];
    if is_async {
        while regs.len() > 2 && late.len() < 2 {
            late.push(regs.pop().unwrap());
        }
    }
    let mut recs = advertiser::records(&regs);
    let mut twin = advertiser::build(&regs)?;
    let mut srv = Server::start(is_async, &regs);
    c.count(if is_async { "async_advertisers" } else { "sync_advertisers" }, 1);
    let what = if is_async { "AsyncAdvertiser" } else { "SyncAdvertiser" };
    c.note = format!("{what} {regs:?}");

    if let Some(o) = &other {
        o.enter().map_err(Fail::Inconclusive)?;
    }
    let bind = |last: u8| {
        let own = other.as_ref().map_or(Ipv4Addr::new(127, 0, 0, last), |o| o.far());
        UdpSocket::bind((own, 0)).expect("harness: bind")
    };
    let advertiser = other.as_ref().map_or(Ipv4Addr::LOCALHOST, |o| o.near());
    let unicast: SocketAddr = (advertiser, net::MDNS_PORT).into();
    let group: SocketAddr = (net::GROUP, net::MDNS_PORT).into();
    let mut clients: Vec<Client> = (1..4)
        .map(|i| Client { s: bind(i), expect: vec![], tolerated: vec![] })
        .collect();
    let bystander = bind(1);
    // Sees everything that goes to the group.
    let witness = {
        let s = socket2::Socket::new(
            socket2::Domain::IPV4,
            socket2::Type::DGRAM,
            Some(socket2::Protocol::UDP),
        )
        .expect("harness: socket");
        s.set_reuse_address(true).expect("harness: reuse");
        s.bind(&group.into()).expect("harness: bind to the group");
        let s = UdpSocket::from(s);
        s.join_multicast_v4(&net::GROUP, &Ipv4Addr::UNSPECIFIED).expect("harness: join");
        s
    };
    let fence_q = host_question(&regs);
    let mut ids = 0x4000u16;
    {
        let s = bind(1);
        ask_until_answered(&s, unicast, &fence_q, &mut ids, &mut srv)?;
        ask_until_answered(&s, group, &fence_q, &mut ids, &mut srv)?;
    }
    net::drain(&witness);
    let fencer = bind(1);
    let mut next_id = 0x8000u16;
    let mut log: Vec<String> = vec![];
    for batch in 0..6 {
        if c.rng.chance(1, 3) {
            if let Some(r) = late.pop() {
                srv.register(&r);
                no_panic("registration", || advertiser::register(&mut twin, &r))?;
                log.push(format!("registered {r:?}"));
                recs.extend(advertiser::records(std::slice::from_ref(&r)));
                // The command is taken at the latest with the next wakeup; wait for its effect.
                let q = match &r {
                    Reg::Name(n, ip) => {
                        let (name, d) = advertiser::host_record(n, *ip);
                        Q { name, ty: d.ty(), class: 1, qu: false }
                    }
                    Reg::Inst(i) => Q { name: i.domain(), ty: refdns::ty::SRV, class: 1, qu: false },
                };
                let want = advertiser::expected_answers(&recs, std::slice::from_ref(&q));
                let s = bind(2);
                let t = Instant::now();
                let mut id = 0x3000;
                loop {
                    let b = ask_until_answered(&s, unicast, &q, &mut id, &mut srv)?;
                    let got = refdns::parse(&b).map_or(0, |p| p.items.len());
                    if got >= want.len() || b.len() > 1200 {
                        break;
                    }
                    ensure!(
                        t.elapsed() < net::HANG,
                        "{r:?} was registered, but is not served: {}",
                        hex(&b)
                    );
                }
                c.count("registered_while_running", 1);
            }
        }
        let n = c.rng.range(1, 8);
        let (mut expected, mut silent) = (0, 0);
        let mut h = 0;
        let mut kinds: Vec<&str> = vec![];
        for _ in 0..n {
            c.evals(1);
            let i = c.rng.below(clients.len());
            let multicast = c.rng.chance(1, 2);
            let to = if multicast { group } else { unicast };
            let r = &mut c.rng;
            let id = next_id;
            let kind = r.below(17);
            // A query that certainly is answered.
            let sure = Q {
                name: advertiser::scramble_case(r, &fence_q.name),
                ..fence_q.clone()
            };
            let b = match kind {
                0..=7 => {
                    next_id += 1;
                    let id = if r.chance(1, 4) { *r.pick(&[0u16, 0, 1, 0xff, 0x100, 0xffff, 12345]) } else { id };
                    let mut qs = vec![];
                    for _ in 0..*r.pick(&[1, 1, 2, 3]) {
                        qs.push(advertiser::random_question(r, &recs).0);
                    }
                    let extra = r.chance(1, 6);
                    let flags = *r.pick(&[0u16, refdns::RD]);
                    let b = advertiser::query_bytes(r, id, flags, &qs, extra);
                    c.count(if multicast { "multicast_queries" } else { "unicast_queries" }, 1);
                    let reply = twin_reply(&mut twin, &b)?;
                    advertiser::judge_reply(reply.as_deref(), id, &qs, &recs)?;
                    c.count("unanswered_queries", reply.is_none().into());
                    b
                }
                8 => {
                    next_id += 1;
                    kinds.push("responses_sent");
                    advertiser::query_bytes(r, id, refdns::QR, &[sure], true)
                }
                9 => {
                    kinds.push("empty_datagrams");
                    vec![]
                }
                10 => {
                    // a query whose tail does not fit the receive buffer
                    kinds.push("oversized_datagrams");
                    next_id += 1;
                    let mut b = plain_query(id, &sure);
                    let n = *r.pick(&[1501usize, 1502, 4000, 9000]);
                    let fill = r.bytes(n - b.len());
                    b.extend(fill);
                    if r.chance(1, 2) {
                        b[11] = r.u8();
                    }
                    b
                }
                16 => {
                    // as large as a datagram can be, with the answered question at its end
                    kinds.push("full_datagrams");
                    next_id += 1;
                    let size = if r.chance(1, 2) { 1500 } else { r.range(1400, 1499) };
                    let mut left = size - 12 - refdns::name_wire_len(&sure.name) - 4;
                    let mut qs = vec![];
                    while left > 0 {
                        let mut k = left.min(r.range(30, 60));
                        if (1..7).contains(&(left - k)) {
                            k -= 7;
                        }
                        let name = vec![(0..k - 6).map(|_| *r.pick(b"abcxyz")).collect()];
                        qs.push(Q { name, ..fence_q.clone() });
                        left -= k;
                    }
                    qs.push(sure);
                    let b = refdns::write_plain(&refdns::Msg { id, q: qs.clone(), ..Default::default() });
                    debug_assert_eq!(b.len(), size);
                    let reply = twin_reply(&mut twin, &b)?;
                    advertiser::judge_reply(reply.as_deref(), id, &qs, &recs)?;
                    b
                }
                11 => {
                    // Gone before the reply arrives.
                    next_id += 1;
                    let gone = bind(1);
                    net::send(&gone, &plain_query(id, &sure), to);
                    drop(gone);
                    c.count("clients_gone", 1);
                    continue;
                }
                12 => {
                    next_id += 1;
                    let b = plain_query(id, &sure);
                    let (k, from, port) = match r.below(3) {
                        0 => ("source_port_0", Ipv4Addr::LOCALHOST, 0),
                        1 => ("unroutable_sources", Ipv4Addr::new(8, 8, 8, 8), 4000),
                        _ => ("unroutable_sources", Ipv4Addr::BROADCAST, 5353),
                    };
                    let dst = if multicast { net::GROUP } else { advertiser };
                    match net::send_spoofed(from, port, dst, &b) {
                        Ok(()) => c.count(k, 1),
                        Err(e) => return Err(Fail::Inconclusive(e)),
                    }
                    log.push(format!("{k} {}", hex(&b)));
                    silent += 1;
                    continue;
                }
                _ => {
                    kinds.push("hostile_datagrams");
                    let (mut b, _) = if r.chance(1, 2) {
                        gen::hostile(r)
                    } else {
                        let b = advertiser::query_bytes(r, 1, 0, &[sure.clone(), sure], true);
                        (gen::mutate(r, b, &[12, 13], &[]), gen::Origin::Noise)
                    };
                    b.truncate(9000);
                    b
                }
            };
            h ^= hash_bytes(&b);
            log.push(format!("client {i} {} {}", if multicast { "multicast" } else { "unicast" }, hex(&b)));
            let seen = &b[..b.len().min(uwuhi::MDNS_BUFFER_SIZE)];
            if b.len() > uwuhi::MDNS_BUFFER_SIZE {
                // Neither how much of it is looked at nor whether it is answered is specified.
                for x in [seen, &b] {
                    if let Some(r) = twin_reply(&mut twin, x)? {
                        clients[i].tolerated.push(canon(&r));
                    }
                }
                net::send(&clients[i].s, &b, to);
                continue;
            }
            match twin_reply(&mut twin, seen)? {
                Some(r) => {
                    expected += 1;
                    clients[i].expect.push(canon(&r));
                }
                None => silent += 1,
            }
            net::send(&clients[i].s, &b, to);
        }
        c.note = format!("{what} {regs:?}; batch {batch}; {}", log.join("; "));
        // Everything sent before it has been handled when the fence is answered.
        let reply = ask_until_answered(&fencer, unicast, &fence_q, &mut ids, &mut srv)?;
        let id = u16::from_be_bytes([reply[0], reply[1]]);
        advertiser::judge_reply(Some(&reply), id, std::slice::from_ref(&fence_q), &recs)?;
        c.count("fences", 1);
        net::drain(&fencer);
        for (i, cl) in clients.iter_mut().enumerate() {
            let mut missing = std::mem::take(&mut cl.expect);
            let mut got: VecDeque<Vec<u8>> = VecDeque::new();
            loop {
                if !missing.is_empty() {
                    if let Some((b, from)) = net::recv_for(&cl.s, Duration::from_secs(15)) {
                        ensure!(from.port() == net::MDNS_PORT, "reply from {from}");
                        got.push_back(b);
                    }
                } else {
                    got.extend(net::drain(&cl.s));
                }
                let Some(b) = got.pop_front() else { break };
                let k = canon(&b);
                let Some(at) = missing.iter().position(|m| *m == k) else {
                    if cl.tolerated.contains(&k) {
                        continue;
                    }
                    return Err(format!(
                        "client {i} received {}, expected {missing:?}",
                        hex(&b)
                    )
                    .into());
                };
                missing.swap_remove(at);
                c.count("replies_compared", 1);
            }
            ensure!(missing.is_empty(), "client {i} did not get {missing:?}");
        }
        ensure!(net::drain(&bystander).is_empty(), "a client that asked nothing got a datagram");
        for b in net::drain(&witness) {
            let reply = b.len() >= 4 && b[2] & 0x80 != 0 && !log.iter().any(|l| l.ends_with(&hex(&b)));
            ensure!(!reply, "the group was sent {}, which no client sent", hex(&b));
        }
        srv.alive()?;
        if expected > 0 && silent > 0 {
            let s = log.join("; ");
            c.nontrivial(h, || format!("{what}: {s}"));
        }
        for k in kinds {
            c.count(k, 1);
        }
        c.count("expected_replies", expected);
        c.count("silent_datagrams", silent);
        log.clear();
    }
    Ok(())
}

fn twin_reply(
    twin: &mut uwuhi::service::advertising::Advertiser,
    b: &[u8],
) -> Result<Option<Vec<u8>>, String> {
    no_panic("handle_packet", || {
        twin.handle_packet(b).ok().flatten().map(<[u8]>::to_vec)
    })
}
