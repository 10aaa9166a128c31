//! C30: what happens when the system refuses what an operation needs, and after that.

use crate::ensure;
use crate::mon::{self, Case, Fail, Prop, Verdict};
use crate::net::{self, Call};
use crate::props::discovery::{self, Disc, Seen};
use crate::props::resolver::{How, Resolver};
use crate::props::sockets::{self, Server};
use crate::props::{advertiser, soak};
use crate::refdns::{ty, Data, Name, Q};
use crate::rng::hash_bytes;
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, UdpSocket};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, Instant};
use uwuhi::name::Label;
use uwuhi::service::advertising::SyncAdvertiser;
use uwuhi::service::{Service, ServiceInstance};
use uwuhi::tap::SyncTap;
use uwuhi_async::service::advertising::AsyncAdvertiser;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "case = a client, advertiser or tap in a network of its own that something happens to: the network goes down before or during an operation, a server is not reachable or not running yet, port 5353 is taken, there is no network for multicast, no file descriptor is left, or the network goes down and up under an advertiser or tap that listens; afterwards the same object is used in a network that works; non-trivial = every case",
        quick: 1_600,
        thorough: 100_000,
        threads: 0,
        run: c30,
        required: &[
            "unreachable", "no_route", "interrupted_midway", "server_restarts", "port_taken", "no_multicast", "no_descriptors", "recovered",
            "one_server_unreachable", "advertisers_survived", "taps_survived", "async_clients", "sync_clients", "errors_reported",
        ],
    }]
}

/// The limit of file descriptors is that of the process: held for writing while it is lowered.
static DESCRIPTORS: RwLock<()> = RwLock::new(());

struct Exhausted(libc::rlimit);

impl Exhausted {
    fn new() -> Self {
        // SAFETY: valid pointers.
        unsafe {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
            let none = libc::rlimit { rlim_cur: 0, ..l };
            libc::setrlimit(libc::RLIMIT_NOFILE, &none);
            Self(l)
        }
    }
}

impl Drop for Exhausted {
    fn drop(&mut self) {
        // SAFETY: valid pointer.
        unsafe {
            libc::setrlimit(libc::RLIMIT_NOFILE, &self.0);
        }
    }
}

pub enum Client {
    Resolver(Resolver),
    Disc(Disc, usize),
}

const OPS: [&str; 4] = ["resolve", "discover_instances", "discover_service_types", "load_instance_details"];

/// What an operation returned, and what it found.
pub type Got = (io::Result<()>, Vec<String>);

impl Client {
    pub fn new(op: usize, is_async: bool, server: SocketAddr) -> io::Result<Self> {
        Ok(match op {
            0 => Self::Resolver(Resolver::new(is_async, server)?),
            _ => Self::Disc(Disc::new(is_async, server, &local())?, op),
        })
    }

    pub fn timeout(&mut self, retransmit: Duration, timeout: Duration) {
        match self {
            Self::Resolver(r) => r.set_timeout(timeout),
            Self::Disc(d, _) => d.timeouts(retransmit, timeout),
        }
    }

    /// Asks for something that `answer` has an answer for.
    pub fn run(&mut self, n: u32) -> Got {
        let service = Service::new(Label::new(format!("_svc-{n}")), discovery::transport(n % 2 == 0));
        match self {
            Self::Resolver(r) => match r.resolve(&How::Str(format!("host-{n}.local"))) {
                Ok(v) => (Ok(()), v.iter().map(|i| i.to_string()).collect()),
                Err(e) => (Err(e), vec![]),
            },
            Self::Disc(d, 3) => match d.details(&ServiceInstance::from_service(Label::new(format!("inst-{n}")), service)) {
                Ok(x) => (Ok(()), vec![format!("{:?}", discovery::loaded(&x))]),
                Err(e) => (Err(e), vec![]),
            },
            Self::Disc(d, op) => {
                let seen = Seen::default();
                let r = match op {
                    1 => d.instances_until(&service, &seen, || true),
                    _ => d.types_until(&seen, || true),
                };
                let v = seen.lock().unwrap().iter().map(|b| discovery::show(b)).collect();
                (r, v)
            }
        }
    }
}

fn local() -> Name {
    vec![b"local".to_vec()]
}

pub fn answer(op: usize, n: u32, id: u16, name: &Name) -> Vec<Vec<u8>> {
    let data = match op {
        0 => vec![Data::A(n.to_be_bytes())],
        1 => vec![Data::PTR(discovery::join(&[format!("inst-{n}").as_bytes()], name))],
        2 => vec![Data::PTR(discovery::join(&[format!("_type-{n}").as_bytes(), b"_udp"], &local()))],
        _ => vec![
            Data::SRV(0, 0, n as u16, vec![format!("host-{n}").into_bytes(), b"local".to_vec()]),
            Data::TXT(vec![format!("n={n}").into_bytes()]),
        ],
    };
    vec![soak::plain_response(id, name, data)]
}

/// Whether `found` is what `answer` says.
pub fn is_answer(op: usize, n: u32, found: &[String]) -> bool {
    match found {
        [x] => match op {
            0 => *x == Ipv4Addr::from(n).to_string(),
            1 => x.contains(&format!("inst-{n}")) && x.contains(&format!("_svc-{n}")),
            2 => x.contains(&format!("_type-{n}")),
            _ => {
                let host: Name = vec![format!("host-{n}").into_bytes(), b"local".to_vec()];
                let want = (host, n as u16, vec![("n".to_string(), Some(n.to_string().into_bytes()))]);
                *x == format!("{want:?}")
            }
        },
        _ => false,
    }
}

type Shared = Arc<Mutex<Client>>;

fn start(client: &Shared, op: usize, n: u32) -> Call<Got> {
    let c = client.clone();
    net::call(OPS[op], move || c.lock().unwrap().run(n))
}

/// An operation when everything is fine.
fn healthy(client: &Shared, server: &UdpSocket, op: usize, n: u32, after: &str) -> Verdict {
    patient(client);
    working(client, server, op, n, after)
}

fn patient(client: &Shared) {
    client.lock().unwrap().timeout(Duration::from_secs(9), Duration::from_secs(18));
}

/// The same, with the timeouts as they are.
fn working(client: &Shared, server: &UdpSocket, op: usize, n: u32, after: &str) -> Verdict {
    net::drain(server);
    let mut call = start(client, op, n);
    soak::serve(server, &mut call, |id, name| {
        // A client that does not wait any more is not to be lucky.
        std::thread::sleep(Duration::from_millis(3));
        answer(op, n, id, name)
    })?;
    let (r, found) = call.wait()?;
    ensure!(
        r.is_ok() && is_answer(op, n, &found),
        "{after}, {} gave {r:?} and {found:?} although the answer {n} was sent",
        OPS[op]
    );
    Ok(())
}

fn clients(c: &mut Case<'_>, kind: usize) -> Verdict {
    let op = c.rng.below(4);
    let is_async = c.rng.chance(1, 2);
    c.count(if is_async { "async_clients" } else { "sync_clients" }, 1);
    // Without the route to it, it cannot be sent to; without the interface, what is sent is lost.
    let routed = kind < 2 && c.rng.chance(1, 2);
    let server = if routed {
        net::set_routed(true)?;
        let s = UdpSocket::bind((net::ROUTED, 0)).map_err(|e| Fail::Inconclusive(format!("bind: {e}")))?;
        s.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
        s
    } else {
        net::udp(false)
    };
    let network = |up| if routed { net::set_routed(up) } else { net::set_loopback(up) };
    let addr = server.local_addr().unwrap();
    let n = c.rng.range(1, 60_000) as u32;
    c.note = format!("{}, async {is_async}, n {n}, kind {kind}, routed {routed}", OPS[op]);
    let new = || Client::new(op, is_async, addr).map_err(|e| format!("client cannot be created: {e}"));
    match kind {
        // Down before the operation
        0 => {
            let client = Arc::new(Mutex::new(new()?));
            if c.rng.chance(1, 2) {
                healthy(&client, &server, op, n, "at first")?;
            }
            let ms = c.rng.range(20, 60) as u64;
            // The timeouts do not matter if nothing is sent.
            let once = routed && c.rng.chance(1, 2);
            patient(&client);
            for i in 0..c.rng.range(1, 3) as u32 {
                network(false)?;
                for _ in 0..c.rng.range(1, 3) {
                    if !once {
                        client.lock().unwrap().timeout(Duration::from_millis(ms / 4), Duration::from_millis(ms));
                    }
                    let (r, found) = start(&client, op, n).wait()?;
                    ensure!(
                        found.is_empty() && (r.is_err() || (!routed && matches!(op, 1 | 2))),
                        "{} gave {r:?} and {found:?} although its query could not be sent ({})",
                        OPS[op],
                        if routed { "there is no route" } else { "the interface is down" }
                    );
                    c.count("errors_reported", u64::from(r.is_err()));
                    c.count("no_route", u64::from(routed));
                }
                network(true)?;
                if !once {
                    patient(&client);
                }
                working(&client, &server, op, n + i + 1, "after the network was down")?;
                c.count("recovered", 1);
            }
            c.count("unreachable", 1);
        }
        // Down during the operation, which nobody answers
        1 => {
            let client = Arc::new(Mutex::new(new()?));
            let ms = c.rng.range(20, 60) as u64;
            client.lock().unwrap().timeout(Duration::from_millis(ms / 8), Duration::from_millis(ms));
            let after = Duration::from_micros(c.rng.below(ms as usize * 1000) as u64);
            let back = c.rng.chance(1, 3).then(|| Duration::from_micros(c.rng.below(ms as usize * 1000) as u64));
            let call = start(&client, op, n);
            std::thread::sleep(after);
            network(false)?;
            if let Some(d) = back {
                std::thread::sleep(d);
                network(true)?;
            }
            let (r, found) = call.wait()?;
            ensure!(
                found.is_empty() && (r.is_err() || matches!(op, 1 | 2)),
                "{} gave {r:?} and {found:?}; nobody answered, and the network went down",
                OPS[op]
            );
            if back.is_none() {
                network(true)?;
            }
            healthy(&client, &server, op, n + 1, "after the network went down during an operation")?;
            c.count("interrupted_midway", 1);
            c.count("recovered", 1);
        }
        // Nobody listens there, yet
        2 => {
            drop(server);
            let client = Arc::new(Mutex::new(new()?));
            let ms = c.rng.range(5, 25) as u64;
            client.lock().unwrap().timeout(Duration::from_millis(ms), Duration::from_millis(ms));
            let rounds = c.rng.range(1, 4);
            for _ in 0..rounds {
                let (_, found) = start(&client, op, n).wait()?;
                ensure!(found.is_empty(), "{} found {found:?} although there is no server", OPS[op]);
            }
            let server = UdpSocket::bind(addr).map_err(|e| Fail::Inconclusive(format!("bind: {e}")))?;
            server.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
            healthy(&client, &server, op, n + 1, "after the server was started")?;
            c.count("server_restarts", 1);
            c.count("recovered", 1);
        }
        // One of several servers cannot be reached
        3 => {
            net::set_routed(true)?;
            let far = UdpSocket::bind((net::ROUTED, 0)).map_err(|e| Fail::Inconclusive(format!("bind: {e}")))?;
            far.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
            net::set_routed(false)?;
            let dead = far.local_addr().unwrap();
            let first = c.rng.chance(1, 2);
            let mut r = Resolver::new(is_async, if first { dead } else { addr })
                .map_err(|e| format!("client cannot be created: {e}"))?;
            r.add_server(if first { addr } else { dead });
            r.set_timeout(Duration::from_secs(9));
            let client = Arc::new(Mutex::new(Client::Resolver(r)));
            let rounds = c.rng.range(1, 3) as u32;
            for i in 0..rounds + 1 {
                net::drain(&server);
                if i == rounds {
                    net::set_routed(true)?;
                }
                let mut call = start(&client, 0, n + i);
                soak::serve(&server, &mut call, |id, name| {
                    std::thread::sleep(Duration::from_millis(3));
                    answer(0, soak::number(name), id, name)
                })?;
                let (r, found) = call.wait()?;
                // Whether the other server's answer is still waited for is not specified. It may be
                // taken by a later resolution, then.
                ensure!(
                    (r.is_err() && i < rounds) || (0..=i).any(|i| is_answer(0, n + i, &found)),
                    "resolve gave {r:?} and {found:?}; one of two servers could {} be reached, the other answered {}",
                    if i < rounds { "not" } else { "now" },
                    n + i
                );
            }
            let got = net::recv_for(&far, Duration::from_secs(2));
            ensure!(got.is_some(), "a server that could not be reached for a while was not asked afterwards");
            c.count("one_server_unreachable", 1);
        }
        // No file descriptor left
        _ => {
            let client = Arc::new(Mutex::new(new()?));
            {
                let limit = Exhausted::new();
                let made = net::call("creating a client", move || Client::new(op, is_async, addr).map(drop)).wait();
                let used = healthy(&client, &server, op, n, "without a file descriptor left");
                drop(limit);
                let made = made?;
                used?;
                ensure!(made.is_err(), "a client was created without a file descriptor left");
                c.count("errors_reported", 1);
            }
            let client = Arc::new(Mutex::new(new()?));
            healthy(&client, &server, op, n + 1, "after there was no file descriptor left")?;
            c.count("no_descriptors", 1);
            c.count("recovered", 1);
        }
    }
    Ok(())
}

/// Sends `b` to `to` until something arrives.
fn ask(b: &[u8], ended: &mut dyn FnMut() -> Option<String>, what: &str) -> Verdict {
    let to: SocketAddr = (Ipv4Addr::LOCALHOST, net::MDNS_PORT).into();
    let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).map_err(|e| Fail::Inconclusive(format!("bind: {e}")))?;
    let t = Instant::now();
    let mut wait = 5;
    while t.elapsed() < net::HANG {
        net::send(&s, b, to);
        if net::recv_for(&s, Duration::from_millis(wait)).is_some() {
            return Ok(());
        }
        if let Some(e) = ended() {
            return Err(e.into());
        }
        wait = (wait * 2).min(1000);
    }
    Err(format!("{what} does not answer").into())
}

/// An advertiser or a tap that cannot be set up.
fn refused(c: &mut Case<'_>, cause: usize) -> Verdict {
    let what = c.rng.below(3);
    let name = ["SyncAdvertiser", "AsyncAdvertiser", "SyncTap"][what];
    c.note = format!("{name}, {}", ["port 5353 taken", "no network for multicast", "no file descriptor left"][cause]);
    let mut blocker = None;
    if cause == 1 {
        net::empty_network()?;
    }
    if cause == 0 {
        let at = if c.rng.chance(1, 3) { Ipv4Addr::LOCALHOST } else { Ipv4Addr::UNSPECIFIED };
        blocker = Some(UdpSocket::bind((at, net::MDNS_PORT)).map_err(|e| Fail::Inconclusive(format!("bind: {e}")))?);
    }
    let regs = advertiser::random_regs(&mut c.rng);
    let query = sockets::plain_query(1, &sockets::host_question(&regs));
    let limit = (cause == 2).then(Exhausted::new);
    let advertiser::Reg::Name(host, ip) = regs[0].clone() else {
        panic!("harness: first registration is the host")
    };
    let mut heal = Some(move || {
        drop(limit);
        drop(blocker);
        if cause == 1 {
            net::set_loopback(true)?;
        }
        Ok::<(), Fail>(())
    });
    let mut heal = move || heal.take().map_or(Ok(()), |f| f());
    let why = c.note.clone();
    let tries = c.rng.range(1, 3);
    match what {
        0 => {
            let (tx, rx) = channel();
            let (go, gone) = channel::<()>();
            let mut call = net::call(name, move || {
                let tid = net::thread_id();
                let mut a = SyncAdvertiser::new(Label::new(&host), ip)?;
                for _ in 0..tries {
                    let r = a.listen_blocking();
                    let _ = tx.send((r, tid));
                }
                let _ = gone.recv();
                a.listen_blocking()
            });
            let mut tid = 0;
            let mut bad = None;
            for _ in 0..tries {
                match rx.recv_timeout(net::HANG) {
                    Ok((Err(_), t)) => tid = t,
                    Ok((r, _)) => bad = Some(format!("SyncAdvertiser::listen_blocking returned {r:?} ({why})")),
                    Err(_) if call.finished() => break,
                    Err(_) => {
                        bad = Some(format!("SyncAdvertiser::listen_blocking neither works nor returns ({why})"));
                        break;
                    }
                }
            }
            heal()?;
            if let Some(b) = bad {
                drop(go);
                return Err(b.into());
            }
            let _ = go.send(());
            let v = ask(
                &query,
                &mut || call.finished().then(|| format!("SyncAdvertiser::listen_blocking: {:?} (after: {why})", call.result())),
                name,
            );
            if tid != 0 {
                net::end_listener(tid, || call.finished());
            }
            v?;
        }
        1 => {
            let call = net::call(name, move || {
                let mut v = vec![];
                for _ in 0..tries {
                    v.push(AsyncAdvertiser::new(Label::new(&host), ip).map(drop));
                }
                v
            });
            let r = call.wait();
            heal()?;
            let r = r?;
            ensure!(r.iter().all(|r| r.is_err()), "AsyncAdvertiser::new returned {r:?} ({why})");
            let mut srv = Server::start(true, &regs);
            ask(&query, &mut || srv.alive().err().map(|e| format!("{e:?}")), name)?;
        }
        _ => {
            let call = net::call(name, move || (0..tries).map(|_| SyncTap::new().map(drop)).collect::<Vec<_>>());
            let r = call.wait();
            heal()?;
            let r = r?;
            ensure!(r.iter().all(|r| r.is_err()), "SyncTap::new returned {r:?} ({why})");
            let r = net::call(name, || SyncTap::new().map(drop)).wait()?;
            ensure!(r.is_ok(), "SyncTap::new returned {r:?} (after: {why})");
        }
    }
    c.count(["port_taken", "no_multicast", "no_descriptors"][cause], 1);
    c.count("errors_reported", tries as u64);
    c.count("recovered", 1);
    Ok(())
}

/// The network goes down and up under a listening advertiser.
fn listening(c: &mut Case<'_>) -> Verdict {
    let is_async = c.rng.chance(1, 2);
    let regs = advertiser::random_regs(&mut c.rng);
    let host = sockets::host_question(&regs);
    c.note = format!("advertiser, async {is_async}, {regs:?}");
    let to: SocketAddr = (Ipv4Addr::LOCALHOST, net::MDNS_PORT).into();
    let group: SocketAddr = (net::GROUP, net::MDNS_PORT).into();
    let mut srv = Server::start(is_async, &regs);
    let mut ids = 1;
    let bind = || UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("harness: bind");
    sockets::ask_until_answered(&bind(), to, &host, &mut ids, &mut srv)?;
    for _ in 0..c.rng.range(1, 3) {
        let s = bind();
        for _ in 0..c.rng.below(6) {
            net::send(&s, &sockets::plain_query(ids, &host), to);
            ids += 1;
        }
        if c.rng.chance(1, 3) {
            drop(s);
        }
        net::set_loopback(false)?;
        std::thread::sleep(Duration::from_micros(c.rng.below(3000) as u64));
        srv.alive()?;
        net::set_loopback(true)?;
        sockets::ask_until_answered(&bind(), to, &host, &mut ids, &mut srv)?;
        sockets::ask_until_answered(&bind(), group, &host, &mut ids, &mut srv)?;
    }
    srv.alive()?;
    c.count("advertisers_survived", 1);
    c.count("recovered", 1);
    Ok(())
}

/// The network goes down and up under a tap.
fn tapping(c: &mut Case<'_>) -> Verdict {
    c.note = "tap".into();
    let lines = Arc::new(Mutex::new(Vec::<String>::with_capacity(4096)));
    let sink = lines.clone();
    let (tx, tid) = channel();
    let mut tap = net::call("SyncTap", move || {
        let _ = tx.send(net::thread_id());
        mon::capture_log(sink);
        SyncTap::new()?.listen()
    });
    let mut serial = 0;
    let mut logged = |tap: &mut Call<io::Result<()>>, to: IpAddr| -> Verdict {
        let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("harness: bind");
        let t = Instant::now();
        let mut wait = 5;
        while t.elapsed() < net::HANG {
            serial += 1;
            let m = format!("fence{serial}ecnef");
            let q = Q { name: vec![m.clone().into_bytes()], ty: ty::A, class: 1, qu: false };
            net::send(&s, &sockets::plain_query(1, &q), (to, net::MDNS_PORT).into());
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(wait) {
                if lines.lock().unwrap().iter().any(|l| l.contains(&m)) {
                    return Ok(());
                }
                if tap.finished() {
                    return Err(format!("the tap ended with {:?}", tap.result()).into());
                }
                std::thread::sleep(Duration::from_micros(30));
            }
            wait = (wait * 2).min(1000);
        }
        Err("messages are not logged any more".to_string().into())
    };
    let mut go = || -> Verdict {
        logged(&mut tap, Ipv4Addr::LOCALHOST.into())?;
        for _ in 0..c.rng.range(1, 3) {
            net::set_loopback(false)?;
            std::thread::sleep(Duration::from_micros(c.rng.below(3000) as u64));
            net::set_loopback(true)?;
            logged(&mut tap, Ipv4Addr::LOCALHOST.into())?;
            logged(&mut tap, net::GROUP.into())?;
        }
        Ok(())
    };
    let v = go();
    if let Ok(tid) = tid.recv_timeout(Duration::from_millis(100)) {
        net::end_listener(tid, || tap.finished());
    }
    v?;
    c.count("taps_survived", 1);
    c.count("recovered", 1);
    Ok(())
}

fn c30(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let kind = c.rng.below(16);
    // Few of them: nothing else runs meanwhile.
    let alone = kind == 15;
    let reading = (!alone).then(|| DESCRIPTORS.read().unwrap_or_else(|e| e.into_inner()));
    let writing = alone.then(|| DESCRIPTORS.write().unwrap_or_else(|e| e.into_inner()));
    net::fresh_network()?;
    let r = match kind {
        0..=2 => clients(c, 0),
        3..=5 => clients(c, 1),
        6 | 7 => clients(c, 2),
        8 | 9 => clients(c, 3),
        10 | 11 => {
            let cause = c.rng.below(2);
            refused(c, cause)
        }
        12 | 13 => listening(c),
        14 => tapping(c),
        _ if c.rng.chance(1, 2) => refused(c, 2),
        _ => clients(c, 4),
    };
    drop((reading, writing));
    r?;
    let idx = c.idx;
    let note = c.note.clone();
    c.nontrivial(hash_bytes(&idx.to_be_bytes()), || note);
    Ok(())
}
