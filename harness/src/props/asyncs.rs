//! C25: the async clients and the async advertiser as citizens of their executor.

use crate::ensure;
use crate::mon::{hex, Case, Fail, Prop, Verdict};
use crate::net;
use crate::props::advertiser::{self, Inst, Reg};
use crate::props::discovery::{self, Loaded, Plan, Seen};
use crate::props::resolver;
use crate::refdns::{name_str, ty, Data, Name, Q};
use crate::rng::{hash_bytes, Rng};
use crate::sut;
use async_io::Timer;
use futures_lite::future;
use std::collections::BTreeSet;
use std::future::{poll_fn, Future};
use std::io;
use std::net::{IpAddr, SocketAddr, UdpSocket};
use std::ops::ControlFlow;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};
use std::time::{Duration, Instant};
use uwuhi::name::Label;
use uwuhi::service::{Service, ServiceInstance};
use uwuhi_async::resolver::AsyncResolver;
use uwuhi_async::service::advertising::AsyncAdvertiser;
use uwuhi_async::service::discovery::AsyncDiscoverer;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        rule: "case = one of: 2-6 async operations (resolutions, instance and type discoveries, loads of details; answered or silent) interleaved on one thread; one operation alone with a silent server; a client whose operations are dropped at random points between complete ones; an advertiser and four concurrent clients on one thread over multicast. Each poll is observed (time, processor time, voluntary context switches of its thread); results are compared with the model; polls that block or spin count if they recur in 7 executions in a row; non-trivial = every case",
        quick: 4_000,
        thorough: 100_000,
        threads: 0,
        run: c25,
        required: &["interleaved", "alone", "dropped", "completed_after_drop", "single_thread_links", "resolutions", "discoveries", "details", "answered", "timed_out", "polls", "ticks", "silence_after_drop", "dropped_with_reports", "answered_after_all_asked", "timeouts_kept"],
    }]
}

/// What the polls of a future were like.
#[derive(Clone, Debug, Default)]
struct Polls {
    polls: u64,
    /// Longest poll in which the thread gave up its processor.
    blocked: Duration,
    /// Most processor time used in a poll.
    cpu: Duration,
}

type Watch = Arc<Mutex<Polls>>;

/// Voluntary context switches and processor time of the thread.
fn thread_usage() -> (i64, Duration) {
    // SAFETY: valid out pointers.
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut u);
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        (u.ru_nvcsw, Duration::new(t.tv_sec as u64, t.tv_nsec as u32))
    }
}

fn watched<'a, T>(f: impl Future<Output = T> + 'a, w: Watch) -> Pin<Box<dyn Future<Output = T> + 'a>> {
    let mut f = Box::pin(f);
    Box::pin(poll_fn(move |cx| {
        let (switches, cpu) = thread_usage();
        let t = Instant::now();
        let r = f.as_mut().poll(cx);
        let took = t.elapsed();
        let (switches2, cpu2) = thread_usage();
        let mut w = w.lock().unwrap();
        w.polls += 1;
        w.cpu = w.cpu.max(cpu2 - cpu);
        if switches2 != switches {
            w.blocked = w.blocked.max(took);
        }
        r
    }))
}

/// Polls all of them until all are done.
async fn join<T>(mut fs: Vec<Pin<Box<dyn Future<Output = T> + '_>>>) -> Vec<T> {
    let mut out: Vec<Option<T>> = fs.iter().map(|_| None).collect();
    poll_fn(|cx| {
        let mut pending = false;
        for (f, o) in fs.iter_mut().zip(&mut out) {
            if o.is_none() {
                match f.as_mut().poll(cx) {
                    Poll::Ready(x) => *o = Some(x),
                    Poll::Pending => pending = true,
                }
            }
        }
        if pending {
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await;
    out.into_iter().map(Option::unwrap).collect()
}

#[derive(Clone)]
enum Op {
    Resolve(Name),
    /// `None`: types.
    Enumerate(Option<(Vec<u8>, bool)>, Option<Vec<u8>>),
    Details(Vec<u8>, Vec<u8>, bool),
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ips(Vec<IpAddr>),
    /// All calls of the callback.
    Items(Vec<Vec<u8>>),
    Details(Loaded),
    Failed(io::ErrorKind),
}

enum Client {
    R(AsyncResolver),
    D(AsyncDiscoverer),
}

impl Client {
    async fn new(op: &Op, server: SocketAddr, domain: &Name) -> io::Result<Self> {
        Ok(match op {
            Op::Resolve(_) => Self::R(AsyncResolver::new(server).await?),
            _ => Self::D(AsyncDiscoverer::new(server, sut::dn(domain)).await?),
        })
    }

    fn timeouts(&mut self, t: Duration, retransmit: Duration) {
        match self {
            Self::R(r) => r.set_timeout(t).unwrap(),
            Self::D(d) => {
                d.set_discovery_timeout(t).unwrap();
                d.set_retransmit_timeout(retransmit).unwrap();
            }
        }
    }

    async fn run(&mut self, op: &Op, seen: &Seen) -> Res {
        let items = |r: io::Result<()>| match r {
            Ok(()) => Res::Items(seen.lock().unwrap().clone()),
            Err(e) => Res::Failed(e.kind()),
        };
        let note = |x: Vec<u8>, stop: &Option<Vec<u8>>| {
            let mut v = seen.lock().unwrap();
            v.push(x);
            if v.last() == stop.as_ref() {
                ControlFlow::Break(())
            } else {
                ControlFlow::Continue(())
            }
        };
        match (self, op) {
            (Self::R(r), Op::Resolve(n)) => match r.resolve_domain(&sut::dn(n)).await {
                Ok(ips) => Res::Ips(ips.collect()),
                Err(e) => Res::Failed(e.kind()),
            },
            (Self::D(d), Op::Enumerate(Some((s, tcp)), stop)) => {
                let s = Service::new(Label::new(s), discovery::transport(*tcp));
                items(d.discover_instances(&s, |i: &ServiceInstance| note(discovery::flat_instance(i), stop)).await)
            }
            (Self::D(d), Op::Enumerate(None, stop)) => {
                items(d.discover_service_types(|s: &Service| note(discovery::flat_service(s), stop)).await)
            }
            (Self::D(d), Op::Details(i, s, tcp)) => {
                let i = ServiceInstance::new(Label::new(i), Label::new(s), discovery::transport(*tcp));
                match d.load_instance_details(&i).await {
                    Ok(d) => Res::Details(discovery::loaded(&d)),
                    Err(e) => Res::Failed(e.kind()),
                }
            }
            _ => unreachable!("harness: wrong client"),
        }
    }
}

/// An operation and the part its server plays.
struct Job {
    op: Op,
    domain: Name,
    owner: Name,
    types: Vec<u16>,
    /// What the server sends, once it has the query.
    packets: Vec<Vec<u8>>,
    stamp: bool,
    want: Res,
    may: Vec<Vec<u8>>,
    /// Nothing but the timeout ends it.
    silent: bool,
}

fn job(r: &mut Rng, kind: usize, round: usize, silent: bool, last: bool, domain: Option<Name>) -> Job {
    let domain = domain.unwrap_or_else(|| discovery::domain(r));
    let mut noise: Vec<Vec<u8>> = (0..r.below(3)).map(|_| discovery::noise(r)).collect();
    match kind {
        0 => {
            let name = resolver::hostname(r);
            // The id is that of the client's queries; it is not known yet.
            let n = r.range(1, 4);
            let good = resolver::response(r, 0, &name, n);
            let mut packets = vec![];
            for _ in 0..r.below(3) {
                packets.push(resolver::response(r, 0, &name, 0).msg);
            }
            if !silent {
                packets.push(good.msg);
            }
            Job {
                op: Op::Resolve(name.clone()),
                domain,
                owner: name,
                types: vec![ty::A, ty::AAAA],
                packets: packets.iter().map(|m| resolver::bytes(r, m)).collect(),
                stamp: true,
                want: if silent { Res::Failed(io::ErrorKind::TimedOut) } else { Res::Ips(good.ips) },
                may: vec![],
                silent,
            }
        }
        1 | 2 => {
            // What follows the end of a discovery remains for the next one.
            let early = last && r.chance(1, 3);
            let Plan { service, owner, packets, may, stop, want, .. } =
                discovery::plan(r, kind == 2, &domain, round, early);
            Job {
                op: Op::Enumerate(service, Some(stop)),
                domain,
                owner,
                types: vec![ty::PTR],
                packets: if silent { noise } else { packets },
                stamp: true,
                want: Res::Items(if silent { vec![] } else { want }),
                may,
                silent,
            }
        }
        _ => {
            let i = advertiser::random_inst(r, false);
            let owner = discovery::join(&[&i.name, &i.service, &i.transport_label()], &domain);
            let mut txt = i.txt.clone();
            txt.sort();
            let want: Loaded = (i.host.clone(), i.port, txt.clone());
            let srv = discovery::rr(r, &owner, Data::SRV(1, 2, i.port, i.host.clone()));
            let txt = discovery::rr(r, &owner, discovery::txt_data(&txt));
            let qs: Vec<Q> = vec![];
            if !silent {
                let mut v = vec![srv, txt];
                r.shuffle(&mut v);
                if r.chance(1, 2) {
                    noise.push(discovery::packet(r, 0, true, &qs, v));
                } else {
                    for x in v {
                        noise.push(discovery::packet(r, 0, true, &qs, vec![x]));
                    }
                }
            }
            Job {
                op: Op::Details(i.name, i.service, i.tcp),
                domain,
                owner,
                types: vec![ty::SRV, ty::TXT],
                packets: noise,
                stamp: true,
                want: if silent { Res::Failed(io::ErrorKind::TimedOut) } else { Res::Details(want) },
                may: vec![],
                silent,
            }
        }
    }
}

impl Job {
    fn count(&self, c: &mut Case<'_>) {
        c.count(
            match self.op {
                Op::Resolve(_) => "resolutions",
                Op::Enumerate(..) => "discoveries",
                Op::Details(..) => "details",
            },
            1,
        );
        c.count(if self.silent { "timed_out" } else { "answered" }, 1);
    }
    fn query(&self, b: &[u8]) -> Result<u16, String> {
        match self.op {
            Op::Resolve(_) => resolver::check_query(b, &self.owner),
            _ => discovery::check_query(b, &self.owner, &self.types),
        }
    }
    fn judge(&self, got: &Res) -> Verdict {
        match (got, &self.want) {
            (Res::Items(got), Res::Items(want)) => discovery::judge(got, want, &self.may),
            (Res::Failed(io::ErrorKind::WouldBlock), Res::Failed(io::ErrorKind::TimedOut))
                if matches!(self.op, Op::Resolve(_)) =>
            {
                Ok(())
            }
            _ => {
                ensure!(*got == self.want, "{} of {}: {got:?}, expected {:?}", self.show(), name_str(&self.owner), self.want);
                Ok(())
            }
        }
    }
    fn show(&self) -> &'static str {
        match self.op {
            Op::Resolve(_) => "resolution",
            Op::Enumerate(Some(_), _) => "discovery of instances",
            Op::Enumerate(None, _) => "discovery of types",
            Op::Details(..) => "load of the details",
        }
    }
    fn stamped(&self, id: u16) -> Vec<Vec<u8>> {
        let mut v = self.packets.clone();
        for b in &mut v {
            if self.stamp && !b.is_empty() {
                discovery::stamp(b, id);
            }
        }
        v
    }
    fn hash(&self) -> u64 {
        self.packets.iter().fold(1, |h: u64, b| h.rotate_left(7) ^ hash_bytes(b))
    }
}

/// Something that is a violation only if it keeps recurring.
type Suspicion = Option<String>;

fn suspicion(what: &str, w: &Polls) -> Suspicion {
    if w.blocked > Duration::from_micros(700) {
        return Some(format!("{what}: a poll blocked its thread for {:?}", w.blocked));
    }
    if w.cpu > Duration::from_millis(15) {
        return Some(format!("{what}: a poll computed for {:?}", w.cpu));
    }
    None
}

/// All operations that run interleaved have sent their queries by then.
const BARRIER: Duration = Duration::from_millis(1500);

fn c25(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let rng = c.rng.clone();
    for _ in 0..net::LATE_RUNS - 1 {
        if case(c)?.is_none() {
            return Ok(());
        }
        c.count("suspicions", 1);
        c.rng = rng.clone();
    }
    match case(c)? {
        None => Ok(()),
        Some(s) => Err(format!("{s} (in {} executions of the case in a row)", net::LATE_RUNS).into()),
    }
}

fn case(c: &mut Case<'_>) -> Result<Suspicion, Fail> {
    match c.rng.below(8) {
        0..=2 => interleaved(c),
        3 => alone(c),
        4..=6 => dropped(c),
        _ => link(c),
    }
}

fn interleaved(c: &mut Case<'_>) -> Result<Suspicion, Fail> {
    let n = if c.rng.chance(1, 50) { c.rng.range(20, 40) } else { c.rng.range(2, 6) };
    let mut jobs = vec![];
    for i in 0..n {
        let kind = c.rng.below(4);
        let silent = c.rng.chance(1, 5);
        jobs.push(job(&mut c.rng, kind, i, silent, true, None));
    }
    let v6 = c.rng.chance(1, 4) && net::have_v6();
    let servers: Vec<UdpSocket> = jobs.iter().map(|_| net::udp(v6)).collect();
    c.note = jobs
        .iter()
        .map(|j| format!("{} of {}, silent {}: {}", j.show(), name_str(&j.owner), j.silent, j.packets.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")))
        .collect::<Vec<_>>()
        .join("; ");
    c.evals(n as u64);
    let mut plans = vec![];
    for (j, s) in jobs.iter().zip(&servers) {
        let t = Duration::from_millis(c.rng.range(15, 60) as u64);
        let delay = if c.rng.chance(1, 4) { c.rng.below(4000) } else { 0 };
        s.set_nonblocking(true).unwrap();
        plans.push((j.op.clone(), j.domain.clone(), s.local_addr().unwrap(), j.silent, t, Duration::from_micros(delay as u64)));
    }
    let times: Vec<Duration> = plans.iter().map(|p| p.4).collect();
    let tick = c.rng.chance(1, 2);
    let mut call = net::call("interleaved operations", move || {
        let watches: Vec<Watch> = plans.iter().map(|_| Watch::default()).collect();
        let fs = plans
            .iter()
            .zip(&watches)
            .map(|((op, domain, server, silent, t, delay), w)| {
                let f = async move {
                    if !delay.is_zero() {
                        Timer::after(*delay).await;
                    }
                    let mut client = Client::new(op, *server, domain).await?;
                    if *silent {
                        client.timeouts(*t, *t / 2);
                    } else {
                        client.timeouts(discovery::LONG, discovery::NO_RETRANSMIT);
                    }
                    let begin = Instant::now();
                    let r = client.run(op, &Seen::default()).await;
                    Ok::<_, io::Error>((r, begin.elapsed()))
                };
                watched(f, w.clone())
            })
            .collect();
        let mut ticks = 0u64;
        let ticker = async {
            while tick {
                Timer::after(Duration::from_millis(1)).await;
                ticks += 1;
            }
            future::pending::<()>().await;
            unreachable!()
        };
        let r = future::block_on(future::or(join(fs), ticker));
        let w: Vec<Polls> = watches.iter().map(|w| w.lock().unwrap().clone()).collect();
        (r, w, ticks)
    });
    // The servers: the packets of all of them in a random interleaving.
    let mut queues: Vec<Option<(SocketAddr, Vec<Vec<u8>>)>> = jobs.iter().map(|_| None).collect();
    let mut b = [0; 2000];
    let begin = Instant::now();
    // Nobody is answered before all have asked.
    let mut barrier = c.rng.chance(1, 2);
    let held = barrier;
    let mut odd = None;
    loop {
        for ((j, s), q) in jobs.iter().zip(&servers).zip(&mut queues) {
            while let Ok((n, a)) = net::recv(&s, &mut b) {
                let id = j.query(&b[..n]).map_err(Fail::Violation)?;
                if q.is_none() {
                    let mut v = j.stamped(id);
                    v.reverse();
                    *q = Some((a, v));
                }
            }
        }
        if barrier && queues.iter().any(Option::is_none) && !call.finished() {
            if begin.elapsed() < BARRIER {
                std::thread::sleep(Duration::from_micros(50));
                continue;
            }
            let i = queues.iter().position(Option::is_none).unwrap();
            odd = Some(format!(
                "{} has not sent its query {:?} after the start; {} have",
                jobs[i].show(),
                begin.elapsed(),
                queues.iter().flatten().count()
            ));
        }
        barrier = false;
        let ready: Vec<usize> = (0..n)
            .filter(|&i| queues[i].as_ref().is_some_and(|q| !q.1.is_empty()))
            .collect();
        if ready.is_empty() {
            if queues.iter().all(Option::is_some) || call.finished() {
                break;
            }
            if begin.elapsed() > net::HANG {
                return Err(Fail::Violation("an operation did not send its query".into()));
            }
            std::thread::sleep(Duration::from_micros(50));
            continue;
        }
        let i = *c.rng.pick(&ready);
        let (a, v) = queues[i].as_mut().unwrap();
        let p = v.pop().unwrap();
        net::send(&servers[i], &p, (net::loopback(v6), a.port()).into());
        if c.rng.chance(1, 10) {
            std::thread::sleep(Duration::from_micros(c.rng.below(300) as u64));
        }
    }
    let sent = Instant::now();
    let started = call.started;
    let (r, w, ticks) = call.wait()?;
    for ((j, r), t) in jobs.iter().zip(r).zip(times) {
        let (r, took) = r.map_err(|e| Fail::Violation(format!("client cannot be created: {e}")))?;
        if took >= discovery::LONG && sent - started > discovery::LONG / 2 {
            return Err(Fail::Inconclusive("server thread was late".into()));
        }
        j.judge(&r)?;
        ensure!(!j.silent || took + Duration::from_millis(8) >= t, "{} gave up after {took:?}, the timeout is {t:?}", j.show());
        if j.silent && took > t * 3 + Duration::from_millis(60) {
            odd = Some(format!("{} gave up only after {took:?}, the timeout is {t:?}", j.show()));
        }
        j.count(c);
    }
    for (j, w) in jobs.iter().zip(&w) {
        c.count("polls", w.polls);
        c.max("longest_cpu_us", w.cpu.as_micros() as u64);
        if let Some(s) = suspicion(j.show(), w) {
            return Ok(Some(s));
        }
    }
    if odd.is_some() {
        return Ok(odd);
    }
    c.count("ticks", ticks);
    c.count("answered_after_all_asked", held.into());
    c.count("interleaved", 1);
    c.max("interleaved", n as u64);
    let h = jobs.iter().fold(1, |h, j| h ^ j.hash());
    let polls: Vec<u64> = w.iter().map(|w| w.polls).collect();
    c.nontrivial(h, || format!("{n} operations on one thread, polls {polls:?}"));
    Ok(None)
}

/// While nothing arrives, nothing runs.
fn alone(c: &mut Case<'_>) -> Result<Suspicion, Fail> {
    let kind = c.rng.below(4);
    let mut j = job(&mut c.rng, kind, 0, true, true, None);
    j.packets.clear();
    let server = net::udp(false);
    let addr = server.local_addr().unwrap();
    let t = Duration::from_millis(c.rng.range(20, 80) as u64);
    let retransmit = t / c.rng.range(1, 4) as u32;
    c.note = format!("{} with a silent server, timeout {t:?}", j.show());
    c.evals(1);
    let (op, domain) = (j.op.clone(), j.domain.clone());
    let call = net::call("operation", move || {
        let w = Watch::default();
        let mut client = future::block_on(Client::new(&op, addr, &domain))?;
        client.timeouts(t, retransmit);
        let begin = Instant::now();
        let r = future::block_on(watched(client.run(&op, &Seen::default()), w.clone()));
        let w = w.lock().unwrap().clone();
        Ok::<_, io::Error>((r, begin.elapsed(), w))
    });
    let (r, took, w) = call.wait()?.map_err(|e| Fail::Violation(format!("client cannot be created: {e}")))?;
    for b in net::drain(&server) {
        j.query(&b).map_err(Fail::Violation)?;
    }
    j.judge(&r)?;
    j.count(c);
    c.count("alone", 1);
    c.count("polls", w.polls);
    c.max("most_polls_alone", w.polls);
    if w.polls > 100 {
        return Ok(Some(format!("{} was polled {} times in {took:?}, although nothing arrived", j.show(), w.polls)));
    }
    let h = c.rng.u64();
    c.nontrivial(h, || format!("{} alone: {} polls in {took:?}", j.show(), w.polls));
    Ok(suspicion(j.show(), &w))
}

/// Lets the thread of the servers end an operation.
#[derive(Default)]
struct Stop {
    stop: bool,
    waker: Option<Waker>,
}

fn dropped(c: &mut Case<'_>) -> Result<Suspicion, Fail> {
    let kind = c.rng.below(4);
    let server = net::udp(false);
    let addr = server.local_addr().unwrap();
    let rounds = c.rng.range(2, 4);
    let mut client: Option<Client> = None;
    let mut log = vec![];
    let mut h = 0;
    let mut worst = None;
    let mut domain = None;
    let mut after_drop = false;
    // The timeouts are set once only.
    let keep = c.rng.chance(1, 2);
    let rt = Duration::from_millis(c.rng.range(4, 10) as u64);
    for round in 0..rounds {
        c.evals(1);
        let drop_it = round < rounds - 1 && c.rng.chance(3, 4);
        // One client, one domain.
        let j = job(&mut c.rng, kind, round, false, round == rounds - 1, domain.take());
        domain = Some(j.domain.clone());
        log.push(format!(
            "{} of {}, dropped {drop_it}: {}",
            j.show(),
            name_str(&j.owner),
            j.packets.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" ")
        ));
        c.note = log.join("; ");
        h ^= j.hash();
        let stop = Arc::new(Mutex::new(Stop::default()));
        let (stop2, op, dom) = (stop.clone(), j.op.clone(), j.domain.clone());
        let seen = Seen::default();
        let seen2 = seen.clone();
        let old = client.take();
        let mut call = net::call("operation", move || {
            let mut client = match old {
                Some(c) => c,
                None => future::block_on(Client::new(&op, addr, &dom))?,
            };
            if keep {
                if round == 0 {
                    client.timeouts(discovery::LONG, rt);
                }
            } else if drop_it {
                client.timeouts(discovery::LONG, rt);
            } else {
                client.timeouts(discovery::LONG, discovery::NO_RETRANSMIT);
            }
            let w = Watch::default();
            let stopped = poll_fn(|cx| {
                let mut s = stop2.lock().unwrap();
                s.waker = Some(cx.waker().clone());
                if s.stop {
                    Poll::Ready(())
                } else {
                    Poll::Pending
                }
            });
            let r = future::block_on(future::or(
                async {
                    stopped.await;
                    None
                },
                async { Some(watched(client.run(&op, &seen2), w.clone()).await) },
            ));
            // The future of the operation is gone.
            let w = w.lock().unwrap().clone();
            let n = seen2.lock().unwrap().len();
            Ok::<_, io::Error>((client, r, w, n))
        });
        let Some((q, a)) = net::recv_during(&server, &mut call) else {
            let (_, r, ..) = call.wait()?.map_err(|e| Fail::Violation(format!("client cannot be created: {e}")))?;
            return Err(format!("{} ended with {r:?} without a query", j.show()).into());
        };
        let id = j.query(&q).map_err(Fail::Violation)?;
        let to: SocketAddr = (net::loopback(false), a.port()).into();
        let packets = j.stamped(id);
        if !drop_it {
            for p in &packets {
                net::send(&server, p, to);
            }
            let (cl, r, w, _) = call.wait()?.map_err(|e| Fail::Violation(format!("client: {e}")))?;
            let Some(r) = r else {
                return Err(Fail::Inconclusive("stopped by nobody".into()));
            };
            client = Some(cl);
            j.judge(&r)?;
            j.count(c);
            net::drain(&server);
            c.count("polls", w.polls);
            if after_drop {
                c.count("completed_after_drop", 1);
                c.count("timeouts_kept", keep.into());
            }
            worst = worst.or_else(|| suspicion(j.show(), &w));
            continue;
        }
        // Packets that end nothing, and that mean nothing to the operations that follow.
        let k = match &j.op {
            Op::Enumerate(Some(_), Some(stop)) => {
                // Up to the packet with the item at which it ends.
                let Res::Items(want) = &j.want else { unreachable!() };
                let mut last = packets.len() - 1;
                if want.last() == Some(stop) {
                    last = packets
                        .iter()
                        .position(|p| contains(p, &stop_label(stop)))
                        .unwrap_or(0)
                        .min(last);
                }
                c.rng.below(last + 1)
            }
            _ => 0,
        };
        for p in &packets[..k] {
            net::send(&server, p, to);
        }
        for _ in 0..c.rng.below(3) {
            let mut p = discovery::noise(&mut c.rng);
            if p.len() > 2 {
                // Not a response.
                p[2] &= 0x7f;
            }
            net::send(&server, &p, to);
        }
        match c.rng.below(3) {
            0 => {}
            1 => std::thread::sleep(Duration::from_micros(c.rng.below(2000) as u64)),
            _ => std::thread::sleep(rt + Duration::from_millis(3)),
        }
        {
            let mut s = stop.lock().unwrap();
            s.stop = true;
            if let Some(w) = s.waker.take() {
                w.wake();
            }
        }
        let (cl, r, w, n) = call.wait()?.map_err(|e| Fail::Violation(format!("client: {e}")))?;
        if let Some(r) = r {
            return Err(format!("{} ended with {r:?} although nothing has ended it", j.show()).into());
        }
        client = Some(cl);
        worst = worst.or_else(|| suspicion(j.show(), &w));
        // What was sent before the drop is here by now.
        for b in net::drain(&server) {
            j.query(&b).map_err(Fail::Violation)?;
        }
        if c.rng.chance(1, 2) {
            std::thread::sleep(rt * 2 + Duration::from_millis(2));
            let late = net::drain(&server);
            ensure!(
                late.is_empty(),
                "{} was dropped, but later sent {}",
                j.show(),
                hex(&late[0])
            );
            c.count("silence_after_drop", 1);
        }
        ensure!(
            seen.lock().unwrap().len() == n,
            "the callback of a dropped {} was called",
            j.show()
        );
        let reported = seen.lock().unwrap().clone();
        if let Res::Items(want) = &j.want {
            for (i, x) in reported.iter().enumerate() {
                ensure!(
                    (want.contains(x) || j.may.contains(x)) && !reported[..i].contains(x),
                    "reported {} ",
                    discovery::show(x)
                );
            }
        }
        c.count("dropped_with_reports", (!reported.is_empty()).into());
        c.count("dropped", 1);
        c.count("polls", w.polls);
        after_drop = true;
    }
    let s = log.join("; ");
    c.nontrivial(h, || s);
    Ok(worst)
}

fn stop_label(stop: &[u8]) -> Vec<u8> {
    stop[..1 + stop[0] as usize].to_vec()
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

/// An advertiser and its clients, all on one thread.
fn link(c: &mut Case<'_>) -> Result<Suspicion, Fail> {
    net::fresh_network()?;
    c.evals(1);
    let r = &mut c.rng;
    let host: Vec<u8> = (0..r.range(1, 30)).map(|_| *r.pick(b"abcXYZ019-")).collect();
    let ips: Vec<IpAddr> = (0..r.range(1, 3)).map(|_| advertiser::random_ip(r)).collect();
    let mut inst: Inst = advertiser::random_inst(r, false);
    inst.host = vec![host.clone(), b"local".to_vec()];
    while inst.txt.iter().map(|t| t.0.len() + t.1.as_ref().map_or(0, Vec::len) + 2).sum::<usize>() > 600 {
        inst.txt.pop();
    }
    let mut regs: Vec<Reg> = ips.iter().map(|ip| Reg::Name(host.clone(), *ip)).collect();
    regs.push(Reg::Inst(inst.clone()));
    c.note = format!("one thread, {regs:?}");
    let group: SocketAddr = (net::GROUP, net::MDNS_PORT).into();
    let i2 = inst.clone();
    let h2 = host.clone();
    let call = net::call("advertiser and clients on one thread", move || {
        let Reg::Name(n, ip) = &regs[0] else { unreachable!() };
        let mut adv = AsyncAdvertiser::new(Label::new(n), *ip)?;
        for r in &regs[1..] {
            match r {
                Reg::Name(n, ip) => adv.add_name(Label::new(n), *ip),
                Reg::Inst(i) => adv.add_instance(i.instance(), i.details()),
            }
        }
        let local = vec![b"local".to_vec()];
        let t = i2.transport_label();
        let ops = [
            Op::Resolve(vec![h2, b"local".to_vec()]),
            Op::Enumerate(None, Some(discovery::flat(&[&i2.service, &t]))),
            Op::Enumerate(Some((i2.service.clone(), i2.tcp)), Some(discovery::flat(&[&i2.name, &i2.service, &t]))),
            Op::Details(i2.name.clone(), i2.service.clone(), i2.tcp),
        ];
        let watches: Vec<Watch> = (0..5).map(|_| Watch::default()).collect();
        let clients = ops
            .iter()
            .zip(&watches)
            .map(|(op, w)| {
                let local = &local;
                let f = async move {
                    let mut client = Client::new(op, group, local).await?;
                    client.timeouts(discovery::LONG, Duration::from_millis(500));
                    Ok::<_, io::Error>(client.run(op, &Seen::default()).await)
                };
                watched(f, w.clone())
            })
            .collect();
        let listen = watched(adv.listen(), watches[4].clone());
        let r = future::block_on(future::or(async { Ok(join(clients).await) }, async { Err(listen.await) }));
        let w: Vec<Polls> = watches.iter().map(|w| w.lock().unwrap().clone()).collect();
        Ok::<_, io::Error>((r, w))
    });
    let (r, w) = call.wait()?.map_err(|e| Fail::Violation(format!("advertiser cannot be created: {e}")))?;
    let r = match r {
        Ok(r) => r,
        Err(e) => return Err(format!("AsyncAdvertiser::listen returned {e:?}").into()),
    };
    let r: Vec<Res> = r
        .into_iter()
        .collect::<io::Result<_>>()
        .map_err(|e| Fail::Violation(format!("client cannot be created: {e}")))?;
    match &r[0] {
        Res::Ips(v) if v.iter().collect::<BTreeSet<_>>() == ips.iter().collect() => {}
        x => return Err(format!("the host resolved to {x:?}, registered {ips:?}").into()),
    }
    let t = inst.transport_label();
    for (got, want) in r[1..3].iter().zip([
        discovery::flat(&[&inst.service, &t]),
        discovery::flat(&[&inst.name, &inst.service, &t]),
    ]) {
        ensure!(*got == Res::Items(vec![want.clone()]), "discovered {got:?}, registered {}", discovery::show(&want));
    }
    let mut txt = inst.txt.clone();
    txt.sort();
    let want = Res::Details((inst.host.clone(), inst.port, txt));
    ensure!(r[3] == want, "details are {:?}, registered {want:?}", r[3]);
    c.count("single_thread_links", 1);
    for (i, w) in w.iter().enumerate() {
        c.count("polls", w.polls);
        if let Some(s) = suspicion(["resolve", "types", "instances", "details", "listen"][i], w) {
            return Ok(Some(s));
        }
    }
    let h = hash_bytes(c.note.as_bytes());
    let polls: Vec<u64> = w.iter().map(|w| w.polls).collect();
    c.nontrivial(h, || format!("one thread, polls {polls:?}"));
    Ok(None)
}
