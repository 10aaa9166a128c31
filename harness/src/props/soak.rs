//! Long histories: one advertiser, tap or client that handles more packets than any 16-bit
//! quantity can count. Run as cases of the properties about them.

use crate::ensure;
use crate::gen;
use crate::mon::{self, hex, no_panic, Case, Fail, Verdict};
use crate::net;
use crate::props::advertiser::{self, Reg};
use crate::props::discovery::{self, Disc, Seen};
use crate::props::resolver::{self, How, Resolver};
use crate::props::sockets;
use crate::refdns::{self, name_str, ty, Data, Msg, Name, Q};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, UdpSocket};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use uwuhi::name::Label;
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::{Service, ServiceInstance};
use uwuhi::tap::SyncTap;

/// More than 2^16.
const ROUNDS: u32 = 66_000;

/// The case number stands for a soak (two of them in each run; more in thorough ones).
pub fn due(c: &Case<'_>) -> bool {
    which(c, 2).is_some()
}

/// The number of the soak, out of so many.
pub fn which(c: &Case<'_>, of: u64) -> Option<u64> {
    let n = c.idx as u64 % 200_000;
    (n < of && std::env::var_os("UWUHI_NO_SOAK").is_none()).then_some(n)
}

fn handle(a: &mut Advertiser, b: &[u8]) -> Result<Option<Vec<u8>>, String> {
    no_panic("handle_packet", || a.handle_packet(b).map(|r| r.map(<[u8]>::to_vec)))?
        .map_err(|e| format!("well-formed query {} rejected: {e}", hex(b)))
}

/// C11: the reply to a query is the same after very many packets.
pub fn advertiser_history(c: &mut Case<'_>) -> Verdict {
    let mut regs = advertiser::random_regs(&mut c.rng);
    let late = regs.split_off(regs.len() / 2 + 1);
    let mut recs = advertiser::records(&regs);
    let mut a = advertiser::build(&regs)?;
    c.note = format!("{ROUNDS} packets to an advertiser with {regs:?}, {late:?}");
    let q = sockets::host_question(&regs);
    let probe = sockets::plain_query(4711, &q);
    let first = handle(&mut a, &probe)?;
    advertiser::judge_reply(first.as_deref(), 4711, std::slice::from_ref(&q), &recs)?;
    let mut late = late.into_iter();
    for i in 0..ROUNDS {
        if i % 20_000 == 10_000 {
            if let Some(r) = late.next() {
                no_panic("registration", || advertiser::register(&mut a, &r))?;
                recs.extend(advertiser::records(std::slice::from_ref(&r)));
            }
        }
        if i % 3 == 0 {
            let b = gen::hostile(&mut c.rng).0;
            no_panic("handle_packet", || a.handle_packet(&b).is_ok())?;
            continue;
        }
        let q = if i % 8 == 0 { q.clone() } else { advertiser::random_question(&mut c.rng, &recs).0 };
        let id = c.rng.u16();
        let b = sockets::plain_query(id, &q);
        let r = handle(&mut a, &b)?;
        if let Err(e) = advertiser::judge_reply(r.as_deref(), id, std::slice::from_ref(&q), &recs) {
            return Err(format!("packet {i} ({}): {e}", hex(&b)).into());
        }
    }
    let r = handle(&mut a, &probe)?;
    advertiser::judge_reply(r.as_deref(), 4711, std::slice::from_ref(&q), &recs)?;
    c.count("long_histories", 1);
    c.evals(u64::from(ROUNDS));
    Ok(())
}

/// C10: very many registrations, very many questions.
pub fn advertiser_crowd(c: &mut Case<'_>) -> Verdict {
    let mut regs = advertiser::random_regs(&mut c.rng);
    let n = c.rng.range(300, 1200);
    for i in 0..n {
        if i % 3 == 0 {
            let mut x = advertiser::random_inst(&mut c.rng, false);
            x.name.truncate(40);
            x.name.extend(format!("{i}").bytes());
            regs.push(Reg::Inst(x));
        } else {
            regs.push(Reg::Name(format!("host-{i}").into_bytes(), advertiser::random_ip(&mut c.rng)));
        }
    }
    c.note = format!("{} registrations", regs.len());
    let recs = advertiser::records(&regs);
    let mut a = advertiser::build(&regs)?;
    for (k, (name, d)) in recs.iter().enumerate() {
        let exact = Q { name: advertiser::scramble_case(&mut c.rng, name), ty: d.ty(), class: 1, qu: false };
        // Behind questions that nothing answers.
        let before = match k % 16 {
            0 => c.rng.range(250, 300),
            1 => 40,
            _ => 0,
        };
        let mut qs: Vec<Q> = (0..before)
            .map(|i| Q { name: vec![format!("n{i}").into_bytes()], ty: ty::A, class: 1, qu: false })
            .collect();
        qs.push(exact);
        let b = refdns::write_plain(&Msg { id: k as u16, q: qs.clone(), ..Msg::default() });
        let r = handle(&mut a, &b)?;
        c.note = format!("{} registrations, {} questions, the last for {}", regs.len(), qs.len(), name_str(name));
        advertiser::judge_reply(r.as_deref(), k as u16, &qs, &recs)?;
        c.evals(1);
    }
    c.count("crowds", 1);
    Ok(())
}

/// Answers the queries `n<i>...` that arrive until `call` is done; returns the number of queries.
pub fn serve<T>(
    s: &UdpSocket,
    call: &mut net::Call<T>,
    mut answer: impl FnMut(u16, &Name) -> Vec<Vec<u8>>,
) -> Result<u64, Fail> {
    let mut n = 0;
    loop {
        let Some((b, a)) = net::recv_during(s, call) else {
            return Ok(n);
        };
        n += 1;
        let p = refdns::parse(&b).map_err(|_| Fail::Violation(format!("query without header: {}", hex(&b))))?;
        let Some(refdns::Item::Q { name, .. }) = p.items.first() else {
            return Err(Fail::Violation(format!("query without question: {}", hex(&b))));
        };
        for x in answer(p.hdr.id, name) {
            net::send(s, &x, (net::loopback(false), a.port()).into());
        }
    }
}

pub fn number(name: &Name) -> u32 {
    name.first()
        .and_then(|l| std::str::from_utf8(l).ok())
        .and_then(|l| l.rsplit('-').next())
        .and_then(|n| n.parse().ok())
        .unwrap_or(u32::MAX)
}

pub fn plain_response(id: u16, name: &Name, data: Vec<Data>) -> Vec<u8> {
    let mut m = Msg { id, flags: refdns::QR | refdns::AA, ..Msg::default() };
    for data in data {
        m.sec[0].push(refdns::Rr { name: name.clone(), class: 1, flush: false, ttl: 120, data });
    }
    refdns::write_plain(&m)
}

/// C13: one resolver used very often.
pub fn resolutions(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let is_async = c.idx % 2 == 1;
    let server = net::udp(false);
    let addr = server.local_addr().unwrap();
    c.note = format!("{ROUNDS} resolutions with one resolver, async {is_async}");
    let mut call = net::call("resolutions", move || {
        let mut r = Resolver::new(is_async, addr).map_err(|e| format!("resolver cannot be created: {e}"))?;
        r.set_timeout(Duration::from_secs(20));
        for i in 0..ROUNDS {
            let got = r.resolve(&How::Str(format!("host-{i}.local")));
            let want = IpAddr::from(Ipv4Addr::from(i));
            match &got {
                Ok(v) if *v == [want] => {}
                g => return Err(format!("resolution {i} gave {g:?}, the response says {want}")),
            }
        }
        Ok(())
    });
    serve(&server, &mut call, |id, name| {
        vec![plain_response(id, name, vec![Data::A(number(name).to_be_bytes())])]
    })?;
    call.wait()??;
    c.count("long_histories", 1);
    c.evals(u64::from(ROUNDS));
    Ok(())
}

/// C14: a resolver with very many servers, of which the last one answers.
pub fn many_servers(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let is_async = c.idx % 2 == 1;
    let n = 300;
    let servers: Vec<UdpSocket> = (0..n).map(|_| net::udp(false)).collect();
    let addrs: Vec<SocketAddr> = servers.iter().map(|s| s.local_addr().unwrap()).collect();
    c.note = format!("resolver with {n} servers, async {is_async}");
    let name: Name = vec![b"host-7".to_vec(), b"local".to_vec()];
    let mut call = net::call("resolution", move || {
        let mut r = Resolver::new(is_async, addrs[0]).map_err(|e| format!("resolver cannot be created: {e}"))?;
        for a in &addrs[1..] {
            r.add_server(*a);
        }
        r.set_timeout(Duration::from_secs(20));
        Ok::<_, String>(r.resolve(&How::Str("host-7.local".into())))
    });
    let mut last = None;
    for (i, s) in servers.iter().enumerate() {
        let Some((b, a)) = net::recv_during(s, &mut call) else {
            return Err(format!("server {i} of {n} was not sent a query").into());
        };
        last = Some((resolver::check_query(&b, &name)?, a));
    }
    let (id, a) = last.unwrap();
    let b = plain_response(id, &name, vec![Data::A([10, 0, 0, 7])]);
    net::send(&servers[n - 1], &b, (net::loopback(false), a.port()).into());
    let got = call.wait()??;
    ensure!(
        matches!(&got, Ok(v) if *v == [IpAddr::from([10, 0, 0, 7])]),
        "resolved to {got:?}, the last server says 10.0.0.7"
    );
    for (i, s) in servers.iter().enumerate() {
        ensure!(net::drain(s).is_empty(), "server {i} was sent more than one query");
    }
    c.count("crowds_of_servers", 1);
    c.evals(n as u64);
    Ok(())
}

/// C16, C17: very many items in one discovery.
pub fn big_discovery(c: &mut Case<'_>, types: bool) -> Verdict {
    net::pin();
    let is_async = c.idx % 2 == 1;
    let server = net::udp(false);
    let addr = server.local_addr().unwrap();
    let n = 66_000u32;
    let dom: Name = vec![b"local".to_vec()];
    c.note = format!("discovery of {n} items, types {types}, async {is_async}");
    let seen = Seen::default();
    let seen2 = seen.clone();
    let dom2 = dom.clone();
    let mut call = net::call("discovery", move || {
        let mut d = Disc::new(is_async, addr, &dom2).map_err(|e| format!("discoverer cannot be created: {e}"))?;
        d.timeouts(discovery::NO_RETRANSMIT, Duration::from_secs(35));
        let seen3 = seen2.clone();
        let done = move || seen3.lock().unwrap().len() >= n as usize;
        let r = if types {
            d.types_until(&seen2, done)
        } else {
            d.instances_until(&Service::new(Label::new("_many"), discovery::transport(true)), &seen2, done)
        };
        r.map_err(|e| format!("discovery failed: {e}"))
    });
    let owner = if types {
        discovery::join(&[b"_services", b"_dns-sd", b"_udp"], &dom)
    } else {
        discovery::join(&[b"_many", b"_tcp"], &dom)
    };
    let Some((b, a)) = net::recv_during(&server, &mut call) else {
        call.wait()??;
        return Err("returned without a query".to_string().into());
    };
    let id = discovery::check_query(&b, &owner, &[ty::PTR])?;
    let to: SocketAddr = (net::loopback(false), a.port()).into();
    let item = |i: u32| -> (Vec<u8>, Data) {
        let l = format!("_item-{i}").into_bytes();
        if types {
            (discovery::flat(&[&l, b"_udp"]), Data::PTR(discovery::join(&[&l, b"_udp"], &dom)))
        } else {
            (discovery::flat(&[&l, b"_many", b"_tcp"]), Data::PTR(discovery::join(&[&l, b"_many", b"_tcp"], &dom)))
        }
    };
    let mut i = 0;
    while i < n {
        let k = (n - i).min(c.rng.range(1, 20) as u32);
        let mut v: Vec<Data> = (i..i + k).map(|i| item(i).1).collect();
        if i > 0 && c.rng.chance(1, 3) {
            let old = c.rng.below(i as usize) as u32;
            v.insert(0, item(old).1);
        }
        net::send(&server, &plain_response(id, &owner, v), to);
        i += k;
        // No more in flight than the socket can hold.
        let t = Instant::now();
        while !call.finished() && (seen.lock().unwrap().len() as u32) + 400 < i && t.elapsed() < net::HANG {
            std::thread::sleep(Duration::from_micros(30));
        }
        if call.finished() && i < n {
            break;
        }
    }
    call.wait()??;
    let got = seen.lock().unwrap();
    for (i, x) in got.iter().enumerate() {
        ensure!(
            *x == item(i as u32).0,
            "call {i} of the callback reported {}, expected {}",
            discovery::show(x),
            discovery::show(&item(i as u32).0)
        );
    }
    ensure!(got.len() == n as usize, "{} items reported, {n} were announced", got.len());
    c.count("long_histories", 1);
    c.evals(u64::from(n));
    Ok(())
}

/// C19: one discoverer used very often.
pub fn many_loads(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let is_async = c.idx % 2 == 1;
    let server = net::udp(false);
    let addr = server.local_addr().unwrap();
    c.note = format!("{ROUNDS} instances loaded with one discoverer, async {is_async}");
    let mut call = net::call("loads", move || {
        let mut d =
            Disc::new(is_async, addr, &vec![b"local".to_vec()]).map_err(|e| format!("discoverer cannot be created: {e}"))?;
        d.timeouts(discovery::NO_RETRANSMIT, Duration::from_secs(25));
        for i in 0..ROUNDS {
            let s = Service::new(Label::new("_many"), discovery::transport(false));
            let got = d
                .details(&ServiceInstance::from_service(Label::new(format!("item-{i}").as_bytes()), s))
                .map(|d| discovery::loaded(&d));
            let want = (
                vec![format!("host-{i}").into_bytes()],
                i as u16,
                vec![("n".to_string(), Some(i.to_string().into_bytes()))],
            );
            match &got {
                Ok(g) if *g == want => {}
                g => return Err(format!("load {i} gave {g:?}, the responses say {want:?}")),
            }
        }
        Ok(())
    });
    serve(&server, &mut call, |id, name| {
        let i = number(name);
        let srv = Data::SRV(0, 0, i as u16, vec![format!("host-{i}").into_bytes()]);
        let txt = Data::TXT(vec![format!("n={i}").into_bytes()]);
        match i % 3 {
            0 => vec![plain_response(id, name, vec![txt, srv])],
            1 => vec![plain_response(id, name, vec![srv]), plain_response(id, name, vec![txt])],
            _ => vec![plain_response(id, name, vec![srv, txt])],
        }
    })?;
    call.wait()??;
    c.count("long_histories", 1);
    c.evals(u64::from(ROUNDS));
    Ok(())
}

/// C22: an advertiser that serves very many queries.
pub fn served(c: &mut Case<'_>) -> Verdict {
    net::pin();
    net::fresh_network()?;
    let is_async = c.idx % 2 == 1;
    let regs = advertiser::random_regs(&mut c.rng);
    let mut twin = advertiser::build(&regs)?;
    let mut srv = sockets::Server::start(is_async, &regs);
    let q = sockets::host_question(&regs);
    c.note = format!("{ROUNDS} datagrams to an advertiser, async {is_async}, {regs:?}");
    let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("harness: bind");
    let unicast: SocketAddr = (Ipv4Addr::LOCALHOST, net::MDNS_PORT).into();
    let group: SocketAddr = (net::GROUP, net::MDNS_PORT).into();
    let mut ids = 1;
    {
        let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("harness: bind");
        sockets::ask_until_answered(&s, unicast, &q, &mut ids, &mut srv)?;
    }
    let want = no_panic("handle_packet", || {
        twin.handle_packet(&sockets::plain_query(0, &q)).ok().flatten().map(<[u8]>::to_vec)
    })?
    .ok_or_else(|| "no reply to a query for the host".to_string())?;
    s.set_read_timeout(Some(Duration::from_secs(15))).unwrap();
    let mut sent = 0u32;
    let mut b = [0; 2000];
    for i in 0..ROUNDS {
        while sent < ROUNDS && sent < i + 24 {
            if c.rng.chance(1, 4) {
                let x = gen::hostile(&mut c.rng).0;
                if x.len() < 1400 && !matches!(twin.handle_packet(&x), Ok(Some(_))) {
                    net::send(&s, &x, unicast);
                }
            }
            let x = sockets::plain_query(sent as u16, &q);
            net::send(&s, &x, if sent % 16 == 0 { group } else { unicast });
            sent += 1;
        }
        let n = match net::recv(&s, &mut b) {
            Ok((n, _)) => n,
            Err(e) => {
                srv.alive()?;
                return Err(format!("query {i} was not answered: {e}").into());
            }
        };
        ensure!(
            n == want.len() && b[..2] == (i as u16).to_be_bytes() && b[2..n] == want[2..],
            "the reply to query {i} is {}, expected {} with ID {:#06x}",
            hex(&b[..n]),
            hex(&want),
            i as u16
        );
    }
    srv.alive()?;
    c.count("long_histories", 1);
    c.evals(u64::from(ROUNDS));
    Ok(())
}

/// C23: a tap that sees very many messages.
pub fn tapped(c: &mut Case<'_>) -> Verdict {
    net::pin();
    net::fresh_network()?;
    let lines = Arc::new(Mutex::new(Vec::<String>::new()));
    let sink = lines.clone();
    let (tx, tid) = std::sync::mpsc::channel();
    let mut tap = net::call("SyncTap", move || {
        let _ = tx.send(net::thread_id());
        mon::capture_log(sink);
        SyncTap::new()?.listen()
    });
    c.note = format!("{ROUNDS} messages to a tap");
    let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("harness: bind");
    let unicast: SocketAddr = (Ipv4Addr::LOCALHOST, net::MDNS_PORT).into();
    let mut sent = 0;
    let t0 = Instant::now();
    let mut started = false;
    while sent < ROUNDS {
        let first = sent;
        // The first ones may come too early.
        let n = if started { 40 } else { 1 };
        for i in first..(first + n).min(ROUNDS) {
            if c.rng.chance(1, 8) {
                let x = gen::hostile(&mut c.rng).0;
                if x.len() < 1400 && refdns::parse(&x).map_or(true, |p| p.error().is_some()) {
                    net::send(&s, &x, unicast);
                }
            }
            let q = Q { name: vec![format!("msg{i}gsm").into_bytes()], ty: ty::A, class: 1, qu: false };
            net::send(&s, &sockets::plain_query(i as u16, &q), unicast);
        }
        let last = (first + n).min(ROUNDS) - 1;
        let end = format!("msg{last}gsm");
        let t = Instant::now();
        let limit = if started { Duration::from_secs(20) } else { Duration::from_millis(5) };
        let logged = loop {
            if tap.finished() {
                return match tap.wait()? {
                    Err(e) => Err(format!("SyncTap::listen returned {e:?}").into()),
                    Ok(()) => Err("SyncTap::listen returned".to_string().into()),
                };
            }
            if lines.lock().unwrap().iter().any(|l| l.contains(&end)) {
                break true;
            }
            if t.elapsed() > limit {
                break false;
            }
            std::thread::sleep(Duration::from_micros(50));
        };
        if !started {
            started = logged;
            ensure!(t0.elapsed() < net::HANG, "no message was logged");
            continue;
        }
        let log = std::mem::take(&mut *lines.lock().unwrap());
        let mut at = 0;
        for i in first..=last {
            let m = format!("msg{i}gsm");
            let Some(k) = log[at..].iter().position(|l| l.contains(&m)) else {
                return Err(format!("message {i} is missing from the log: {:?}", &log[at.min(log.len())..]).into());
            };
            at += k + 1;
        }
        sent = last + 1;
    }
    if let Ok(tid) = tid.recv_timeout(Duration::from_millis(100)) {
        net::end_listener(tid, || tap.finished());
    }
    c.count("long_histories", 1);
    c.evals(u64::from(ROUNDS));
    Ok(())
}

