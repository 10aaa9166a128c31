//! C12: what one program advertises is what another one discovers and resolves.

use crate::ensure;
use crate::gen;
use crate::mon::{no_panic, Case, Fail, Prop, Verdict};
use crate::net;
use crate::props::advertiser::{self, Inst, Reg};
use crate::props::discovery::{self, Disc, Loaded};
use crate::props::resolver::{How, Resolver};
use crate::props::sockets::{self, Server};
use crate::refdns::{self, lower, name_str, Name, Q};
use crate::rng::{hash_bytes, Rng};
use crate::sut;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, Ipv4Addr, SocketAddr, UdpSocket};
use std::ops::ControlFlow;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use uwuhi::name::Label;
use uwuhi::packet::records::Record;
use uwuhi::packet::QType;
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::{InstanceDetails, Service, ServiceInstance, TxtRecords};
use uwuhi_async::service::discovery::AsyncDiscoverer;
use uwuhi::service::discovery::SyncDiscoverer;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        rule: "case = 1-3 advertisers (sync and async) with host names and instances, in a fresh network namespace with junk traffic (or in one of two that are linked, the clients in the other); first through the I/O-less functions, then over real multicast sockets: service types, instances of every service, details of every instance and addresses of every host, as discovered and resolved by the sync and async clients, are compared with the registrations; non-trivial = at least one instance was discovered and resolved to its details over the network",
        quick: 1_000,
        thorough: 20_000,
        threads: 0,
        run: c12,
        required: &["sans_io_types", "sans_io_instances", "sans_io_details", "sans_io_addresses", "live_types", "live_instances", "live_details", "live_addresses", "live_absent_service", "sync_clients", "async_clients", "sync_servers", "async_servers", "several_servers", "full_runs"],
    }]
}

struct Node {
    regs: Vec<Reg>,
    host: Vec<u8>,
    ips: Vec<IpAddr>,
    insts: Vec<Inst>,
}

fn host_label(r: &mut Rng, i: usize) -> Vec<u8> {
    let n = *r.pick(&[1usize, 5, 20, 60]);
    let mut v: Vec<u8> = (0..n).map(|_| *r.pick(b"abcXYZ019-")).collect();
    v.push(b'a' + i as u8);
    v
}

fn fits(regs: &[Reg]) -> bool {
    let recs = advertiser::records(regs);
    let mut by_owner: BTreeMap<Name, usize> = BTreeMap::new();
    for (n, d) in &recs {
        *by_owner.entry(lower(n)).or_insert(0) += refdns::rr_wire_len(&advertiser::rr_of(n, d));
    }
    by_owner.values().all(|l| 12 + l <= uwuhi::MDNS_BUFFER_SIZE)
}

fn nodes(r: &mut Rng) -> Vec<Node> {
    let n = *r.pick(&[1usize, 1, 2, 3]);
    let services: Vec<Vec<u8>> = (0..2).map(|_| advertiser::service_label(r)).collect();
    let mut used: BTreeSet<Name> = BTreeSet::new();
    let mut hosts: Vec<Vec<u8>> = vec![];
    let mut v = vec![];
    for k in 0..n {
        let host = host_label(r, k);
        hosts.push(host.clone());
        let ips: Vec<IpAddr> = (0..r.range(1, 4)).map(|_| advertiser::random_ip(r)).collect();
        let mut regs: Vec<Reg> = ips.iter().map(|ip| Reg::Name(host.clone(), *ip)).collect();
        let mut insts = vec![];
        for _ in 0..r.below(5) {
            let mut i = advertiser::random_inst(r, false);
            if r.chance(3, 4) {
                i.service = r.pick(&services).clone();
            }
            if r.chance(1, 2) {
                i.host = vec![r.pick(&hosts).clone(), b"local".to_vec()];
            }
            if !used.insert(lower(&i.domain())) {
                continue;
            }
            regs.push(Reg::Inst(i.clone()));
            if fits(&regs) {
                insts.push(i);
            } else {
                regs.pop();
            }
        }
        // The host comes first, the rest in any order.
        let mut rest = regs.split_off(1);
        r.shuffle(&mut rest);
        regs.extend(rest);
        v.push(Node { regs, host, ips, insts });
    }
    v
}

fn expected_details(i: &Inst) -> Loaded {
    let mut t = i.txt.clone();
    t.sort();
    (i.host.clone(), i.port, t)
}

fn same_service(i: &Inst, service: &[u8], tcp: bool) -> bool {
    i.tcp == tcp && i.service.eq_ignore_ascii_case(service)
}

fn flat_inst(i: &Inst) -> Vec<u8> {
    discovery::flat(&[&i.name, &i.service, &i.transport_label()])
}

fn flat_service(i: &Inst) -> Vec<u8> {
    discovery::flat(&[&i.service, &i.transport_label()])
}

/// One exchange through the I/O-less functions.
fn exchange(
    a: &mut Advertiser,
    domain: &Name,
    types: &[QType],
    f: &mut dyn FnMut(Record<'_>),
) -> Result<bool, String> {
    let d = sut::dn(domain);
    no_panic("I/O-less exchange", || {
        let mut buf = [0; uwuhi::MDNS_BUFFER_SIZE];
        let q = uwuhi::service::discovery::encode_query(&mut buf, &d, types);
        let reply = a
            .handle_packet(q)
            .map_err(|e| format!("the advertiser rejects the query of the discoverer: {e}"))?;
        let Some(reply) = reply else {
            return Ok(false);
        };
        let flow = uwuhi::service::discovery::decode_answer(reply, &mut |r| {
            f(r);
            ControlFlow::Continue(())
        })
        .map_err(|e| format!("the discoverer rejects the reply of the advertiser: {e:?}"))?;
        if flow.is_break() {
            return Err("decode_answer reports Break for a callback that never breaks".into());
        }
        Ok(true)
    })?
}

fn sans_io(c: &mut Case<'_>, n: &Node) -> Verdict {
    let mut a = advertiser::build(&n.regs)?;
    let local = b"local".to_vec();
    // service types
    let services: Name = vec![b"_services".to_vec(), b"_dns-sd".to_vec(), b"_udp".to_vec(), local.clone()];
    let mut got = BTreeSet::new();
    let mut bad = vec![];
    exchange(&mut a, &services, &[QType::PTR], &mut |r| {
        if let Record::PTR(p) = r {
            match Service::from_ptr(p) {
                Ok(s) => {
                    got.insert(discovery::flat_service(&s));
                }
                Err(e) => bad.push(format!("{e:?}")),
            }
        }
    })?;
    let want: BTreeSet<Vec<u8>> = n.insts.iter().map(flat_service).collect();
    ensure!(bad.is_empty() && got == want, "service types {got:?} {bad:?}, registered {want:?}");
    c.count("sans_io_types", got.len() as u64);
    for i in &n.insts {
        let mut got = vec![];
        let mut bad = vec![];
        exchange(&mut a, &i.service_domain(), &[QType::PTR], &mut |r| {
            if let Record::PTR(p) = r {
                match ServiceInstance::from_ptr(p) {
                    Ok(s) => got.push(discovery::flat_instance(&s)),
                    Err(e) => bad.push(format!("{e:?}")),
                }
            }
        })?;
        let mut want: Vec<Vec<u8>> = n
            .insts
            .iter()
            .filter(|x| same_service(x, &i.service, i.tcp))
            .map(flat_inst)
            .collect();
        got.sort();
        want.sort();
        ensure!(
            bad.is_empty() && got == want,
            "instances of {}: {got:?} {bad:?}, registered {want:?}",
            name_str(&i.service_domain())
        );
        c.count("sans_io_instances", got.len() as u64);
        let mut srv = vec![];
        let mut txt = vec![];
        exchange(&mut a, &i.domain(), &[QType::SRV, QType::TXT], &mut |r| match r {
            Record::SRV(s) => srv.push(InstanceDetails::from_srv(&s)),
            Record::TXT(t) => txt.push(TxtRecords::from_txt(&t)),
            _ => {}
        })?;
        ensure!(
            srv.len() == 1 && txt.len() == 1,
            "{} SRV and {} TXT records of {}",
            srv.len(),
            txt.len(),
            name_str(&i.domain())
        );
        let Ok(mut d) = srv.pop().unwrap() else {
            return Err("SRV record without details".to_string().into());
        };
        *d.txt_records_mut() = txt.pop().unwrap();
        let got = discovery::loaded(&d);
        let want = expected_details(i);
        ensure!(got == want, "details of {} are {got:?}, registered {want:?}", name_str(&i.domain()));
        c.count("sans_io_details", 1);
    }
    // addresses
    let name = vec![advertiser::scramble_case(&mut c.rng, &vec![n.host.clone()]).pop().unwrap(), local];
    let d = sut::dn(&name);
    let ips = no_panic("I/O-less resolution", || {
        let mut buf = [0; uwuhi::DNS_BUFFER_SIZE];
        let q = uwuhi::resolver::encode_query(&mut buf, &d);
        let reply = a.handle_packet(q).map_err(|e| format!("query rejected: {e}"))?;
        let mut ips = vec![];
        if let Some(reply) = reply {
            uwuhi::resolver::decode_answer(reply, &mut ips).map_err(|e| format!("reply rejected: {e:?}"))?;
        }
        Ok::<_, String>(ips)
    })??;
    ensure!(
        sorted(&ips) == sorted(&n.ips),
        "{} resolves to {ips:?}, registered {:?}",
        name_str(&name),
        n.ips
    );
    c.count("sans_io_addresses", ips.len() as u64);
    Ok(())
}

fn sorted(v: &[IpAddr]) -> Vec<IpAddr> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn discoverer(r: &mut Rng, group: SocketAddr) -> (Disc, bool) {
    let is_async = r.chance(1, 2);
    let d = if r.chance(1, 2) {
        Disc::new(is_async, group, &vec![b"local".to_vec()])
    } else if is_async {
        futures_lite::future::block_on(AsyncDiscoverer::new_multicast_v4()).map(Disc::Async)
    } else {
        SyncDiscoverer::new_multicast_v4().map(Disc::Sync)
    };
    (d.expect("harness: cannot create a discoverer"), is_async)
}

#[derive(Clone)]
enum What {
    Types,
    Instances(Vec<u8>, bool),
}

/// Runs an enumeration over the network and compares it with `want`.
fn enumerate(c: &mut Case<'_>, group: SocketAddr, what: &What, want: &BTreeSet<Vec<u8>>, full: bool) -> Verdict {
    // Lost to scheduling rather than to a defect: repeat with more time before judging.
    let scales: &[u64] = if want.is_empty() { &[80] } else { &[250, 1000, 4000, 16000] };
    let mut last = String::new();
    for (k, ms) in scales.iter().enumerate() {
        let dt = Duration::from_millis(*ms);
        let (mut d, is_async) = discoverer(&mut c.rng, group);
        c.count(if is_async { "async_clients" } else { "sync_clients" }, 1);
        let retransmit = if c.rng.chance(1, 2) { dt / 8 } else { dt * 2 };
        d.timeouts(retransmit, dt);
        let seen: discovery::Seen = Arc::new(Mutex::new(vec![]));
        let (s2, w2) = (seen.clone(), want.clone());
        let what2 = what.clone();
        let stop_early = !full || k > 0;
        let call = net::call("discovery", move || {
            let all = {
                let s = s2.clone();
                move || {
                    let v = s.lock().unwrap();
                    stop_early && w2.iter().all(|w| v.contains(w))
                }
            };
            match &what2 {
                What::Types => d.types_until(&s2, all),
                What::Instances(s, tcp) => {
                    let s = Service::new(Label::new(s), discovery::transport(*tcp));
                    d.instances_until(&s, &s2, all)
                }
            }
        });
        let r = call.wait()?;
        ensure!(r.is_ok(), "discovery failed: {r:?}");
        let got = seen.lock().unwrap().clone();
        let set: BTreeSet<Vec<u8>> = got.iter().cloned().collect();
        ensure!(set.len() == got.len(), "reported twice: {:?}", show_all(&got));
        if let Some(x) = set.iter().find(|x| !want.contains(*x)) {
            return Err(format!("discovered {}, which nobody registered", discovery::show(x)).into());
        }
        if set == *want {
            return Ok(());
        }
        last = format!(
            "discovered only {:?} within {ms} ms, registered {:?}",
            show_all(&got),
            show_all(&want.iter().cloned().collect::<Vec<_>>())
        );
    }
    Err(last.into())
}

fn show_all(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|x| discovery::show(x)).collect()
}

fn c12(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let nodes = nodes(&mut c.rng);
    c.note = nodes.iter().map(|n| format!("{:?}", n.regs)).collect::<Vec<_>>().join(" | ");
    for n in &nodes {
        sans_io(c, n)?;
    }
    // Every now and then the advertisers are on one host and the clients on another.
    let other = if c.rng.chance(1, 6) {
        match net::linked_networks(&mut c.rng) {
            Ok(o) => Some(o),
            Err(_) => {
                c.count("no_linked_networks", 1);
                None
            }
        }
    } else {
        None
    };
    if other.is_none() {
        net::fresh_network()?;
    }
    let group: SocketAddr = (net::GROUP, net::MDNS_PORT).into();
    let mut servers: Vec<Server> = vec![];
    for n in &nodes {
        let is_async = c.rng.chance(1, 2);
        c.count(if is_async { "async_servers" } else { "sync_servers" }, 1);
        servers.push(Server::start(is_async, &n.regs));
    }
    c.count("several_servers", (nodes.len() > 1).into());
    let own = if let Some(o) = &other {
        o.enter().map_err(Fail::Inconclusive)?;
        c.count("linked_networks", 1);
        Ipv4Addr::UNSPECIFIED
    } else {
        Ipv4Addr::LOCALHOST
    };
    let junk = UdpSocket::bind((own, 0)).expect("harness: bind");
    if other.is_some() && c.rng.chance(1, 2) {
        // Others on this host are members of the group, too.
        junk.join_multicast_v4(&net::GROUP, &Ipv4Addr::UNSPECIFIED).expect("harness: join");
        c.count("member_next_to_clients", 1);
    }
    for (n, s) in nodes.iter().zip(&mut servers) {
        let client = UdpSocket::bind((own, 0)).expect("harness: bind");
        let mut ids = 1;
        let q: Q = sockets::host_question(&n.regs);
        sockets::ask_until_answered(&client, group, &q, &mut ids, s)?;
    }
    let noise = |c: &mut Case<'_>| {
        if c.rng.chance(1, 3) {
            for _ in 0..c.rng.range(1, 4) {
                let (mut b, _) = gen::hostile(&mut c.rng);
                b.truncate(9000);
                net::send(&junk, &b, group);
            }
        }
    };
    let insts: Vec<&Inst> = nodes.iter().flat_map(|n| &n.insts).collect();
    let full = c.rng.chance(1, 8);
    c.count("full_runs", full.into());

    noise(c);
    let want: BTreeSet<Vec<u8>> = insts.iter().map(|i| flat_service(i)).collect();
    if !want.is_empty() {
        c.evals(1);
        enumerate(c, group, &What::Types, &want, full)?;
        c.count("live_types", want.len() as u64);
    }
    let mut services: Vec<(Vec<u8>, bool)> = insts.iter().map(|i| (i.service.clone(), i.tcp)).collect();
    services.sort();
    services.dedup();
    let mut h = 0;
    let mut found = 0;
    for (s, tcp) in &services {
        noise(c);
        c.evals(1);
        let want: BTreeSet<Vec<u8>> = insts
            .iter()
            .filter(|i| same_service(i, s, *tcp))
            .map(|i| flat_inst(i))
            .collect();
        let asked = advertiser::scramble_case(&mut c.rng, &vec![s.clone()]).pop().unwrap();
        enumerate(c, group, &What::Instances(asked, *tcp), &want, full)?;
        c.count("live_instances", want.len() as u64);
        for w in &want {
            h ^= hash_bytes(w);
        }
    }
    if c.rng.chance(1, 6) {
        let s = b"_nobody-has-this".to_vec();
        c.evals(1);
        enumerate(c, group, &What::Instances(s, true), &BTreeSet::new(), true)?;
        c.count("live_absent_service", 1);
    }
    for i in &insts {
        noise(c);
        c.evals(1);
        let (mut d, is_async) = discoverer(&mut c.rng, group);
        c.count(if is_async { "async_clients" } else { "sync_clients" }, 1);
        let limit = Duration::from_secs(25);
        d.timeouts(Duration::from_secs(5), limit);
        let inst = i.instance();
        let call = net::call("load_instance_details", move || {
            let t = Instant::now();
            let r = d.details(&inst).map(|d| discovery::loaded(&d)).map_err(|e| e.kind());
            (r, t.elapsed())
        });
        let (r, took) = call.wait()?;
        let want = expected_details(i);
        ensure!(
            r.as_ref() == Ok(&want),
            "details of {} over the network are {r:?}, registered {want:?}",
            name_str(&i.domain())
        );
        ensure!(took < limit, "loading the details took {took:?} although they were sent at once");
        c.count("live_details", 1);
        found += 1;
    }
    for n in &nodes {
        noise(c);
        c.evals(1);
        let is_async = c.rng.chance(1, 2);
        c.count(if is_async { "async_clients" } else { "sync_clients" }, 1);
        let mut r = Resolver::multicast(is_async).expect("harness: cannot create a resolver");
        r.set_timeout(Duration::from_secs(25));
        let mut name = vec![n.host.clone(), b"local".to_vec()];
        if c.rng.chance(1, 2) {
            name = advertiser::scramble_case(&mut c.rng, &name);
        }
        let how = if c.rng.chance(1, 2) { How::Str(name_str(&name)) } else { How::Name(name.clone()) };
        let call = net::call("resolve", move || r.resolve(&how).map_err(|e| e.kind()));
        let got = call.wait()?;
        ensure!(
            got.as_ref().is_ok_and(|v| sorted(v) == sorted(&n.ips)),
            "{} resolves to {got:?} over the network, registered {:?}",
            name_str(&name),
            n.ips
        );
        c.count("live_addresses", n.ips.len() as u64);
    }
    for s in &mut servers {
        s.alive()?;
    }
    if found > 0 {
        let note = c.note.clone();
        c.nontrivial(h, || note);
    }
    Ok(())
}
