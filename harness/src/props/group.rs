//! C31: multicast clients ask the mDNS group of their address family and take answers from whoever is
//! there; clients of link-local servers reach those.

use crate::ensure;
use crate::mon::{hex, Case, Fail, Prop, Verdict};
use crate::net::{self, Call};
use crate::props::discovery::{self, Disc, Seen};
use crate::props::resolver::{self, How, Resolver};
use crate::refdns::{self, ty, Data, Item, Name, Q};
use crate::rng::hash_bytes;
use std::collections::BTreeMap;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, UdpSocket};
use std::time::{Duration, Instant};
use uwuhi::name::Label;
use uwuhi::service::{Service, ServiceInstance};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "case = 1-3 clients at once (resolvers or discoverers, blocking or async, made for IPv4 or IPv6 multicast or for a link-local server) in a network of their own, which ask 1-3 times each; the queries are observed where they are meant to arrive and at every other address of the link; up to four hosts of the link send unusable packets, decoys and partial responses in random order; results are compared with the model; non-trivial = every round of queries",
        quick: 4_000,
        thorough: 120_000,
        threads: 0,
        run: c31,
        required: &["sync_clients", "async_clients", "resolutions", "instance_discoveries", "type_discoveries", "details", "responders", "slow_responders", "unusable_packets", "concurrent_rounds", "reused_clients", "ttls_seen"],
    }]
}

enum Client {
    Resolver(Resolver),
    Disc(Disc),
}

/// What the client returned, and the items it reported.
type Done = (Client, io::Result<()>, Vec<String>);

struct Asked {
    name: Name,
    types: Vec<u16>,
    call: Call<Done>,
    /// What is to be reported, given the packets.
    want: Vec<String>,
    packets: Vec<Vec<u8>>,
}

fn local(labels: &[&str]) -> Name {
    let mut n: Name = labels.iter().map(|l| l.as_bytes().to_vec()).collect();
    n.push(b"local".to_vec());
    n
}

fn start(mut client: Client, op: usize, tag: &str, tcp: bool, items: usize) -> (Name, Vec<u16>, Call<Done>) {
    let service = Service::new(Label::new(format!("_s{tag}")), discovery::transport(tcp));
    let t = if tcp { "_tcp" } else { "_udp" };
    let (name, types) = match op {
        0 => (local(&[&format!("h{tag}")]), vec![ty::A, ty::AAAA]),
        1 => (local(&[&format!("_s{tag}"), t]), vec![ty::PTR]),
        2 => (local(&["_services", "_dns-sd", "_udp"]), vec![ty::PTR]),
        _ => (local(&[&format!("i{tag}"), &format!("_s{tag}"), t]), vec![ty::SRV, ty::TXT]),
    };
    let (tag, how) = (tag.to_string(), How::Name(name.clone()));
    let call = net::call("a multicast client", move || {
        let mut found = vec![];
        let r = match &mut client {
            Client::Resolver(r) => r.resolve(&how).map(|v| found.extend(v.iter().map(|i| i.to_string()))),
            Client::Disc(d) => {
                let seen = Seen::default();
                let all = seen.clone();
                let done = move || all.lock().unwrap().len() >= items;
                let r = match op {
                    1 => d.instances_until(&service, &seen, done),
                    2 => d.types_until(&seen, done),
                    _ => d
                        .details(&ServiceInstance::from_service(Label::new(format!("i{tag}")), service))
                        .map(|x| found.push(format!("{:?}", discovery::loaded(&x)))),
                };
                found.extend(seen.lock().unwrap().iter().map(|b| discovery::show(b)));
                r
            }
        };
        (client, r, found)
    });
    (name, types, call)
}

fn c31(c: &mut Case<'_>) -> Verdict {
    net::pin();
    let link = net::multicast_link().map_err(|e| Fail::Inconclusive(format!("no private network: {e}")))?;
    let op = c.rng.below(4);
    let is_async = c.rng.chance(1, 2);
    // What the clients are made for: multicast, or a link-local server
    let unicast = c.rng.chance(1, 4);
    let v6 = unicast || op == 0 && c.rng.chance(1, 2);
    let n = if op == 2 { 1 } else { c.rng.range(1, 3) };
    c.note = format!(
        "{n} clients, async {is_async}, operation {op}, {}",
        if unicast { "link-local" } else if v6 { "ff02::fb" } else { "224.0.0.251" }
    );
    c.count(if is_async { "async_clients" } else { "sync_clients" }, n as u64);
    c.count(if unicast { "link_local" } else if v6 { "ipv6_multicast" } else { "ipv4_multicast" }, 1);

    let mut idle = vec![];
    for _ in 0..n {
        let server = net::link_local(1, link);
        let new = match (op, unicast) {
            (0, true) => Resolver::new(is_async, server).map(Client::Resolver),
            (0, false) if v6 => Resolver::multicast_v6(is_async).map(Client::Resolver),
            (0, false) => Resolver::multicast(is_async).map(Client::Resolver),
            (_, true) => Disc::new(is_async, server, &local(&[])).map(Client::Disc),
            (_, false) => Disc::multicast(is_async).map(Client::Disc),
        };
        let mut client = new.map_err(|e| format!("client cannot be created: {e}"))?;
        match &mut client {
            Client::Resolver(r) => r.set_timeout(discovery::LONG),
            Client::Disc(d) => d.timeouts(discovery::NO_RETRANSMIT, discovery::LONG),
        }
        idle.push(client);
    }
    // There is room for those who receive the queries. (Children of this process may hold its
    // sockets for a moment.)
    let begin = Instant::now();
    for any in [IpAddr::V4(Ipv4Addr::UNSPECIFIED), IpAddr::V6(Ipv6Addr::UNSPECIFIED)] {
        while let Err(e) = net::shared((any, net::MDNS_PORT).into()) {
            ensure!(
                begin.elapsed() < Duration::from_secs(5),
                "port 5353 of {any} after {n} clients were made, of which none is to use it: {e}"
            );
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    let e = Fail::Inconclusive;
    // Where the queries go, and where none may go
    let target = if unicast {
        net::shared(net::link_local(1, link)).map_err(e)?
    } else {
        net::group_socket(v6, link).map_err(e)?
    };
    let mut others: Vec<UdpSocket> = vec![];
    for k in 1..=net::LINK_HOSTS {
        others.push(net::shared((net::link_host(v6, k), net::MDNS_PORT).into()).map_err(e)?);
        if v6 && !(unicast && k == 1) {
            others.push(net::shared(net::link_local(k, link)).map_err(e)?);
        }
    }
    others.push(net::group_socket(!v6, link).map_err(e)?);
    if unicast {
        others.push(net::group_socket(true, link).map_err(e)?);
    }
    let responders: Vec<&UdpSocket> = others
        .iter()
        .chain(unicast.then_some(&target))
        .filter(|s| s.local_addr().is_ok_and(|a| a.is_ipv6() == v6 && !a.ip().is_multicast()))
        .collect();

    for round in 0..c.rng.range(1, 3) {
        c.evals(1);
        let mut asked: Vec<Asked> = vec![];
        for (i, client) in idle.drain(..).enumerate() {
            let items = if op == 0 || op == 3 { 1 } else { c.rng.range(1, 6) };
            let tag = format!("{round}-{i}-{}", c.rng.below(1000));
            let (name, types, call) = start(client, op, &tag, c.rng.chance(1, 2), items);
            asked.push(Asked { name, types, call, want: vec![String::new(); items], packets: vec![] });
        }
        // All the queries, each for one of the names
        let mut from: BTreeMap<usize, (u16, SocketAddr)> = BTreeMap::new();
        while from.len() < asked.len() {
            let waiting = (0..asked.len()).find(|i| !from.contains_key(i)).unwrap();
            let Some((b, a, ttl)) = net::recv_with_ttl(&target, &mut asked[waiting].call) else {
                let stray: Vec<_> = others
                    .iter()
                    .flat_map(|s| net::drain(s).into_iter().map(|b| (s.local_addr().ok(), hex(&b))))
                    .collect();
                let name = refdns::name_str(&asked[waiting].name);
                return Err(format!("the query for {name} did not get where it is meant to; elsewhere: {stray:?}").into());
            };
            let asks: Option<Name> = refdns::parse(&b).ok().and_then(|p| {
                p.items.iter().find_map(|i| match i {
                    Item::Q { name, .. } => Some(name.clone()),
                    _ => None,
                })
            });
            let Some(i) = (0..asked.len()).find(|&i| Some(&asked[i].name) == asks.as_ref()) else {
                return Err(format!("a query for nothing that was asked for: {}", hex(&b)).into());
            };
            let id = if op == 0 {
                resolver::check_query(&b, &asked[i].name)?
            } else {
                discovery::check_query(&b, &asked[i].name, &asked[i].types)?
            };
            let name = refdns::name_str(&asked[i].name);
            ensure!(a.port() != net::MDNS_PORT, "the query for {name} comes from port 5353");
            if let Some((j, _)) = from.iter().find(|(j, x)| **j != i && x.1.port() == a.port()) {
                return Err(format!("clients {i} and {j} use the same port").into());
            }
            ensure!(ttl != Some(0), "the query for {name} is sent so that it cannot leave this host");
            c.count("ttls_seen", ttl.is_some().into());
            ensure!(from.insert(i, (id, a)).is_none(), "two queries for {name} at once");
        }
        // Who gets what
        let mut hash = 0u64;
        for (i, x) in asked.iter_mut().enumerate() {
            script(c, op, from[&i].0, x);
            hash = x.packets.iter().fold(hash, |h, b| h.rotate_left(3) ^ hash_bytes(b));
        }
        let mut next = vec![0; asked.len()];
        let slow = c.rng.chance(1, 120);
        c.count("slow_responders", slow.into());
        loop {
            let open: Vec<usize> = (0..asked.len()).filter(|&i| next[i] < asked[i].packets.len()).collect();
            if open.is_empty() {
                break;
            }
            let i = *c.rng.pick(&open);
            let k = c.rng.below(responders.len());
            if slow && c.rng.chance(1, 2) {
                std::thread::sleep(Duration::from_millis(c.rng.below(500) as u64));
            }
            net::send(responders[k], &asked[i].packets[next[i]], from[&i].1);
            next[i] += 1;
            c.count("responders", 1);
        }
        for x in asked {
            let (client, r, found) = x.call.wait()?;
            ensure!(
                r.is_ok() && found == x.want,
                "asked for {}, got {r:?} with {found:?}, the responses say {:?}",
                refdns::name_str(&x.name),
                x.want
            );
            idle.push(client);
            c.count(["resolutions", "instance_discoveries", "type_discoveries", "details"][op], 1);
        }
        for s in others.iter().chain([&target]) {
            if let Some(b) = net::drain(s).first() {
                return Err(format!("{:?} was sent {}", s.local_addr(), hex(b)).into());
            }
        }
        c.count("concurrent_rounds", u64::from(n > 1));
        c.count("reused_clients", u64::from(round > 0));
        let note = c.note.clone();
        c.nontrivial(hash, || note);
    }
    Ok(())
}

/// The packets the hosts of the link send, and what is to be made of them.
fn script(c: &mut Case<'_>, op: usize, id: u16, x: &mut Asked) {
    let r = &mut c.rng;
    let mut unusable = 0;
    let questions: Vec<Q> = x.types.iter().map(|&ty| Q { name: x.name.clone(), ty, class: 1, qu: false }).collect();
    if op == 0 {
        for _ in 0..r.below(5) {
            x.packets.push(resolver::skipped(r, id, &x.name).1);
            unusable += 1;
        }
        let k = r.range(1, 4);
        let good = resolver::response(r, id, &x.name, k);
        x.packets.push(resolver::bytes(r, &good.msg));
        x.want = good.ips.iter().map(|i| i.to_string()).collect();
        c.count("unusable_packets", unusable);
        return;
    }
    let mut groups: Vec<Vec<Data>> = vec![vec![]];
    if op == 3 {
        let (port, host) = (r.u16(), resolver::hostname(r));
        let srv = Data::SRV(r.u16(), r.u16(), port, host.clone());
        let v = r.below(1000).to_string();
        let txt = Data::TXT(vec![format!("v={v}").into_bytes()]);
        x.want = vec![format!("{:?}", (host, port, vec![("v".to_string(), Some(v.into_bytes()))]))];
        groups = match r.below(3) {
            0 => vec![vec![srv, txt]],
            1 => vec![vec![srv], vec![txt]],
            _ => vec![vec![txt], vec![srv]],
        };
    } else {
        for i in 0..x.want.len() {
            let l = format!("{}{i}", if op == 1 { "inst" } else { "_type" });
            let (labels, target): (Vec<&[u8]>, Name) = if op == 1 {
                (vec![l.as_bytes(), &x.name[0], &x.name[1]], discovery::join(&[l.as_bytes()], &x.name))
            } else {
                (vec![l.as_bytes(), b"_tcp"], local(&[&l, "_tcp"]))
            };
            x.want[i] = discovery::show(&discovery::flat(&labels));
            if r.chance(1, 2) {
                groups.push(vec![]);
            }
            groups.last_mut().unwrap().push(Data::PTR(target.clone()));
            // (but nothing comes after the last item)
            if i + 1 < x.want.len() && r.chance(1, 4) {
                // Somebody else says so, too.
                groups.push(vec![Data::PTR(target)]);
            }
        }
    }
    for g in groups {
        if r.chance(1, 3) {
            x.packets.push(discovery::noise(r));
            unusable += 1;
        }
        let answers = g.into_iter().map(|d| discovery::rr(r, &x.name, d)).collect();
        x.packets.push(discovery::packet(r, id, true, &questions, answers));
    }
    c.count("unusable_packets", unusable);
}
