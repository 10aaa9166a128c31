//! C10, C11: the advertiser's answers. Also the model of an advertiser that the end-to-end and
//! socket monitors use.

#[cfg(feature = "net")]
use crate::props::soak;
use crate::ensure;
use crate::gen;
use crate::mon::{hex, no_panic, Case, Prop, Verdict};
use crate::refdns::{self, lower, ty, Data, Item, Msg, Name, Parsed, Rr, Q, W};
use crate::rng::{hash_bytes, Rng};
use crate::sut;
use std::collections::BTreeMap;
use std::net::IpAddr;
use uwuhi::name::Label;
use uwuhi::packet::records::TXT;
use uwuhi::service::advertising::Advertiser;
use uwuhi::service::{InstanceDetails, ServiceInstance, ServiceTransport, TxtRecords};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            rule: "case = random registrations (1-3 host names, 0-4 instances, sometimes enough to exceed 1500 bytes) and 24 packets (queries for registered names in random letter case, near misses, other types and classes, compressed, with further sections; responses; other opcodes/rcodes; malformed questions), replies judged against the registered records; non-trivial = packet that was answered, or a near miss that was not",
            quick: 64_000,
            thorough: 2_200_000,
            threads: 0,
            run: c10,
            required: &["crowds", "answered", "not_answered", "not_a_query", "malformed_question", "truncated_replies", "qtype_all", "qclass_any", "case_variants", "near_misses", "multi_question", "records_checked", "unicast_bit_set"],
        },
        Prop {
            id: "C11",
            rule: "case = history of 4-40 events (registrations, queries, hostile packets) on one advertiser; after it, probes are compared with an advertiser that saw the registrations only, and with replies before the hostile packets; non-trivial = history with hostile packets and answered probes",
            quick: 48_000,
            thorough: 1_700_000,
            threads: 0,
            run: c11,
            required: &["long_histories", "histories", "hostile_packets", "rejected_packets", "probes_answered", "registrations", "reply_bytes_compared", "repeated_queries", "queries_around_registrations"],
        },
    ]
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub name: Vec<u8>,
    /// With underscore.
    pub service: Vec<u8>,
    pub tcp: bool,
    pub host: Name,
    pub port: u16,
    pub txt: Vec<(String, Option<Vec<u8>>)>,
}

impl Inst {
    pub fn transport(&self) -> ServiceTransport {
        if self.tcp {
            ServiceTransport::TCP
        } else {
            ServiceTransport::Other
        }
    }
    pub fn transport_label(&self) -> Vec<u8> {
        if self.tcp { &b"_tcp"[..] } else { b"_udp" }.to_vec()
    }
    pub fn domain(&self) -> Name {
        let mut n = vec![self.name.clone()];
        n.extend(self.service_domain());
        n
    }
    pub fn service_domain(&self) -> Name {
        vec![self.service.clone(), self.transport_label(), b"local".to_vec()]
    }
    pub fn txt_entries(&self) -> Vec<Vec<u8>> {
        if self.txt.is_empty() {
            return vec![vec![]];
        }
        self.txt
            .iter()
            .map(|(k, v)| {
                let mut e = k.as_bytes().to_vec();
                if let Some(v) = v {
                    e.push(b'=');
                    e.extend_from_slice(v);
                }
                e
            })
            .collect()
    }
    pub fn instance(&self) -> ServiceInstance {
        ServiceInstance::new(
            Label::new(&self.name),
            Label::new(&self.service),
            self.transport(),
        )
    }
    pub fn details(&self) -> InstanceDetails {
        let mut d = InstanceDetails::new(sut::dn(&self.host), self.port);
        if self.txt.iter().all(|(_, v)| v.is_none()) {
            for (k, _) in &self.txt {
                d.txt_records_mut().add_flag(k.clone());
            }
        } else {
            *d.txt_records_mut() = TxtRecords::from_txt(&TXT::new(self.txt_entries()));
        }
        d
    }
    pub fn records(&self) -> Vec<(Name, Data)> {
        let services: Name = [&b"_services"[..], b"_dns-sd", b"_udp", b"local"]
            .iter()
            .map(|l| l.to_vec())
            .collect();
        vec![
            (self.domain(), Data::SRV(0, 0, self.port, self.host.clone())),
            (self.domain(), Data::TXT(self.txt_entries())),
            (self.service_domain(), Data::PTR(self.domain())),
            (services, Data::PTR(self.service_domain())),
        ]
    }
}

pub fn host_record(name: &[u8], ip: IpAddr) -> (Name, Data) {
    (
        vec![name.to_vec(), b"local".to_vec()],
        match ip {
            IpAddr::V4(a) => Data::A(a.octets()),
            IpAddr::V6(a) => Data::AAAA(a.octets()),
        },
    )
}

pub fn random_ip(r: &mut Rng) -> IpAddr {
    if r.chance(1, 2) {
        IpAddr::V4(gen::v4(r).into())
    } else {
        IpAddr::V6(gen::v6(r).into())
    }
}

pub fn service_label(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => b"_http".to_vec(),
        1 => b"_HTTP".to_vec(),
        2 => b"_ipp".to_vec(),
        3 => b"_".to_vec(),
        4 => {
            let n = *r.pick(&[14usize, 15, 61, 62]);
            let mut v = b"_".to_vec();
            v.extend((0..n).map(|_| *r.pick(b"abcxyz-")));
            v
        }
        _ => {
            let mut v = b"_".to_vec();
            v.extend(gen::label(r));
            v.truncate(63);
            v
        }
    }
}

pub fn random_txt(r: &mut Rng, big: bool) -> Vec<(String, Option<Vec<u8>>)> {
    let n = if big { r.range(3, 8) } else { r.below(4) };
    let flags_only = r.chance(1, 3);
    let mut v: Vec<(String, Option<Vec<u8>>)> = vec![];
    for i in 0..n {
        let k = match r.below(5) {
            0 => format!("Key{i}"),
            1 => format!("path{i}"),
            2 => format!("K\u{fc}che{i}"),
            _ => {
                let l = r.range(1, 9);
                (0..l).map(|_| *r.pick(&['a', 'B', 'c', '-', '_', '9', ' '])).collect()
            }
        };
        if v.iter().any(|(x, _)| x.eq_ignore_ascii_case(&k)) {
            continue;
        }
        let val = if flags_only || r.chance(1, 4) {
            None
        } else {
            let l = if big { r.range(100, 240) } else { *r.pick(&[0usize, 1, 5, 20]) };
            Some(r.bytes(l))
        };
        v.push((k, val));
    }
    v
}

pub fn random_inst(r: &mut Rng, big: bool) -> Inst {
    Inst {
        name: gen::label(r),
        service: service_label(r),
        tcp: r.chance(1, 2),
        host: gen::name(r),
        port: r.u16_edge(),
        txt: random_txt(r, big),
    }
}

#[derive(Clone, Debug)]
pub enum Reg {
    Name(Vec<u8>, IpAddr),
    Inst(Inst),
}

pub fn random_regs(r: &mut Rng) -> Vec<Reg> {
    let mut v = vec![Reg::Name(gen::label(r), random_ip(r))];
    for _ in 0..r.below(3) {
        let n = if r.chance(1, 3) {
            match &v[0] {
                Reg::Name(n, _) => n.clone(),
                Reg::Inst(_) => unreachable!(),
            }
        } else {
            gen::label(r)
        };
        v.push(Reg::Name(n, random_ip(r)));
    }
    let big = r.chance(1, 8);
    let n = if big { r.range(2, 6) } else { r.below(5) };
    for _ in 0..n {
        let mut i = random_inst(r, big);
        if let Some(Reg::Inst(prev)) = v.iter().rev().find(|x| matches!(x, Reg::Inst(_))) {
            match r.below(6) {
                0 | 1 => {
                    // another instance of the same service
                    i.service = prev.service.clone();
                    i.tcp = prev.tcp;
                }
                2 => {
                    // same names, other transport
                    i.name = prev.name.clone();
                    i.service = prev.service.clone();
                    i.tcp = !prev.tcp;
                }
                3 => i.name = prev.name.clone(),
                _ => {}
            }
        }
        v.push(Reg::Inst(i));
    }
    v
}

pub fn records(regs: &[Reg]) -> Vec<(Name, Data)> {
    regs.iter()
        .flat_map(|r| match r {
            Reg::Name(n, ip) => vec![host_record(n, *ip)],
            Reg::Inst(i) => i.records(),
        })
        .collect()
}

pub fn register(a: &mut Advertiser, r: &Reg) {
    match r {
        Reg::Name(n, ip) => a.add_name(Label::new(n), *ip),
        Reg::Inst(i) => a.add_instance(i.instance(), i.details()),
    }
}

pub fn build(regs: &[Reg]) -> Result<Advertiser, String> {
    let Reg::Name(n, ip) = &regs[0] else {
        panic!("harness: first registration is the host")
    };
    no_panic("Advertiser::new", || {
        let mut a = Advertiser::new(Label::new(n), *ip).unwrap();
        for r in &regs[1..] {
            register(&mut a, r);
        }
        a
    })
}

/// Order of TXT entries is not fixed by the registration.
fn norm(d: &Data) -> Data {
    match d {
        Data::TXT(e) => {
            let mut e = e.clone();
            e.sort();
            Data::TXT(e)
        }
        d => d.clone(),
    }
}

pub fn rr_of(name: &Name, d: &Data) -> Rr {
    Rr {
        name: name.clone(),
        class: 1,
        flush: false,
        ttl: 120,
        data: d.clone(),
    }
}

fn qtype_matches(q: u16, t: u16) -> bool {
    match q {
        ty::ANY => true,
        ty::MAILB => matches!(t, ty::MB | ty::MG | ty::MR),
        ty::AXFR | ty::MAILA => false,
        _ => q == t,
    }
}

/// The registered records that answer the questions, with the number of registrations.
pub fn expected_answers(recs: &[(Name, Data)], qs: &[Q]) -> BTreeMap<(Name, Data), usize> {
    let mut m = BTreeMap::new();
    for (n, d) in recs {
        if qs.iter().any(|q| {
            (q.class == 1 || q.class == 255)
                && qtype_matches(q.ty, d.ty())
                && lower(&q.name) == lower(n)
        }) {
            *m.entry((lower(n), norm(d))).or_insert(0) += 1;
        }
    }
    m
}

pub struct Judged {
    pub records: usize,
    pub truncated: bool,
}

/// Judges a reply to a well-formed query.
pub fn judge_reply(
    reply: Option<&[u8]>,
    id: u16,
    qs: &[Q],
    recs: &[(Name, Data)],
) -> Result<Option<Judged>, String> {
    let want = expected_answers(recs, qs);
    let Some(reply) = reply else {
        return if want.is_empty() {
            Ok(None)
        } else {
            Err(format!("no reply, expected {want:?}"))
        };
    };
    if want.is_empty() {
        return Err(format!("a reply although nothing matches: {}", hex(reply)));
    }
    if reply.len() > uwuhi::MDNS_BUFFER_SIZE {
        return Err(format!("reply of {} bytes", reply.len()));
    }
    let p = refdns::parse(reply).map_err(|_| format!("reply without header: {}", hex(reply)))?;
    if p.hdr.id != id {
        return Err(format!("reply has id {}, query had {id}", p.hdr.id));
    }
    if p.hdr.flags & refdns::QR == 0
        || p.hdr.flags & refdns::AA == 0
        || p.hdr.opcode() != 0
        || p.hdr.rcode() != 0
    {
        return Err(format!("reply flags {:#06x}", p.hdr.flags));
    }
    if let Some(e) = p.error() {
        return Err(format!("reply cannot be read: {e:?}: {}", hex(reply)));
    }
    let tc = p.hdr.flags & refdns::TC != 0;
    let mut seen: BTreeMap<(Name, Data), usize> = BTreeMap::new();
    for i in &p.items {
        match i {
            Item::Q { .. } => {}
            Item::R {
                sec,
                name,
                ty,
                class,
                ttl,
                typed,
                ..
            } => {
                let Some(Ok(d)) = typed else {
                    return Err(format!("reply holds an unreadable record: {i:?}"));
                };
                let key = (lower(name), norm(d));
                if *class != 1 || *ttl != 120 || *ty != d.ty() {
                    return Err(format!("reply record with class {class}, TTL {ttl}: {i:?}"));
                }
                if *sec == 1 {
                    if !want.contains_key(&key) {
                        return Err(format!("record that was not asked for or not registered: {i:?}"));
                    }
                    *seen.entry(key).or_insert(0) += 1;
                } else if !recs.iter().any(|(n, d)| (lower(n), norm(d)) == key) {
                    return Err(format!("record that was not registered: {i:?}"));
                }
            }
            Item::E { .. } => unreachable!(),
        }
    }
    let mut least = 12;
    let mut most = 12;
    let mut largest = 0;
    for ((n, d), regs) in &want {
        let l = refdns::rr_wire_len(&rr_of(n, d));
        least += l;
        most += l * regs * qs.len();
        largest = largest.max(l);
        let got = seen.get(&(n.clone(), d.clone())).copied().unwrap_or(0);
        if got > regs * qs.len() {
            return Err(format!("{got} copies of {n:?} {d:?}"));
        }
        if got == 0 && !tc {
            return Err(format!("answer is missing {} {d:?}", refdns::name_str(n)));
        }
    }
    let room = uwuhi::MDNS_BUFFER_SIZE;
    if tc {
        if most <= room {
            return Err(format!("truncated although the answer takes only {most} bytes"));
        }
        if p.end + largest <= room {
            return Err(format!(
                "truncated at {} bytes, although any further record would have fit",
                p.end
            ));
        }
    } else {
        if p.end != reply.len() {
            return Err(format!(
                "{} bytes behind the end of the reply: {}",
                reply.len() - p.end,
                hex(reply)
            ));
        }
        let _ = least;
    }
    Ok(Some(Judged {
        records: seen.values().sum(),
        truncated: tc,
    }))
}

pub fn scramble_case(r: &mut Rng, n: &Name) -> Name {
    n.iter()
        .map(|l| {
            l.iter()
                .map(|b| {
                    if r.chance(1, 2) {
                        b.to_ascii_uppercase()
                    } else {
                        b.to_ascii_lowercase()
                    }
                })
                .collect()
        })
        .collect()
}

fn near_miss(r: &mut Rng, n: &Name) -> Name {
    let mut m = n.clone();
    if m.is_empty() {
        return vec![b"x".to_vec()];
    }
    match r.below(9) {
        7 | 8 => {
            // the other case of letters that are no ASCII letters, or what looks like it
            let mut found = false;
            for l in &mut m {
                let other = |s: &str| -> String {
                    s.chars()
                        .map(|c| {
                            let mut u = c.to_uppercase();
                            match (c.is_ascii(), u.next(), u.next()) {
                                (false, Some(x), None) if x != c => x,
                                (false, ..) => c.to_lowercase().next().unwrap_or(c),
                                _ => c,
                            }
                        })
                        .collect()
                };
                if let Ok(s) = std::str::from_utf8(l) {
                    let o = other(s);
                    if o != s && o.len() <= 63 {
                        *l = o.into_bytes();
                        found = true;
                    }
                }
            }
            if !found {
                let i = r.below(m.len());
                let j = r.below(m[i].len());
                m[i][j] ^= if m[i][j].is_ascii_alphabetic() { 0x80 } else { 0x20 };
            }
        }
        0 => {
            m.remove(0);
        }
        1 => m.insert(0, b"x".to_vec()),
        2 => {
            m.pop();
        }
        3 => m.push(b"local".to_vec()),
        4 => {
            let i = r.below(m.len());
            let j = r.below(m[i].len());
            m[i][j] ^= *r.pick(&[1u8, 0x80, 2, 4]);
        }
        5 => {
            // join the first two labels with a dot
            if m.len() >= 2 && m[0].len() + m[1].len() < 63 {
                let second = m.remove(1);
                m[0].push(b'.');
                m[0].extend(second);
            }
        }
        _ => {
            let i = r.below(m.len());
            if m[i].len() > 1 && r.chance(1, 2) {
                m[i].pop();
            } else if m[i].len() < 63 {
                m[i].push(b'a');
            }
        }
    }
    while refdns::name_wire_len(&m) > 255 {
        m.remove(0);
    }
    m
}

#[derive(Default, Clone, Debug)]
pub struct QKind {
    pub case: bool,
    pub miss: bool,
}

pub fn random_question(r: &mut Rng, recs: &[(Name, Data)]) -> (Q, QKind) {
    let (n, d) = r.pick(recs);
    let mut k = QKind::default();
    let name = match r.below(10) {
        0..=3 => n.clone(),
        4..=5 => {
            k.case = true;
            scramble_case(r, n)
        }
        6..=7 => {
            k.miss = true;
            near_miss(r, n)
        }
        8 => gen::name(r),
        _ => match r.pick(recs) {
            (_, Data::PTR(p)) => p.clone(),
            (_, Data::SRV(_, _, _, h)) => h.clone(),
            (n, _) => n.clone(),
        },
    };
    let q = Q {
        name,
        ty: match r.below(8) {
            0..=3 => d.ty(),
            4..=5 => ty::ANY,
            6 => *r.pick(&[ty::A, ty::AAAA, ty::SRV, ty::TXT, ty::PTR]),
            _ => gen::type_code(r),
        },
        class: match r.below(8) {
            0..=5 => 1,
            6 => 255,
            _ => gen::class(r),
        },
        qu: r.chance(1, 4),
    };
    (q, k)
}

pub fn query_bytes(r: &mut Rng, id: u16, flags: u16, qs: &[Q], extra: bool) -> Vec<u8> {
    let mut m = Msg {
        id,
        flags,
        q: qs.to_vec(),
        ..Msg::default()
    };
    if extra {
        let mut pool = vec![];
        for s in 0..3 {
            for _ in 0..r.below(3) {
                m.sec[s].push(gen::rr(r, &mut pool));
            }
        }
    }
    let compress = *r.pick(&[0usize, 8, 16]);
    let mut w = W::compressing(r, compress);
    w.msg(&m);
    w.out
}

fn c10(c: &mut Case<'_>) -> Verdict {
    #[cfg(feature = "net")]
    if soak::due(c) {
        return soak::advertiser_crowd(c);
    }
    let regs = random_regs(&mut c.rng);
    let recs = records(&regs);
    let mut a = build(&regs)?;
    for _ in 0..24 {
        c.evals(1);
        let r = &mut c.rng;
        let n = *r.pick(&[1usize, 1, 1, 2, 3, 5]);
        let mut qs = vec![];
        let mut kinds = vec![];
        for _ in 0..n {
            let (q, k) = random_question(r, &recs);
            qs.push(q);
            kinds.push(k);
        }
        let id = r.u16_edge();
        // what a query may carry besides: RD, RA, AA, TC, Z bits
        let mut flags = *r.pick(&[0u16, 0, refdns::RD, refdns::TC, 0x07f0]);
        let extra = r.chance(1, 5);
        let kind = r.below(12);
        match kind {
            0 => flags |= refdns::QR,
            1 => flags |= (r.range(1, 15) as u16) << 11,
            2 => flags |= r.range(1, 15) as u16,
            _ => {}
        }
        let mut b = query_bytes(r, id, flags, &qs, extra);
        let mut malformed = false;
        if kind == 3 {
            // the question section cannot be read
            match r.below(3) {
                0 => {
                    let p = refdns::parse(&b).unwrap();
                    let end = match &p.items[n - 1] {
                        Item::Q { end, .. } => *end,
                        _ => unreachable!(),
                    };
                    let cut = r.range(1, 4);
                    b.truncate(end - cut);
                }
                1 => {
                    let p = refdns::parse(&b).unwrap();
                    let start = if n > 1 {
                        match &p.items[n - 2] {
                            Item::Q { end, .. } => *end,
                            _ => unreachable!(),
                        }
                    } else {
                        12
                    };
                    b[start] = *r.pick(&[0x40, 0x80, 0xff]);
                    b.truncate(start + 2);
                    b.extend_from_slice(&[0xff, 0, 1, 0, 1]);
                }
                _ => {
                    b[4] = 0;
                    b[5] = n as u8 + 1;
                    let p = refdns::parse(&query_bytes(&mut r.clone(), id, flags, &qs, false));
                    let _ = p;
                    let mut w = W::plain();
                    w.msg(&Msg { id, flags, q: qs.clone(), ..Msg::default() });
                    b = w.out;
                    b[5] = n as u8 + 1;
                }
            }
            malformed = refdns::parse(&b).map_or(true, |p| {
                matches!(p.error(), Some((0, _))) || p.questions() < usize::from(p.hdr.counts[0])
            });
        }
        c.note = format!("registered {regs:?}; packet {}", hex(&b));
        let res = no_panic("handle_packet", || {
            a.handle_packet(&b).map(|r| r.map(<[u8]>::to_vec))
        })?;
        if kind <= 2 || malformed {
            c.count(if malformed { "malformed_question" } else { "not_a_query" }, 1);
            if let Ok(Some(reply)) = res {
                return Err(format!(
                    "replied to a packet that is not a well-formed query: {}",
                    hex(&reply)
                )
                .into());
            }
            continue;
        }
        let reply = match &res {
            Ok(r) => r.as_deref(),
            Err(e) => return Err(format!("well-formed query rejected: {e}").into()),
        };
        let j = judge_reply(reply, id, &qs, &recs)?;
        c.count(if j.is_some() { "answered" } else { "not_answered" }, 1);
        if let Some(j) = &j {
            c.count("records_checked", j.records as u64);
            c.count("truncated_replies", j.truncated.into());
            if kinds.iter().any(|k| k.case) {
                c.count("case_variants", 1);
            }
            if qs.iter().any(|q| q.ty == ty::ANY) {
                c.count("qtype_all", 1);
            }
            if qs.iter().any(|q| q.class == 255) {
                c.count("qclass_any", 1);
            }
            if qs.iter().any(|q| q.qu) {
                c.count("unicast_bit_set", 1);
            }
            if n > 1 {
                c.count("multi_question", 1);
            }
        } else if kinds.iter().any(|k| k.miss) {
            c.count("near_misses", 1);
        }
        if j.is_some() || kinds.iter().any(|k| k.miss) {
            c.nontrivial(hash_bytes(&b), || {
                format!("query {} -> {}", hex(&b), reply.map_or("-".into(), hex))
            });
        }
    }
    Ok(())
}

pub fn sorted_items(p: &Parsed) -> Vec<String> {
    let mut v: Vec<String> = p
        .items
        .iter()
        .map(|i| match i {
            Item::R {
                sec,
                name,
                ty,
                class,
                flush,
                ttl,
                typed,
                ..
            } => {
                let typed = typed.as_ref().map(|t| t.as_ref().map(norm));
                format!("{sec} {name:?} {ty} {class} {flush} {ttl} {typed:?}")
            }
            Item::Q { name, ty, class, .. } => format!("q {name:?} {ty} {class}"),
            Item::E { sec, err } => format!("{sec} {err:?}"),
        })
        .collect();
    v.sort();
    v
}

fn c11(c: &mut Case<'_>) -> Verdict {
    #[cfg(feature = "net")]
    if soak::due(c) {
        return soak::advertiser_history(c);
    }
    let all = random_regs(&mut c.rng);
    let mut regs = vec![all[0].clone()];
    let mut pending: Vec<Reg> = all[1..].to_vec();
    let mut a = build(&regs)?;
    let mut log = vec![format!("new {:?}", regs[0])];
    let n = c.rng.range(4, 40);
    let (mut hostile, mut answered) = (0, 0);
    // reply to a fixed query since the last registration
    let mut fixed: Option<(Vec<u8>, Option<Vec<u8>>)> = None;
    let mut h = 0u64;
    let mut last: Option<(Q, u16)> = None;
    for _ in 0..n {
        match c.rng.below(10) {
            0 | 1 if !pending.is_empty() => {
                // A query for the new records (or, unrelated, the last one) right before and after.
                let r = pending.remove(0);
                let new = records(std::slice::from_ref(&r));
                let before = records(&regs);
                let around = match c.rng.below(3) {
                    0 => None,
                    1 => Some((random_question(&mut c.rng, &new).0, c.rng.u16())),
                    _ => last.clone(),
                };
                for repeat in 0..3 {
                    if repeat == 1 {
                        log.push(format!("{r:?}"));
                        no_panic("registration", || register(&mut a, &r))?;
                        regs.push(r.clone());
                    }
                    let Some((q, id)) = &around else { continue };
                    let now = if repeat == 0 { before.clone() } else { records(&regs) };
                    let b = query_bytes(&mut Rng::new(0, "fixed", 0), *id, 0, std::slice::from_ref(q), false);
                    log.push(format!("query {}", hex(&b)));
                    c.note = log.join("; ");
                    let x = no_panic("handle_packet", || {
                        a.handle_packet(&b).map(|r| r.map(<[u8]>::to_vec))
                    })?;
                    let Ok(x) = x else {
                        return Err("well-formed query rejected".to_string().into());
                    };
                    judge_reply(x.as_deref(), *id, std::slice::from_ref(q), &now)?;
                    c.count("queries_around_registrations", 1);
                }
                fixed = None;
                c.count("registrations", 1);
            }
            2..=4 => {
                let recs = records(&regs);
                let (q, _) = random_question(&mut c.rng, &recs);
                let id = c.rng.u16();
                let b = query_bytes(&mut c.rng, id, 0, &[q.clone()], false);
                log.push(format!("query {}", hex(&b)));
                c.note = log.join("; ");
                let r = no_panic("handle_packet", || {
                    a.handle_packet(&b).map(|r| r.map(<[u8]>::to_vec))
                })?;
                let Ok(r) = r else {
                    return Err("well-formed query rejected".to_string().into());
                };
                answered += usize::from(judge_reply(r.as_deref(), id, &[q.clone()], &recs)?.is_some());
                if c.rng.chance(1, 4) {
                    let again = no_panic("handle_packet", || {
                        a.handle_packet(&b).map(|r| r.map(<[u8]>::to_vec))
                    })?;
                    ensure!(
                        again.as_ref().is_ok_and(|x| *x == r),
                        "the same query was answered with {:?} first and {:?} the second time",
                        r.as_deref().map(hex),
                        again.ok().flatten().as_deref().map(hex)
                    );
                    c.count("repeated_queries", 1);
                }
                last = Some((q, id));
                if fixed.is_none() {
                    fixed = Some((b, r));
                }
            }
            _ => {
                let b = if c.rng.chance(1, 2) {
                    gen::hostile(&mut c.rng).0
                } else {
                    // starts like a good query, for a registered name
                    let recs = records(&regs);
                    let mut qs = vec![];
                    for _ in 0..c.rng.range(1, 4) {
                        qs.push(random_question(&mut c.rng, &recs).0);
                    }
                    let b = query_bytes(&mut c.rng, 1, 0, &qs, true);
                    gen::mutate(&mut c.rng, b, &[12, 13], &[])
                };
                h ^= hash_bytes(&b);
                log.push(format!("packet {}", hex(&b)));
                c.note = log.join("; ");
                let ok = no_panic("handle_packet", || a.handle_packet(&b).is_ok())?;
                hostile += 1;
                c.count("hostile_packets", 1);
                c.count("rejected_packets", (!ok).into());
            }
        }
    }
    c.count("histories", 1);
    let recs = records(&regs);
    let ask = |a: &mut Advertiser, b: &[u8]| -> Result<Option<Vec<u8>>, String> {
        no_panic("handle_packet", || {
            a.handle_packet(b).map(|r| r.map(<[u8]>::to_vec))
        })?
        .map_err(|e| format!("well-formed query rejected: {e}"))
    };
    if let Some((b, before)) = &fixed {
        let after = ask(&mut a, b)?;
        ensure!(
            after == *before,
            "the same query was answered with {:?} before and {:?} after other packets",
            before.as_deref().map(hex),
            after.as_deref().map(hex)
        );
        c.count("reply_bytes_compared", after.map_or(0, |b| b.len() as u64));
    }
    let mut fresh = build(&regs)?;
    for _ in 0..6 {
        c.evals(1);
        let mut qs = vec![];
        for _ in 0..c.rng.range(1, 3) {
            qs.push(random_question(&mut c.rng, &recs).0);
        }
        let id = c.rng.u16();
        let b = query_bytes(&mut c.rng, id, 0, &qs, false);
        c.note = format!("{}; probe {}", log.join("; "), hex(&b));
        let (x, y) = (ask(&mut a, &b)?, ask(&mut fresh, &b)?);
        judge_reply(x.as_deref(), id, &qs, &recs)?;
        match (&x, &y) {
            (None, None) => {}
            (Some(x), Some(y)) => {
                let (px, py) = (refdns::parse(x), refdns::parse(y));
                let (Ok(px), Ok(py)) = (px, py) else {
                    return Err("reply without header".to_string().into());
                };
                let tc = px.hdr.flags & refdns::TC != 0;
                ensure!(
                    px.hdr.flags == py.hdr.flags
                        && x.len() == y.len()
                        && (tc || sorted_items(&px) == sorted_items(&py)),
                    "after its history the advertiser replies {}, a fresh one {}",
                    hex(x),
                    hex(y)
                );
                answered += 1;
                c.count("probes_answered", 1);
            }
            _ => {
                return Err(format!(
                    "after its history the advertiser replies {:?}, a fresh one {:?}",
                    x.as_deref().map(hex),
                    y.as_deref().map(hex)
                )
                .into())
            }
        }
    }
    if hostile > 0 && answered > 0 {
        let s = log.join("; ");
        c.nontrivial(h, || s);
    }
    Ok(())
}
