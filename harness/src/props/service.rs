//! C20, C21: TXT metadata, service and instance identities. (No sockets.)

use crate::ensure;
use crate::gen;
use crate::mon::{no_panic, panics, Case, Prop, Verdict};
use crate::refdns::{self, Name};
use crate::rng::{hash_bytes, Rng};
use crate::sut;
use std::collections::{BTreeMap, HashSet};
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::records::{PTR, TXT};
use uwuhi::service::{
    InstanceDetails, Service, ServiceInstance, ServiceTransport, TxtRecordValue, TxtRecords,
};
use uwuhi::Error;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "case = 8 random TXT records (keys in colliding letter cases, flags, empty and binary values, values with '=', empty entries, missing keys, non-UTF-8 keys) parsed and compared with a model of RFC 6763 section 6; non-trivial = record with two or more entries",
            quick: 700_000,
            thorough: 20_000_000,
            threads: 0,
            run: c20,
            required: &["entries", "keys_present", "flags", "values", "empty_values", "duplicate_keys", "missing_keys_ignored", "lookups_other_case", "absent_lookups", "empty_records"],
        },
        Prop {
            id: "C21",
            rule: "case = 12 random service/instance identities and pointer targets; construction, accessors, printing, ordering, hashing, and from_ptr compared with a model; non-trivial = every distinct identity or target",
            quick: 700_000,
            thorough: 20_000_000,
            threads: 0,
            run: c21,
            required: &["services", "instances", "ptr_accepted", "ptr_rejected", "ptr_bad_transport", "ptr_too_short", "ordered_pairs", "confusable", "underscore_panics"],
        },
    ]
}

fn val(v: &TxtRecordValue<'_>) -> Option<Vec<u8>> {
    match v {
        TxtRecordValue::NoValue => None,
        TxtRecordValue::Value(v) => Some(v.to_vec()),
    }
}

fn key(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => b"key".to_vec(),
        1 => b"KEY".to_vec(),
        2 => b"Key".to_vec(),
        3 => b"path".to_vec(),
        4 => "K\u{fc}che".as_bytes().to_vec(),
        5 => vec![],
        6 => vec![b'k', 0xff],
        _ => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(b"abAB-_ 9.")).collect()
        }
    }
}

fn entry(r: &mut Rng) -> Vec<u8> {
    let mut e = key(r);
    match r.below(6) {
        0 => {} // flag
        1 => e.push(b'='),
        2 => e.extend_from_slice(b"=a=b="),
        3 => {
            e.push(b'=');
            let n = *r.pick(&[1usize, 3, 100]);
            e.extend(r.bytes(n));
        }
        _ => {
            e.extend_from_slice(b"=value");
            e.push(b'0' + r.below(10) as u8);
        }
    }
    e.truncate(255);
    e
}

fn c20(c: &mut Case<'_>) -> Verdict {
    for _ in 0..8 {
        c.evals(1);
        let n = if c.rng.chance(1, 2000) { c.rng.range(10, 700) } else { *c.rng.pick(&[1usize, 1, 2, 3, 5, 9]) };
        let entries: Vec<Vec<u8>> = (0..n).map(|_| entry(&mut c.rng)).collect();
        c.note = format!("TXT entries {entries:?}");
        // Model: RFC 6763 6.4. Keys that are not UTF-8 are outside of it (and of a `str` interface).
        let mut model: BTreeMap<String, (String, Option<Vec<u8>>)> = BTreeMap::new();
        for e in &entries {
            c.count("entries", 1);
            let (k, v) = match e.iter().position(|&b| b == b'=') {
                Some(i) => (&e[..i], Some(e[i + 1..].to_vec())),
                None => (&e[..], None),
            };
            if k.is_empty() {
                c.count("missing_keys_ignored", 1);
                continue;
            }
            let Ok(k) = std::str::from_utf8(k) else {
                continue;
            };
            match &v {
                None => c.count("flags", 1),
                Some(v) if v.is_empty() => c.count("empty_values", 1),
                Some(_) => c.count("values", 1),
            }
            let low = k.to_ascii_lowercase();
            if model.contains_key(&low) {
                c.count("duplicate_keys", 1);
            } else {
                model.insert(low, (k.to_string(), v));
            }
        }
        let t = no_panic("TxtRecords::from_txt", || {
            TxtRecords::from_txt(&TXT::new(entries.iter().cloned()))
        })?;
        ensure!(
            t.is_empty() == model.is_empty(),
            "is_empty is {}, {} keys present",
            t.is_empty(),
            model.len()
        );
        if model.is_empty() {
            c.count("empty_records", 1);
        }
        let mut listed: Vec<(String, Option<Vec<u8>>)> =
            t.iter().map(|(k, v)| (k.to_string(), val(&v))).collect();
        let mut want: Vec<(String, Option<Vec<u8>>)> = model.values().cloned().collect();
        listed.sort();
        want.sort();
        ensure!(listed == want, "iter yields {listed:?}, expected {want:?}");
        for (low, (k, v)) in &model {
            c.count("keys_present", 1);
            for q in [k.clone(), low.clone(), k.to_ascii_uppercase()] {
                if q != *k {
                    c.count("lookups_other_case", 1);
                }
                let got = t.get(&q);
                ensure!(
                    got.as_ref().map(val) == Some(v.clone()),
                    "get({q:?}) is {got:?}, expected {v:?}"
                );
            }
        }
        for q in ["nope", "", "ke", "keyy", "key=value1", "="] {
            if !model.contains_key(&q.to_ascii_lowercase()) {
                ensure!(t.get(q).is_none(), "get({q:?}) is {:?}", t.get(q));
                c.count("absent_lookups", 1);
            }
        }
        let shown = no_panic("formatting", || format!("{t}"))?;
        let items: Vec<String> = t
            .iter()
            .map(|(k, v)| match val(&v) {
                None => k.to_string(),
                Some(v) => format!("{k}={}", refdns::esc(&v)),
            })
            .collect();
        ensure!(
            shown == items.join(" "),
            "displayed as {shown:?}, contains {items:?}"
        );
        c.count("displayed", 1);
        for (k, v) in t.iter() {
            // The debug output tells a value from no value (there is no escaping to check here).
            let d = format!("{v:?}");
            ensure!(
                !d.is_empty() || val(&v).is_some_and(|v| v.is_empty()),
                "value of {k:?} has no debug output"
            );
        }
        // flags set by hand
        let mut d = InstanceDetails::new(DomainName::ROOT, 1);
        ensure!(d.txt_records().is_empty(), "new details have metadata");
        let mut keys = HashSet::new();
        for _ in 0..3 {
            let k = match c.rng.below(3) {
                0 => "Flag".to_string(),
                1 => "flag2".to_string(),
                _ => format!("f{}", c.rng.below(5)),
            };
            d.txt_records_mut().add_flag(k.clone());
            keys.insert(k.to_ascii_lowercase());
            ensure!(
                matches!(d.txt_records().get(&k.to_ascii_uppercase()), Some(TxtRecordValue::NoValue)),
                "flag {k:?} is not there"
            );
        }
        ensure!(
            d.txt_records().iter().count() == keys.len() && !d.txt_records().is_empty(),
            "{} flags set, {} listed",
            keys.len(),
            d.txt_records().iter().count()
        );
        if n >= 2 {
            let h = entries.iter().fold(7u64, |h, e| h.rotate_left(9) ^ hash_bytes(e));
            c.nontrivial(h, || format!("{entries:?} -> {listed:?}"));
        }
    }
    Ok(())
}

fn service_name(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(4) {
        0 => b"_http".to_vec(),
        1 => b"_".to_vec(),
        2 => b"_HTTP".to_vec(),
        _ => {
            let mut v = b"_".to_vec();
            v.extend(gen::label(r));
            v
        }
    };
    v.truncate(63);
    v
}

fn c21(c: &mut Case<'_>) -> Verdict {
    let mut services: Vec<((Vec<u8>, bool), Service)> = vec![];
    let mut instances: Vec<((Vec<u8>, Vec<u8>, bool), ServiceInstance)> = vec![];
    let tr = |tcp: bool| {
        if tcp {
            ServiceTransport::TCP
        } else {
            ServiceTransport::Other
        }
    };
    for (t, s) in [(ServiceTransport::TCP, "_tcp"), (ServiceTransport::Other, "_udp")] {
        ensure!(t.to_label().as_bytes() == s.as_bytes(), "{t:?} is labelled {}", t.to_label());
        ensure!(s.parse() == Ok(t), "{s} is parsed as {:?}", s.parse::<ServiceTransport>());
    }
    for s in ["", "_", "_sctp", "tcp", "udp", "_tcp.", "_tcpx", "_tc", "_udp6", "_udp ", " _udp", "_tcp_udp", "_tcp\0"] {
        ensure!(s.parse::<ServiceTransport>().is_err(), "{s:?} parsed as transport");
    }
    for _ in 0..4 {
        c.evals(1);
        let s = service_name(&mut c.rng);
        let tcp = c.rng.chance(1, 2);
        let i = gen::label(&mut c.rng);
        c.note = format!("instance {i:?} of service {s:?} tcp={tcp}");
        let svc = no_panic("Service::new", || Service::new(Label::new(&s), tr(tcp)))?;
        let inst = no_panic("ServiceInstance::new", || {
            ServiceInstance::new(Label::new(&i), Label::new(&s), tr(tcp))
        })?;
        let inst2 = ServiceInstance::from_service(Label::new(&i), svc.clone());
        ensure!(inst == inst2, "{inst} built in two ways differs from {inst2}");
        ensure!(
            svc.name().as_bytes() == s
                && svc.transport() == tr(tcp)
                && inst.instance_name().as_bytes() == i
                && inst.service_name().as_bytes() == s
                && inst.service() == &svc
                && inst.service_transport() == tr(tcp),
            "accessors of {inst} disagree with its parts"
        );
        let t = if tcp { "_tcp" } else { "_udp" };
        let shown = format!("{}.{t}", refdns::esc(&s));
        ensure!(svc.to_string() == shown && format!("{svc:?}") == shown, "{shown} printed as {svc}");
        let ishown = format!("{}.{shown}", refdns::esc(&i));
        ensure!(inst.to_string() == ishown && format!("{inst:?}") == ishown, "{ishown} printed as {inst}");
        c.count("services", 1);
        c.count("instances", 1);
        c.nontrivial(hash_bytes(ishown.as_bytes()), || ishown);
        services.push(((s.clone(), tcp), svc));
        instances.push(((i.clone(), s.clone(), tcp), inst));

        // a name without underscore
        let bad = gen::label(&mut c.rng);
        if bad[0] != b'_' {
            c.count("underscore_panics", 1);
            ensure!(
                panics(|| {
                    let _ = Service::new(Label::new(&bad), tr(tcp));
                }) && panics(|| {
                    let _ = ServiceInstance::new(Label::new(&i), Label::new(&bad), tr(tcp));
                }),
                "service name {bad:?} accepted"
            );
        }
    }
    // pointers
    for k in 0..8 {
        c.evals(1);
        let n: Name = {
            let r = &mut c.rng;
            let t = match r.below(6) {
                0 | 1 => b"_tcp".to_vec(),
                2 | 3 => b"_udp".to_vec(),
                4 => r
                    .pick(&[
                        &b"_sctp"[..], b"_tcpx", b"_tc", b"_udpx", b"_ud", b"_udp6", b"tcp", b"udp", b"_",
                        b"_tcp-udp", b"_tcp.", b"_tcp\0", b" _tcp", b"__tcp", b"_udp_", b"_tcp_udp", b"_http",
                    ])
                    .to_vec(),
                _ => gen::label(r),
            };
            let mut v = match r.below(4) {
                0 => vec![service_name(r), t],
                1 => vec![gen::label(r), service_name(r), t],
                2 => vec![gen::label(r), service_name(r), t, b"local".to_vec()],
                _ => vec![service_name(r), t, b"local".to_vec()],
            };
            if r.chance(1, 6) {
                let cut = r.below(v.len() + 1);
                v.truncate(cut);
            }
            if r.chance(1, 4) {
                v.push(b"example".to_vec());
            }
            v
        };
        c.note = format!("pointer to {}", refdns::name_str(&n));
        let as_service = k % 2 == 0;
        let at = if as_service { 1 } else { 2 };
        // at least one label of domain has to follow
        let want: Result<(&[u8], bool), Error> = if n.len() < at + 2 {
            c.count("ptr_too_short", 1);
            Err(Error::Eof)
        } else {
            match &n[at][..] {
                b"_tcp" => Ok((&n[at - 1], true)),
                b"_udp" => Ok((&n[at - 1], false)),
                t if t.eq_ignore_ascii_case(b"_tcp") || t.eq_ignore_ascii_case(b"_udp") => continue,
                _ => {
                    c.count("ptr_bad_transport", 1);
                    Err(Error::InvalidValue)
                }
            }
        };
        if want.is_ok_and(|(s, _)| !s.starts_with(b"_")) {
            continue; // a service name without underscore: not specified for received pointers
        }
        let ptr = PTR::new(sut::dn(&n));
        let (got, print) = if as_service {
            let r = no_panic("Service::from_ptr", || Service::from_ptr(ptr))?;
            let p = format!("{r:?}");
            (r.map(|s| (s.name().as_bytes().to_vec(), s.transport() == ServiceTransport::TCP, vec![])), p)
        } else {
            let r = no_panic("ServiceInstance::from_ptr", || ServiceInstance::from_ptr(ptr))?;
            let p = format!("{r:?}");
            (
                r.map(|s| {
                    (
                        s.service_name().as_bytes().to_vec(),
                        s.service_transport() == ServiceTransport::TCP,
                        s.instance_name().as_bytes().to_vec(),
                    )
                }),
                p,
            )
        };
        match (&got, &want) {
            (Ok((s, t, i)), Ok((ws, wt))) => {
                ensure!(
                    s == ws && t == wt && (as_service || *i == n[0]),
                    "{} read as {print}",
                    refdns::name_str(&n)
                );
                c.count("ptr_accepted", 1);
            }
            (Err(_), Err(_)) => c.count("ptr_rejected", 1),
            _ => return Err(format!("{} read as {print}, expected {want:?}", refdns::name_str(&n)).into()),
        }
        c.nontrivial(n.iter().fold(3, |h: u64, l| h.rotate_left(7) ^ hash_bytes(l)), || {
            format!("{} -> {print}", refdns::name_str(&n))
        });
    }
    // identities that are printed alike
    let n = c.rng.range(1, 4);
    let x: Vec<u8> = (0..n).map(|_| *c.rng.pick(b"abXY09-")).collect();
    let cat = |p: &[&[u8]]| p.concat();
    let (l, u) = (&b"._"[..], &b"_"[..]);
    for (i, s) in [
        (x.clone(), cat(&[u, &x, l, &x])),
        (cat(&[&x, l, &x]), cat(&[u, &x])),
        (x.clone(), cat(&[u, &x, b"\\x00"])),
        (x.clone(), cat(&[u, &x, b"\0"])),
        (cat(&[&x, b"\\."]), cat(&[u, &x])),
        (cat(&[&x, b"\\"]), cat(&[u, &x])),
    ] {
        let tcp = c.rng.chance(3, 4);
        let svc = Service::new(Label::new(&s), tr(tcp));
        instances.push(((i.clone(), s.clone(), tcp), ServiceInstance::from_service(Label::new(&i), svc.clone())));
        services.push(((s, tcp), svc));
        c.count("confusable", 1);
    }
    macro_rules! pairs {
        ($v:expr) => {
            for (mx, x) in &$v {
                for (my, y) in &$v {
                    c.count("ordered_pairs", 1);
                    if mx == my {
                        ensure!(x == y, "{x} differs from itself");
                    } else if format!("{mx:?}").to_ascii_lowercase() != format!("{my:?}").to_ascii_lowercase() {
                        ensure!(x != y, "{x} and {y} are equal");
                    }
                    ensure!((x == y) == x.cmp(y).is_eq(), "order and equality of {x} and {y} disagree");
                    ensure!(x.cmp(y) == y.cmp(x).reverse(), "order of {x} and {y} is not antisymmetric");
                    if x == y {
                        let set: HashSet<_> = [x, y].into_iter().collect();
                        ensure!(set.len() == 1, "equal values hash differently");
                    }
                }
            }
        };
    }
    pairs!(services);
    pairs!(instances);
    Ok(())
}
