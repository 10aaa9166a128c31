//! C07-C09: header bits, labels and domain names, type and class matching.

use crate::ensure;
use crate::gen;
use crate::mon::{hex, no_panic, panics, Case, Prop, Verdict};
use crate::refdns::{self, Name};
use crate::rng::hash_bytes;
use crate::sut;
use std::hash::{Hash, Hasher};
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::records::{RecordData, A, AAAA, CNAME, MX, NS, PTR, SOA, SRV, TXT};
use uwuhi::packet::{Class, Header, Opcode, QClass, QType, RCode, Type};
use uwuhi::Error;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "case = 1024 of the 65536 values of the header's flag word (64 cases enumerate all of them), each with random id/counts: every accessor is compared with the bit layout of RFC 1035, and every setter is applied with every value and must change its own bits only; non-trivial = every flag word",
            quick: 64,
            thorough: 1024,
            threads: 0,
            run: c07,
            required: &["flag_words", "setter_calls"],
        },
        Prop {
            id: "C08",
            rule: "case = one label length with several contents, 24 strings parsed as names against a model, and 12 names built, printed, compared; non-trivial = every distinct parsed string or built name",
            quick: 240_000,
            thorough: 8_000_000,
            threads: 0,
            run: c08,
            required: &["labels_accepted", "labels_rejected", "strings_accepted", "strings_rejected", "strings_over_255_octets", "max_size_names", "print_parse_roundtrips", "equal_pairs", "different_pairs"],
        },
        Prop {
            id: "C09",
            rule: "case = one block of 256 query type codes against all 65536 record types, and one block of query classes (256 cases enumerate all 2^32 type pairs); plus the table of IANA names; non-trivial = every block",
            quick: 256,
            thorough: 512,
            threads: 0,
            run: c09,
            required: &["type_pairs", "type_matches", "class_pairs", "class_matches", "names_checked"],
        },
    ]
}

// --------------------------------------------------------------------------------------------- C07

fn bits(h: &Header) -> [u8; 12] {
    bytemuck::cast(*h)
}

fn c07(c: &mut Case<'_>) -> Verdict {
    let block = (c.idx % 64) as u32;
    for f in block * 1024..(block + 1) * 1024 {
        let f = f as u16;
        let id = c.rng.u16_edge();
        let counts = [c.rng.u16_edge(), c.rng.u16_edge(), c.rng.u16_edge(), c.rng.u16_edge()];
        let h = sut::header(id, f, counts);
        c.note = format!("id {id:#x} flags {f:#06x} counts {counts:?}");
        c.evals(1);
        c.count("flag_words", 1);
        if c.idx < 64 {
            c.nontrivial(f.into(), || format!("flag word {f:#06x}"));
        }
        let opcode: u8 = bytemuck::cast(h.opcode());
        let rcode: u8 = bytemuck::cast(h.rcode());
        let bit = |m: u16| f & m != 0;
        ensure!(
            h.id() == id
                && h.is_response() == bit(0x8000)
                && h.is_query() != bit(0x8000)
                && u16::from(opcode) == (f >> 11) & 15
                && h.is_authority() == bit(0x0400)
                && h.is_truncated() == bit(0x0200)
                && h.is_recursion_desired() == bit(0x0100)
                && h.is_recursion_available() == bit(0x0080)
                && u16::from(rcode) == f & 15
                && [
                    h.question_count(),
                    h.answer_count(),
                    h.authoritative_count(),
                    h.additional_count()
                ] == counts,
            "flag word {f:#06x} read as {h:?}"
        );
        let check = |name: &str, h2: Header, mask: u16, value: u16| {
            let want = (f & !mask) | value;
            let mut b = bits(&h);
            b[2..4].copy_from_slice(&want.to_be_bytes());
            if bits(&h2) == b {
                Ok(())
            } else {
                Err(format!(
                    "{name} turned {} into {}",
                    hex(&bits(&h)),
                    hex(&bits(&h2))
                ))
            }
        };
        type Set = fn(&mut Header, bool);
        let setters: [(&str, Set, u16); 5] = [
            ("set_response", Header::set_response, 0x8000),
            ("set_authority", Header::set_authority, 0x0400),
            ("set_truncated", Header::set_truncated, 0x0200),
            ("set_recursion_desired", Header::set_recursion_desired, 0x0100),
            ("set_recursion_available", Header::set_recursion_available, 0x0080),
        ];
        for (name, set, mask) in setters {
            for v in [false, true] {
                let mut h2 = h;
                set(&mut h2, v);
                check(&format!("{name}({v})"), h2, mask, if v { mask } else { 0 })?;
            }
        }
        for v in 0..16u8 {
            let mut h2 = h;
            h2.set_opcode(bytemuck::cast::<u8, Opcode>(v));
            check(&format!("set_opcode({v})"), h2, 0x7800, u16::from(v) << 11)?;
            let mut h2 = h;
            h2.set_rcode(bytemuck::cast::<u8, RCode>(v));
            check(&format!("set_rcode({v})"), h2, 0x000f, u16::from(v))?;
        }
        let new_id = c.rng.u16_edge();
        let mut h2 = h;
        h2.set_id(new_id);
        let mut b = bits(&h);
        b[..2].copy_from_slice(&new_id.to_be_bytes());
        ensure!(bits(&h2) == b, "set_id({new_id}) produced {}", hex(&bits(&h2)));
        c.count("setter_calls", 10 + 32 + 1);
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C08

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Which errors may be reported for `s`; empty: it has to parse, to the returned name.
fn model_parse(s: &str) -> (Option<Name>, Vec<&'static str>) {
    if s == "." {
        return (Some(vec![]), vec![]);
    }
    let body = s.strip_suffix('.').unwrap_or(s);
    let labels: Vec<&str> = body.split('.').collect();
    let mut errs = vec![];
    if labels.iter().any(|l| l.is_empty()) {
        errs.push("empty");
    }
    if labels.iter().any(|l| l.len() > 63) {
        errs.push("long label");
    }
    let name: Name = labels.iter().map(|l| l.as_bytes().to_vec()).collect();
    if refdns::name_wire_len(&name) > 255 {
        errs.push("long name");
    }
    if errs.is_empty() {
        (Some(name), errs)
    } else {
        (None, errs)
    }
}

fn random_string(c: &mut Case<'_>) -> String {
    let r = &mut c.rng;
    let mut s = String::new();
    let n = match r.below(12) {
        0 => 0,
        1..=6 => r.range(1, 4),
        7..=9 => r.range(4, 10),
        10 => r.range(100, 130),
        _ => r.range(3, 5),
    };
    let long = r.chance(1, 4);
    for i in 0..n {
        if i > 0 {
            s.push('.');
        }
        match r.below(14) {
            0 if n < 50 => {}
            1 if n < 50 => {
                for _ in 0..*r.pick(&[62usize, 63, 64, 65, 200]) {
                    s.push(*r.pick(&['a', 'Z', '0', '-']));
                }
            }
            2 => s.push_str(r.pick(&["K\u{fc}che", "\u{2615}", "\\", "a b", "\\.x", "\u{0}", "\u{ff0e}"])),
            _ if long && n < 50 => {
                for _ in 0..*r.pick(&[63usize, 63, 62, 61, 60, 59]) {
                    s.push(*r.pick(&['a', 'b']));
                }
            }
            _ if n >= 100 => s.push(*r.pick(&['a', 'b'])),
            _ => {
                for _ in 0..r.range(1, 9) {
                    s.push(*r.pick(&['a', 'B', '_', '-', '7', 'x']));
                }
            }
        }
    }
    if r.chance(1, 3) {
        s.push('.');
    }
    if r.chance(1, 30) {
        s.push('.');
    }
    s
}

fn c08(c: &mut Case<'_>) -> Verdict {
    // labels
    let len = (c.idx % 300) as usize;
    for _ in 0..2 {
        let b = if c.rng.chance(1, 2) {
            c.rng.bytes(len)
        } else {
            (0..len).map(|_| *c.rng.pick(b"abc-_XYZ09.")).collect()
        };
        c.note = format!("label {}", hex(&b));
        c.evals(1);
        let r = no_panic("Label::try_new", || Label::try_new(&b))?;
        let ok = (1..=63).contains(&len);
        let want_err = if len == 0 {
            Error::InvalidEmptyLabel
        } else {
            Error::LabelTooLong
        };
        match r {
            Ok(l) => {
                ensure!(ok, "label of {len} bytes accepted");
                ensure!(l.as_bytes() == b, "label holds {}", hex(l.as_bytes()));
                let e = refdns::esc(&b);
                ensure!(l.to_string() == e, "label printed as {l}, expected {e}");
                ensure!(
                    format!("{l:?}") == format!("\"{e}\""),
                    "label debug-printed as {l:?}"
                );
                ensure!(Label::new(&b) == l && l.clone() == l, "equal labels differ");
                if let Ok(s) = std::str::from_utf8(&b) {
                    let p = s.parse::<Label>();
                    ensure!(p.as_ref() == Ok(&l), "label {s:?} parsed as {p:?}");
                }
                c.count("labels_accepted", 1);
            }
            Err(e) => {
                ensure!(!ok, "label of {len} bytes rejected: {e:?}");
                ensure!(e == want_err, "label of {len} bytes: {e:?}");
                ensure!(
                    panics(|| {
                        let _ = Label::new(&b);
                    }),
                    "Label::new accepted {len} bytes"
                );
                c.count("labels_rejected", 1);
            }
        }
    }

    // strings
    for _ in 0..24 {
        let s = random_string(c);
        c.note = format!("string {s:?}");
        c.evals(1);
        let r = no_panic("DomainName::from_str", || DomainName::from_str(&s))?;
        let r2 = no_panic("DomainName parse", || s.parse::<DomainName>())?;
        ensure!(r == r2, "from_str and parse differ on {s:?}");
        if s.is_empty() {
            continue; // not specified
        }
        let (want, errs) = model_parse(&s);
        if errs.contains(&"long name") {
            c.count("strings_over_255_octets", 1);
        }
        match (&r, &want) {
            (Ok(d), Some(w)) => {
                ensure!(sut::nm(d) == *w, "{s:?} parsed as {d:?}");
                c.count("strings_accepted", 1);
            }
            (Err(e), None) => {
                let fine = match e {
                    Error::InvalidEmptyLabel => errs.contains(&"empty"),
                    Error::LabelTooLong => errs.contains(&"long label"),
                    _ => errs.contains(&"long name"),
                };
                ensure!(fine, "{s:?}: error {e:?}, faults {errs:?}");
                c.count("strings_rejected", 1);
            }
            (Ok(d), None) => {
                return Err(format!("{s:?} ({errs:?}) was accepted, as {} labels", d.labels().len()).into())
            }
            (Err(e), Some(_)) => return Err(format!("{s:?} rejected: {e:?}").into()),
        }
        c.nontrivial(hash_bytes(s.as_bytes()), || format!("{s:?} -> {r:?}"));
    }

    // names
    let mut pool = vec![];
    let mut names: Vec<(Name, DomainName)> = vec![];
    for _ in 0..6 {
        let n = gen::pooled_name(&mut c.rng, &mut pool);
        c.note = format!("name {n:?}");
        c.evals(1);
        let labels: Vec<Label> = n.iter().map(Label::new).collect();
        let mut a = DomainName::ROOT;
        for l in &labels {
            a.push_label(l.clone());
        }
        let b: DomainName = labels.iter().collect();
        let d: DomainName = labels.iter().cloned().collect();
        let mut e = DomainName::from_iter(labels.iter().take(1));
        e.extend(labels.iter().skip(1).take(1));
        e.extend(labels.iter().skip(2).cloned());
        for (how, x) in [("FromIterator<&Label>", &b), ("FromIterator<Label>", &d), ("Extend", &e)] {
            ensure!(*x == a, "name built by {how} differs: {x} / {a}");
        }
        ensure!(a.labels() == labels, "labels() lost something: {a}");
        ensure!(
            (&a).into_iter().eq(&labels) && a.clone().into_iter().eq(labels.iter().cloned()),
            "iterators differ from the labels of {a}"
        );
        let s = refdns::name_str(&n);
        ensure!(a.to_string() == s && !format!("{a:?}").is_empty(), "{s} printed as {a} / {a:?}");
        let simple = n.iter().flatten().all(|&b| (0x20..0x7f).contains(&b) && !b".\\'\"".contains(&b));
        if simple {
            let p = no_panic("parse", || s.parse::<DomainName>())?;
            ensure!(p.as_ref() == Ok(&a), "{s} parsed back as {p:?}");
            if !n.is_empty() {
                let p = no_panic("parse", || s[..s.len() - 1].parse::<DomainName>())?;
                ensure!(p.as_ref() == Ok(&a), "{s} without its dot parsed as {p:?}");
            }
            c.count("print_parse_roundtrips", 1);
        }
        if refdns::name_wire_len(&n) == 255 {
            c.count("max_size_names", 1);
        }
        c.nontrivial(hash_bytes(s.as_bytes()), || s.clone());
        names.push((n, a));
    }
    for (n, a) in &names {
        for (m, b) in &names {
            if n == m {
                ensure!(a == b, "equal names {a} differ");
                c.count("equal_pairs", 1);
            } else if refdns::lower(n) != refdns::lower(m) {
                ensure!(a != b, "different names {a} {b} are equal");
                c.count("different_pairs", 1);
            }
        }
    }
    let labels: Vec<Label> = names.iter().flat_map(|(_, d)| d.labels().to_vec()).take(14).collect();
    for x in &labels {
        for y in &labels {
            let eq = x.as_bytes() == y.as_bytes();
            if eq || !x.as_bytes().eq_ignore_ascii_case(y.as_bytes()) {
                ensure!((x == y) == eq, "label equality of {x:?} {y:?}");
            }
            ensure!((x == y) == (x.cmp(y).is_eq()), "label order and equality disagree on {x:?} {y:?}");
            ensure!(x.cmp(y) == y.cmp(x).reverse(), "label order is not antisymmetric on {x:?} {y:?}");
            ensure!(x.partial_cmp(y) == Some(x.cmp(y)), "label orders disagree");
            if x == y {
                ensure!(hash_of(x) == hash_of(y), "equal labels hash differently");
            }
            for z in &labels {
                ensure!(!(x <= y && y <= z) || x <= z, "label order is not transitive on {x:?} {y:?} {z:?}");
            }
        }
    }
    Ok(())
}

// --------------------------------------------------------------------------------------------- C09

macro_rules! codes {
    ($t:ident: $n:ty; $($name:ident = $v:expr),+ $(,)?) => {
        vec![$( (stringify!($name), format!("{}", $t::$name), format!("{:?}", $t::$name), u64::from(bytemuck::cast::<$t, $n>($t::$name)), $v as u64) ),+]
    };
}

/// Names and numbers of the IANA registries, as far as the library names them.
fn tables() -> Vec<(&'static str, Vec<(&'static str, String, String, u64, u64)>)> {
    vec![
        (
            "Type",
            codes!(Type: u16; A = 1, NS = 2, MD = 3, MF = 4, CNAME = 5, SOA = 6, MB = 7, MG = 8, MR = 9, NULL = 10, WKS = 11, PTR = 12, HINFO = 13, MINFO = 14, MX = 15, TXT = 16, RP = 17, AFSDB = 18, SIG = 24, KEY = 25, AAAA = 28, LOC = 29, SRV = 33, NAPTR = 35, KX = 36, CERT = 37, DNAME = 39, APL = 42, DS = 43, SSHFP = 44, IPSECKEY = 45, RRSIG = 46, NSEC = 47, DNSKEY = 48, DHCID = 49, NSEC3 = 50, NSEC3PARAM = 51, TLSA = 52, SMIMEA = 53, HIP = 55, CDS = 59, CDNSKEY = 60, OPENPGPKEY = 61, CSYNC = 62, ZONEMD = 63, SVCB = 64, HTTPS = 65, EUI48 = 108, EUI64 = 109, TKEY = 249, TSIG = 250, URI = 256, CAA = 257),
        ),
        (
            "QType",
            codes!(QType: u16; A = 1, NS = 2, MD = 3, MF = 4, CNAME = 5, SOA = 6, MB = 7, MG = 8, MR = 9, NULL = 10, WKS = 11, PTR = 12, HINFO = 13, MINFO = 14, MX = 15, TXT = 16, RP = 17, AFSDB = 18, SIG = 24, KEY = 25, AAAA = 28, LOC = 29, SRV = 33, NAPTR = 35, KX = 36, CERT = 37, DNAME = 39, APL = 42, DS = 43, SSHFP = 44, IPSECKEY = 45, RRSIG = 46, NSEC = 47, DNSKEY = 48, DHCID = 49, NSEC3 = 50, NSEC3PARAM = 51, TLSA = 52, SMIMEA = 53, HIP = 55, CDS = 59, CDNSKEY = 60, OPENPGPKEY = 61, CSYNC = 62, ZONEMD = 63, SVCB = 64, HTTPS = 65, EUI48 = 108, EUI64 = 109, TKEY = 249, TSIG = 250, URI = 256, CAA = 257, AXFR = 252, MAILB = 253, MAILA = 254, ALL = 255),
        ),
        ("Class", codes!(Class: u16; IN = 1, CS = 2, CH = 3, HS = 4)),
        ("QClass", codes!(QClass: u16; IN = 1, CS = 2, CH = 3, HS = 4, ANY = 255)),
        ("Opcode", codes!(Opcode: u8; QUERY = 0, IQUERY = 1, STATUS = 2, NOTIFY = 4, UPDATE = 5)),
        (
            "RCode",
            codes!(RCode: u8; NO_ERROR = 0, FORM_ERR = 1, SERV_FAIL = 2, NX_DOMAIN = 3, NOT_IMP = 4, REFUSED = 5, YX_DOMAIN = 6, YX_RR_SET = 7, NX_RR_SET = 8, NOT_AUTH = 9, NOT_ZONE = 10, DSO_TYPE_NI = 11, BAD_VERS = 16, BAD_SIG = 16, BAD_KEY = 17, BAD_TIME = 18, BAD_MODE = 19, BAD_NAME = 20, BAD_ALG = 21, BAD_TRUNC = 22, BAD_COOKIE = 23),
        ),
    ]
}

/// A code without a name is printed with its number; others may have got a name by now.
fn unnamed(table: &str, named: &[(&'static str, u64)], code: u64, shown: &str) -> Verdict {
    if named.iter().any(|n| n.1 == code) {
        return Ok(());
    }
    ensure!(
        !named.iter().any(|n| n.0 == shown),
        "{table} {code} is printed as {shown}, which is another code"
    );
    let number = |d: &str, radix| u64::from_str_radix(d, radix) == Ok(code);
    let words = || shown.split(|c: char| !c.is_ascii_alphanumeric());
    let named = shown.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b"_-".contains(&b))
        && shown.bytes().any(|b| b.is_ascii_uppercase());
    ensure!(
        named || words().any(|w| number(w, 10) || number(w, 16) || number(w.trim_start_matches("0x"), 16)),
        "{table} {code} is printed as {shown:?}"
    );
    Ok(())
}

fn c09(c: &mut Case<'_>) -> Verdict {
    for (t, codes) in tables() {
        for (name, shown, debug, got, want) in codes {
            ensure!(got == want, "{t}::{name} is {got}, assigned is {want}");
            // (one code has two names)
            let fits = |s: &str| s == name || want == 16 && t == "RCode" && matches!(s, "BAD_VERS" | "BAD_SIG");
            ensure!(fits(&shown) && fits(&debug), "{t}::{name} is printed as {shown} / {debug}");
            c.count("names_checked", 1);
        }
    }
    let tables: Vec<(&'static str, Vec<(&'static str, u64)>)> =
        tables().into_iter().map(|(t, v)| (t, v.into_iter().map(|x| (x.0, x.4)).collect())).collect();
    for (r, t, want) in [
        ("A", A::TYPE, 1),
        ("NS", NS::TYPE, 2),
        ("CNAME", CNAME::TYPE, 5),
        ("SOA", SOA::TYPE, 6),
        ("PTR", PTR::TYPE, 12),
        ("MX", MX::TYPE, 15),
        ("TXT", TXT::TYPE, 16),
        ("AAAA", AAAA::TYPE, 28),
        ("SRV", SRV::TYPE, 33),
    ] {
        ensure!(bytemuck::cast::<Type, u16>(t) == want, "the type of {r} records is {t}");
    }
    let named = |t: &str| tables.iter().find(|x| x.0 == t).unwrap().1.as_slice();
    for k in 0..=u8::MAX {
        let (o, r) = (bytemuck::cast::<u8, Opcode>(k), bytemuck::cast::<u8, RCode>(k));
        for (t, d, p) in [("Opcode", o.to_string(), format!("{o:?}")), ("RCode", r.to_string(), format!("{r:?}"))] {
            unnamed(t, named(t), k.into(), &d)?;
            unnamed(t, named(t), k.into(), &p)?;
        }
        c.count("unnamed_codes", 2);
    }
    let block = (c.idx % 256) as u32;
    let mut matches = 0u64;
    for q in block * 256..(block + 1) * 256 {
        let q = q as u16;
        let qt = sut::qty(q);
        let mut bad = None;
        for t in 0..=u16::MAX {
            let want = match q {
                255 => true,                        // RFC 1035: all records
                253 => matches!(t, 7..=9),          // MB, MG, MR
                252 | 254 => false,                 // zone transfer; obsolete
                _ => q == t,
            };
            let got = qt.matches(sut::ty(t));
            matches += u64::from(got);
            if got != want {
                bad = Some((t, want));
            }
        }
        c.note = format!("query type {q}");
        ensure!(bad.is_none(), "query type {q} on record type (record, expected): {bad:?}");
        c.evals(1);
        c.nontrivial(q.into(), || format!("query type {q} against all 65536 record types"));
        // classes
        let qc = sut::qclass(q);
        for k in 0..400u32 {
            let t = match k {
                0..=8 => k as u16,
                9 => q,
                10 => q ^ 0x8000,
                11 => q ^ 0x0100,
                12 => 255,
                13 => 254,
                14 => 256,
                _ => c.rng.u16(),
            };
            let want = q == 255 || q == t;
            let got = qc.matches(sut::class(t));
            ensure!(got == want, "query class {q} on class {t}: {got}");
            c.count("class_pairs", 1);
            c.count("class_matches", got.into());
        }
        let shown = no_panic("formatting", || {
            let (t, k) = (sut::ty(q), sut::class(q));
            [
                ("QType", qt.to_string(), format!("{qt:?}")),
                ("QClass", qc.to_string(), format!("{qc:?}")),
                ("Type", t.to_string(), format!("{t:?}")),
                ("Class", k.to_string(), format!("{k:?}")),
            ]
        })?;
        for (t, d, p) in &shown {
            unnamed(t, named(t), q.into(), d)?;
            unnamed(t, named(t), q.into(), p)?;
            c.count("unnamed_codes", 1);
        }
    }
    c.count("type_pairs", 256 * 65536);
    c.count("type_matches", matches);
    Ok(())
}
