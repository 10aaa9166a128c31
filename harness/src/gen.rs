//! Workload generators: names, records, messages, and hostile mutations of them.

use crate::refdns::*;
use crate::rng::Rng;

const WORDS: &[&str] = &[
    "a", "b", "local", "example", "com", "host", "HOST", "Host", "_http", "_tcp", "_udp", "_ipp",
    "_services", "_dns-sd", "printer", "arpa", "in-addr", "x", "www", "my_hostname",
];

pub fn label(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0..=6 => r.pick(WORDS).as_bytes().to_vec(),
        7 => {
            let n = *r.pick(&[1usize, 2, 15, 16, 17, 31, 32, 33, 61, 62, 63]);
            (0..n).map(|_| *r.pick(b"abcxyzABCXYZ0189-_")).collect()
        }
        8 => {
            let n = r.range(1, 63);
            r.bytes(n)
        }
        9 => r
            .pick(&[
                &b"My Service Instance"[..],
                b"with.dot",
                b"back\\slash",
                b"\0",
                b"\xc0\x0c",
                b"\xff",
                b"\"quoted\"",
                b"tab\t",
                "K\u{fc}che \u{2615}".as_bytes(),
                b"UPPER",
                b"upper",
            ])
            .to_vec(),
        10 => vec![r.u8()],
        _ => {
            let n = r.range(1, 12);
            (0..n).map(|_| *r.pick(b"abcdefABCDEF")).collect()
        }
    }
}

/// A valid name: at most 255 octets on the wire.
pub fn name(r: &mut Rng) -> Name {
    let n = match r.below(20) {
        0 => 0,
        1..=4 => 1,
        5..=9 => 2,
        10..=14 => 3,
        15..=17 => 4,
        18 => r.range(5, 9),
        _ => 127,
    };
    let mut v: Name = vec![];
    let mut len = 1;
    if n == 127 {
        // close to (or exactly at) the 255 octet limit
        match r.below(3) {
            0 => {
                for _ in 0..127 {
                    v.push(vec![*r.pick(b"abA0")]);
                }
            }
            1 => {
                for k in [63, 63, 63, 61] {
                    v.push((0..k).map(|_| *r.pick(b"abcABC09")).collect());
                }
            }
            _ => {
                for k in [63, 63, 63, 60] {
                    v.push(r.bytes(k));
                }
            }
        }
        return v;
    }
    for _ in 0..n {
        let l = label(r);
        if len + 1 + l.len() > 255 {
            break;
        }
        len += 1 + l.len();
        v.push(l);
    }
    v
}

/// A name from a pool, or sharing a suffix with one in the pool, or new.
pub fn pooled_name(r: &mut Rng, pool: &mut Vec<Name>) -> Name {
    let n = match r.below(10) {
        0..=4 if !pool.is_empty() => r.pick(pool).clone(),
        5..=7 if !pool.is_empty() => {
            let base = r.pick(pool).clone();
            let cut = r.below(base.len() + 1);
            let mut v: Name = vec![];
            for _ in 0..r.below(3) {
                v.push(label(r));
            }
            v.extend_from_slice(&base[cut..]);
            while name_wire_len(&v) > 255 {
                v.remove(0);
            }
            v
        }
        _ => name(r),
    };
    pool.push(n.clone());
    n
}

pub fn type_code(r: &mut Rng) -> u16 {
    match r.below(4) {
        0 => *r.pick(&ty::TYPED),
        1 => *r.pick(&[ty::ANY, ty::MAILB, ty::MAILA, ty::AXFR, 47, 41, 256, 257, 64]),
        2 => r.below(300) as u16,
        _ => r.u16_edge(),
    }
}

/// 15-bit class.
pub fn class(r: &mut Rng) -> u16 {
    match r.below(5) {
        0..=2 => 1,
        3 => *r.pick(&[2, 3, 4, 254, 255, 256, 257, 0x0101, 0x01ff, 0x7f01, 0x7fff, 0]),
        _ => r.u16_edge() & 0x7fff,
    }
}

pub fn txt_entries(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = match r.below(8) {
        0 => 0,
        1..=3 => 1,
        4..=6 => r.range(2, 5),
        _ if r.chance(1, 4) => {
            // many short ones
            let n = r.range(21, 110);
            return (0..n).map(|i| format!("{}{i}", ["e", "e=", "", "="][i % 4]).into_bytes()).collect();
        }
        _ => r.range(6, 20),
    };
    (0..n).map(|_| txt_entry(r)).collect()
}

pub fn txt_entry(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => {
            let n = *r.pick(&[1usize, 127, 128, 254, 255]);
            r.bytes(n)
        }
        2 => b"key=value".to_vec(),
        3 => b"flag".to_vec(),
        4 => b"=novalue".to_vec(),
        5 => b"k==v=".to_vec(),
        _ => {
            let n = r.below(20);
            r.bytes(n)
        }
    }
}

/// IPv4 addresses, with the ones that mean something more often.
pub fn v4(r: &mut Rng) -> [u8; 4] {
    match r.below(8) {
        0 => *r.pick(&[[0; 4], [255; 4], [127, 0, 0, 1], [224, 0, 0, 251], [169, 254, 1, 2], [192, 168, 0, 1], [10, 0, 0, 1], [100, 64, 0, 1]]),
        _ => r.u32_edge().to_be_bytes(),
    }
}

/// IPv6 addresses, with the ones that mean something more often.
pub fn v6(r: &mut Rng) -> [u8; 16] {
    let mut a = [0; 16];
    match r.below(8) {
        0 => {}
        1 => a[15] = 1,
        2 => {
            // IPv4-mapped
            a[10..12].fill(0xff);
            let b = v4(r);
            a[12..].copy_from_slice(&b);
        }
        3 => {
            // IPv4-compatible, NAT64, 6to4
            let b = v4(r);
            match r.below(3) {
                0 => {}
                1 => a[..4].copy_from_slice(&[0, 0x64, 0xff, 0x9b]),
                _ => a[..2].copy_from_slice(&[0x20, 2]),
            }
            a[12..].copy_from_slice(&b);
        }
        4 => {
            // link-local, unique local, multicast
            let p = *r.pick(&[[0xfe, 0x80], [0xfd, 0], [0xff, 2]]);
            a[..2].copy_from_slice(&p);
            let b = r.bytes(8);
            a[8..].copy_from_slice(&b);
        }
        5 => {
            let b = r.bytes(16);
            a.copy_from_slice(&b);
        }
        _ => {
            for b in &mut a {
                *b = if r.chance(1, 3) { r.u8() } else { 0 };
            }
        }
    }
    a
}

pub fn data(r: &mut Rng, pool: &mut Vec<Name>) -> Data {
    match r.below(11) {
        0 => Data::A(v4(r)),
        1 => Data::AAAA(v6(r)),
        2 => Data::CNAME(pooled_name(r, pool)),
        3 => Data::MX(r.u16_edge(), pooled_name(r, pool)),
        4 => Data::NS(pooled_name(r, pool)),
        5 => Data::PTR(pooled_name(r, pool)),
        6 => Data::TXT(txt_entries(r)),
        7 => Data::SRV(
            r.u16_edge(),
            r.u16_edge(),
            r.u16_edge(),
            pooled_name(r, pool),
        ),
        8 => {
            let (m, n) = (pooled_name(r, pool), pooled_name(r, pool));
            Data::SOA(
                m,
                n,
                [
                    r.u32_edge(),
                    r.u32_edge(),
                    r.u32_edge(),
                    r.u32_edge(),
                    r.u32_edge(),
                ],
            )
        }
        _ => raw_data(r),
    }
}

/// RDATA of a type the library has no typed view of.
pub fn raw_data(r: &mut Rng) -> Data {
    let mut t = type_code(r);
    while ty::TYPED.contains(&t) {
        t = r.u16();
    }
    let n = match r.below(4) {
        0 => 0,
        1 => r.range(1, 4),
        2 => r.range(5, 40),
        _ => *r.pick(&[255usize, 256, 257]),
    };
    Data::Raw(t, r.bytes(n))
}

/// Only types the library can encode.
pub fn typed_data(r: &mut Rng, pool: &mut Vec<Name>) -> Data {
    loop {
        let d = data(r, pool);
        match &d {
            Data::Raw(..) => {}
            Data::TXT(e) if e.is_empty() => {} // documented precondition of TXT::new
            _ => return d,
        }
    }
}

pub fn rr(r: &mut Rng, pool: &mut Vec<Name>) -> Rr {
    Rr {
        name: pooled_name(r, pool),
        class: class(r),
        flush: r.chance(1, 4),
        ttl: r.u32_edge(),
        data: data(r, pool),
    }
}

pub fn question(r: &mut Rng, pool: &mut Vec<Name>) -> Q {
    Q {
        name: pooled_name(r, pool),
        ty: type_code(r),
        class: class(r),
        qu: r.chance(1, 4),
    }
}

fn count(r: &mut Rng) -> usize {
    match r.below(8) {
        0..=2 => 0,
        3..=4 => 1,
        5..=6 => r.range(2, 4),
        _ => r.range(5, 12),
    }
}

pub fn msg(r: &mut Rng) -> Msg {
    let mut pool = vec![];
    let mut m = Msg {
        id: r.u16_edge(),
        flags: if r.chance(1, 2) {
            *r.pick(&[0, QR, QR | AA, RD, QR | RD | RA, QR | TC])
        } else {
            r.u16()
        },
        ..Msg::default()
    };
    for _ in 0..count(r) {
        m.q.push(question(r, &mut pool));
    }
    for s in 0..3 {
        for _ in 0..count(r) {
            m.sec[s].push(rr(r, &mut pool));
        }
    }
    if r.chance(1, 200) {
        // more entries than a byte can count
        let n = *r.pick(&[255usize, 256, 257, 300]);
        let s = r.below(4);
        if s == 0 {
            while m.q.len() < n {
                m.q.push(Q { name: vec![], ty: ty::A, class: 1, qu: false });
            }
        } else {
            while m.sec[s - 1].len() < n {
                let i = m.sec[s - 1].len() as u32;
                m.sec[s - 1].push(Rr { name: vec![], class: 1, flush: false, ttl: i, data: Data::A(i.to_be_bytes()) });
            }
        }
    }
    m
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Origin {
    Valid,
    Mutated,
    Soup,
    Noise,
}

/// A message for the decoder: valid with compression, mutated, pointer soup, or noise.
pub fn hostile(r: &mut Rng) -> (Vec<u8>, Origin) {
    match r.below(16) {
        0..=5 => (valid_bytes(r).0, Origin::Valid),
        6..=11 => {
            let (b, marks, rdlens) = valid_bytes(r);
            (mutate(r, b, &marks, &rdlens), Origin::Mutated)
        }
        12..=14 => (soup(r), Origin::Soup),
        _ => {
            let n = match r.below(4) {
                0 => r.below(12),
                1 => r.range(12, 40),
                _ => r.range(12, 300),
            };
            let mut b = r.bytes(n);
            if b.len() >= 12 && r.chance(3, 4) {
                small_counts(r, &mut b);
            }
            (b, Origin::Noise)
        }
    }
}

fn small_counts(r: &mut Rng, b: &mut [u8]) {
    for i in 0..4 {
        b[4 + 2 * i] = 0;
        b[5 + 2 * i] = r.below(4) as u8;
    }
}

pub fn valid_bytes(r: &mut Rng) -> (Vec<u8>, Vec<usize>, Vec<usize>) {
    let m = msg(r);
    let compress = *r.pick(&[0usize, 8, 15, 16]);
    let mut w = W::compressing(r, compress);
    w.msg(&m);
    (w.out, w.marks, w.rdlens)
}

/// A message in which names are compressed against places up to the last one a pointer can name.
pub fn long_valid(r: &mut Rng) -> Vec<u8> {
    let mut m = msg(r);
    let n = *r.pick(&[3000usize, 4080, 8100, 8170, 12000, 16000, 16300]) + r.below(100);
    let at = r.below(2);
    let name = if r.chance(1, 2) { vec![] } else { name(r) };
    let rr = Rr { name, class: 1, flush: false, ttl: 1, data: Data::Raw(10, r.bytes(n)) };
    if at == 0 || m.sec[0].is_empty() {
        m.sec[0].insert(0, rr);
    } else {
        m.sec[0].push(rr);
    }
    let mut w = W::compressing(r, 16);
    w.msg(&m);
    w.out
}

/// A message whose names each continue where the one before begins: legal names that take up to a hundred
/// pointers to read.
pub fn linked(r: &mut Rng) -> Vec<u8> {
    let n = r.range(10, 99);
    let questions = r.below(n + 1);
    let labels = r.chance(3, 4);
    let mut b = vec![0; 12];
    b[2] = r.u8();
    b[4..6].copy_from_slice(&(questions as u16).to_be_bytes());
    b[6..8].copy_from_slice(&((n - questions) as u16).to_be_bytes());
    let mut prev: Option<u16> = None;
    for i in 0..n {
        let here = b.len() as u16;
        if prev.is_none() || labels && r.chance(7, 8) {
            b.extend_from_slice(&[1, *r.pick(b"abcXYZ0-_")]);
        }
        match prev {
            None => b.push(0),
            Some(p) => b.extend_from_slice(&(0xc000 | p).to_be_bytes()),
        }
        prev = Some(here);
        let t = *r.pick(&[ty::PTR, ty::CNAME, ty::NS, 255]);
        b.extend_from_slice(&t.to_be_bytes());
        b.extend_from_slice(&[0, 1]);
        if i < questions {
            continue;
        }
        b.extend_from_slice(&r.bytes(4));
        if t == 255 {
            b.extend_from_slice(&[0, 0]);
        } else {
            b.extend_from_slice(&[0, 2]);
            // The record's own name, or one before
            b.extend_from_slice(&(0xc000 | here).to_be_bytes());
        }
    }
    b
}

/// A message of up to 64 KiB in which each name is a chain of as many pointers as possible.
pub fn deep(r: &mut Rng) -> Vec<u8> {
    let size = *r.pick(&[1500usize, 4096, 9000, 16384, 40000, 65535]);
    let mut b = vec![0; 12];
    // labels between the pointers, sometimes
    let labels = r.chance(1, 3);
    // The RDATA of a record of an unknown type holds the chain.
    b.extend_from_slice(&[0, 0, 10, 0, 1, 0, 0, 0, 0, 0, 0]);
    let start = b.len();
    let mut prev = b.len() as u16;
    b.push(0);
    while b.len() + 80 < size.min(0x3ff0) {
        let here = b.len() as u16;
        if labels {
            b.extend_from_slice(b"\x01a");
        }
        b.extend_from_slice(&(0xc000 | prev).to_be_bytes());
        prev = here;
    }
    let n = (b.len() - start) as u16;
    b[start - 2..start].copy_from_slice(&n.to_be_bytes());
    let mut entries = 1u16;
    while entries < 12 && b.len() + 40 < size {
        b.extend_from_slice(&(0xc000 | prev).to_be_bytes());
        b.extend_from_slice(&[0, *r.pick(&[1u8, 2, 5, 12]), 0, 1, 0, 0, 0, 1, 0, 2]);
        b.extend_from_slice(&(0xc000 | prev).to_be_bytes());
        entries += 1;
    }
    while b.len() < size {
        b.push(r.u8());
    }
    // Answers, or further records.
    let section = *r.pick(&[6usize, 8, 10]);
    b[section..section + 2].copy_from_slice(&entries.to_be_bytes());
    b
}

pub fn mutate(r: &mut Rng, mut b: Vec<u8>, marks: &[usize], rdlens: &[usize]) -> Vec<u8> {
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            return b;
        }
        match r.below(12) {
            0 => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(b.len());
                b[i] = r.u8();
            }
            2 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            3 | 4 if !marks.is_empty() => {
                // overwrite a length/pointer byte
                let i = *r.pick(marks);
                if i < b.len() {
                    b[i] = *r.pick(&[0xc0, 0xc0, 0xff, 0x40, 0x80, 63, 64, 1, 0, 0xbf, 0xc1]);
                    if i + 1 < b.len() && r.chance(1, 2) {
                        b[i + 1] = (i as u8).wrapping_sub(r.below(20) as u8);
                    }
                }
            }
            5 if !marks.is_empty() => {
                // pointer to somewhere earlier, arbitrary alignment
                let i = *r.pick(marks);
                if i + 1 < b.len() && i > 0 {
                    let t = r.below(i.min(0x4000)) as u16 | 0xc000;
                    b[i..i + 2].copy_from_slice(&t.to_be_bytes());
                }
            }
            6 if !rdlens.is_empty() => {
                let i = *r.pick(rdlens);
                if i + 2 <= b.len() {
                    let old = u16::from_be_bytes([b[i], b[i + 1]]);
                    let new = match r.below(4) {
                        0 => old.wrapping_add(1),
                        1 => old.wrapping_sub(1),
                        2 => r.below(30) as u16,
                        _ => r.u16_edge(),
                    };
                    b[i..i + 2].copy_from_slice(&new.to_be_bytes());
                }
            }
            7 => {
                let i = r.below(b.len());
                let v = r.u8();
                b.insert(i, v);
            }
            8 => {
                let i = r.below(b.len());
                b.remove(i);
            }
            9 if b.len() >= 12 => {
                // count field
                let i = 4 + r.below(8);
                b[i] = if i % 2 == 0 && r.chance(7, 8) {
                    0
                } else {
                    b[i].wrapping_add(*r.pick(&[1, 2, 255, 40]))
                };
            }
            10 => {
                // cut right behind a pointer's first byte
                if let Some(&i) = marks.iter().rev().find(|&&i| i < b.len()) {
                    b.truncate(i);
                    b.push(0xc0 | r.below(64) as u8);
                }
            }
            _ => {
                let n = r.range(1, 8);
                let x = r.bytes(n);
                b.extend_from_slice(&x);
            }
        }
    }
    b
}

/// Header followed by short labels, pointers and terminators in random order.
pub fn soup(r: &mut Rng) -> Vec<u8> {
    let mut b = r.bytes(12);
    small_counts(r, &mut b);
    let n = match r.below(8) {
        0 => r.range(1, 20),
        1..=5 => r.range(10, 120),
        6 => r.range(100, 600),
        _ => r.range(500, 1500),
    };
    while b.len() < 12 + n {
        match r.below(10) {
            0..=3 => {
                let l = r.range(1, 6);
                b.push(l as u8);
                for _ in 0..l {
                    let v = *r.pick(&[0u8, 1, 2, 3, 0xc0, b'a', 12]);
                    b.push(v);
                }
            }
            4..=6 => {
                let t = r.below(b.len().min(0x4000)) as u16 | 0xc000;
                b.extend_from_slice(&t.to_be_bytes());
            }
            7 => b.push(0),
            8 => {
                // looks like type/class/ttl/rdlength
                b.extend_from_slice(&[0, *r.pick(&[1, 2, 5, 6, 12, 15, 16, 28, 33]), 0, 1]);
                if r.chance(1, 2) {
                    b.extend_from_slice(&[0, 0, 0, 120, 0, r.below(24) as u8]);
                }
            }
            _ => b.push(r.u8()),
        }
    }
    if r.chance(1, 4) {
        b.push(0xc0);
    }
    b
}
