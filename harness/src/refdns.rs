//! Independent reference model of the DNS wire format (RFC 1035 section 4, RFC 2782, RFC 3596,
//! RFC 6762 section 18): plain data types, a writer (with and without name compression) and a
//! reader. Shares no code with the library under test; the oracles of all checks rest on it.

use crate::rng::Rng;
use std::collections::HashMap;

pub type Name = Vec<Vec<u8>>;

pub mod ty {
    pub const A: u16 = 1;
    pub const NS: u16 = 2;
    pub const CNAME: u16 = 5;
    pub const SOA: u16 = 6;
    pub const MB: u16 = 7;
    pub const MG: u16 = 8;
    pub const MR: u16 = 9;
    pub const PTR: u16 = 12;
    pub const MX: u16 = 15;
    pub const TXT: u16 = 16;
    pub const AAAA: u16 = 28;
    pub const SRV: u16 = 33;
    pub const AXFR: u16 = 252;
    pub const MAILB: u16 = 253;
    pub const MAILA: u16 = 254;
    pub const ANY: u16 = 255;
    pub const TYPED: [u16; 9] = [A, NS, CNAME, SOA, PTR, MX, TXT, AAAA, SRV];
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Hdr {
    pub id: u16,
    pub flags: u16,
    pub counts: [u16; 4],
}

pub const QR: u16 = 0x8000;
pub const AA: u16 = 0x0400;
pub const TC: u16 = 0x0200;
pub const RD: u16 = 0x0100;
pub const RA: u16 = 0x0080;

impl Hdr {
    pub fn opcode(&self) -> u8 {
        ((self.flags >> 11) & 15) as u8
    }
    pub fn rcode(&self) -> u8 {
        (self.flags & 15) as u8
    }
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Data {
    A([u8; 4]),
    AAAA([u8; 16]),
    CNAME(Name),
    MX(u16, Name),
    NS(Name),
    PTR(Name),
    TXT(Vec<Vec<u8>>),
    SRV(u16, u16, u16, Name),
    SOA(Name, Name, [u32; 5]),
    /// Any other type, or raw bytes for a typed one (used to plant malformed RDATA).
    Raw(u16, Vec<u8>),
}

impl Data {
    pub fn ty(&self) -> u16 {
        match self {
            Data::A(_) => ty::A,
            Data::AAAA(_) => ty::AAAA,
            Data::CNAME(_) => ty::CNAME,
            Data::MX(..) => ty::MX,
            Data::NS(_) => ty::NS,
            Data::PTR(_) => ty::PTR,
            Data::TXT(_) => ty::TXT,
            Data::SRV(..) => ty::SRV,
            Data::SOA(..) => ty::SOA,
            Data::Raw(t, _) => *t,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Q {
    pub name: Name,
    pub ty: u16,
    /// 15 bits.
    pub class: u16,
    pub qu: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rr {
    pub name: Name,
    /// 15 bits.
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub data: Data,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Msg {
    pub id: u16,
    pub flags: u16,
    pub q: Vec<Q>,
    /// Answer, authority, additional.
    pub sec: [Vec<Rr>; 3],
}

pub fn name_wire_len(n: &Name) -> usize {
    n.iter().map(|l| l.len() + 1).sum::<usize>() + 1
}

pub fn name_str(n: &Name) -> String {
    if n.is_empty() {
        return ".".into();
    }
    n.iter().map(|l| esc(l) + ".").collect()
}

/// Independent rendition of C-style ASCII escaping.
pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\t' => s.push_str("\\t"),
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\'' => s.push_str("\\'"),
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s
}

pub fn lower(n: &Name) -> Name {
    n.iter().map(|l| l.to_ascii_lowercase()).collect()
}

// ---------------------------------------------------------------------------------------------
// Writer

pub struct W<'r> {
    pub out: Vec<u8>,
    dict: HashMap<Name, usize>,
    /// Probability (in 1/16) of using a compression pointer where one is possible.
    compress: usize,
    rng: Option<&'r mut Rng>,
    pub pointers: usize,
    /// Offsets at which a length byte or pointer byte of a name sits.
    pub marks: Vec<usize>,
    /// Offsets of RDLENGTH fields.
    pub rdlens: Vec<usize>,
    /// End offset of each question/record, in order.
    pub ends: Vec<usize>,
}

impl<'r> W<'r> {
    pub fn plain() -> W<'static> {
        W {
            out: vec![],
            dict: HashMap::new(),
            compress: 0,
            rng: None,
            pointers: 0,
            marks: vec![],
            rdlens: vec![],
            ends: vec![],
        }
    }

    pub fn compressing(rng: &'r mut Rng, compress: usize) -> W<'r> {
        W {
            out: vec![],
            dict: HashMap::new(),
            compress,
            rng: Some(rng),
            pointers: 0,
            marks: vec![],
            rdlens: vec![],
            ends: vec![],
        }
    }

    pub fn u16(&mut self, v: u16) {
        self.out.extend_from_slice(&v.to_be_bytes());
    }
    pub fn u32(&mut self, v: u32) {
        self.out.extend_from_slice(&v.to_be_bytes());
    }

    pub fn name(&mut self, n: &[Vec<u8>]) {
        for i in 0..n.len() {
            let suffix: Name = n[i..].to_vec();
            if self.compress > 0 {
                if let Some(&off) = self.dict.get(&suffix) {
                    let c = self.compress;
                    if self.rng.as_mut().is_some_and(|r| r.chance(c, 16)) {
                        self.marks.push(self.out.len());
                        self.u16(0xc000 | off as u16);
                        self.pointers += 1;
                        return;
                    }
                }
            }
            let pos = self.out.len();
            if pos < 0x4000 {
                self.dict.entry(suffix).or_insert(pos);
            }
            self.marks.push(pos);
            self.out.push(n[i].len() as u8);
            self.out.extend_from_slice(&n[i]);
        }
        self.marks.push(self.out.len());
        self.out.push(0);
    }

    pub fn data(&mut self, d: &Data) {
        match d {
            Data::A(a) => self.out.extend_from_slice(a),
            Data::AAAA(a) => self.out.extend_from_slice(a),
            Data::CNAME(n) | Data::NS(n) | Data::PTR(n) => self.name(n),
            Data::MX(p, n) => {
                self.u16(*p);
                self.name(n);
            }
            Data::TXT(es) => {
                for e in es {
                    self.out.push(e.len() as u8);
                    self.out.extend_from_slice(e);
                }
            }
            Data::SRV(a, b, c, n) => {
                self.u16(*a);
                self.u16(*b);
                self.u16(*c);
                self.name(n);
            }
            Data::SOA(m, r, v) => {
                self.name(m);
                self.name(r);
                for x in v {
                    self.u32(*x);
                }
            }
            Data::Raw(_, b) => self.out.extend_from_slice(b),
        }
    }

    pub fn question(&mut self, q: &Q) {
        self.name(&q.name);
        self.u16(q.ty);
        self.u16(q.class | if q.qu { 0x8000 } else { 0 });
        self.ends.push(self.out.len());
    }

    pub fn rr(&mut self, rr: &Rr) {
        self.name(&rr.name);
        self.u16(rr.data.ty());
        self.u16(rr.class | if rr.flush { 0x8000 } else { 0 });
        self.u32(rr.ttl);
        let at = self.out.len();
        self.rdlens.push(at);
        self.u16(0);
        self.data(&rr.data);
        let len = (self.out.len() - at - 2) as u16;
        self.out[at..at + 2].copy_from_slice(&len.to_be_bytes());
        self.ends.push(self.out.len());
    }

    pub fn msg(&mut self, m: &Msg) {
        self.u16(m.id);
        self.u16(m.flags);
        self.u16(m.q.len() as u16);
        for s in &m.sec {
            self.u16(s.len() as u16);
        }
        for q in &m.q {
            self.question(q);
        }
        for s in &m.sec {
            for rr in s {
                self.rr(rr);
            }
        }
    }
}

pub fn write_plain(m: &Msg) -> Vec<u8> {
    let mut w = W::plain();
    w.msg(m);
    w.out
}

pub fn rr_wire_len(rr: &Rr) -> usize {
    let mut w = W::plain();
    w.rr(rr);
    w.out.len()
}

// ---------------------------------------------------------------------------------------------
// Reader

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RefErr {
    /// The data ended too early.
    Eof,
    /// A compression pointer that does not point before the start of the label run it ends.
    Loop,
    /// A reserved label type (01 or 10).
    Reserved,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RdName {
    pub name: Name,
    /// Offset just behind the name's own bytes (behind the terminator or its first pointer).
    pub next: usize,
    pub pointers: usize,
    /// The labels of some run behind a pointer reach past the name's own end.
    pub overlap: bool,
}

/// Reads a name at `pos`; no byte at or behind `limit` may be touched.
pub fn read_name(buf: &[u8], pos: usize, limit: usize) -> Result<RdName, RefErr> {
    let mut labels = vec![];
    let mut run_start = pos;
    let mut p = pos;
    let mut next = None;
    let mut pointers = 0;
    let mut far = pos;
    loop {
        if p >= limit {
            return Err(RefErr::Eof);
        }
        let l = buf[p];
        match l >> 6 {
            0 => {
                p += 1;
                if l == 0 {
                    break;
                }
                let e = p + l as usize;
                if e > limit {
                    return Err(RefErr::Eof);
                }
                labels.push(buf[p..e].to_vec());
                p = e;
            }
            3 => {
                if p + 1 >= limit {
                    return Err(RefErr::Eof);
                }
                let target = (usize::from(l & 0x3f) << 8) | usize::from(buf[p + 1]);
                p += 2;
                far = far.max(p);
                if next.is_none() {
                    next = Some(p);
                }
                if target >= run_start {
                    return Err(RefErr::Loop);
                }
                run_start = target;
                p = target;
                pointers += 1;
            }
            _ => return Err(RefErr::Reserved),
        }
    }
    far = far.max(p);
    let next = next.unwrap_or(p);
    Ok(RdName {
        name: labels,
        next,
        pointers,
        overlap: far > next,
    })
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item {
    Q {
        name: Name,
        ty: u16,
        class: u16,
        end: usize,
    },
    R {
        sec: usize,
        name: Name,
        ty: u16,
        class: u16,
        flush: bool,
        ttl: u32,
        rdata: Vec<u8>,
        /// `None`: not one of the nine supported types.
        typed: Option<Result<Data, RefErr>>,
        end: usize,
    },
    E {
        sec: usize,
        err: RefErr,
    },
}

#[derive(Clone, Debug, Default)]
pub struct Parsed {
    pub hdr: Hdr,
    pub items: Vec<Item>,
    pub end: usize,
    /// A name longer than 255 octets occurred: how to treat it is not specified here.
    pub long_name: bool,
    pub pointers: usize,
    pub overlap: usize,
}

impl Parsed {
    pub fn error(&self) -> Option<(usize, RefErr)> {
        match self.items.last() {
            Some(Item::E { sec, err }) => Some((*sec, *err)),
            _ => None,
        }
    }
    pub fn questions(&self) -> usize {
        self.items
            .iter()
            .filter(|i| matches!(i, Item::Q { .. }))
            .count()
    }
}

struct Cur<'a> {
    buf: &'a [u8],
    pos: usize,
    limit: usize,
    long: bool,
    pointers: usize,
    overlap: usize,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], RefErr> {
        if self.limit - self.pos < n {
            return Err(RefErr::Eof);
        }
        let s = &self.buf[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    fn u16(&mut self) -> Result<u16, RefErr> {
        let b = self.take(2)?;
        Ok(u16::from(b[0]) << 8 | u16::from(b[1]))
    }
    fn u32(&mut self) -> Result<u32, RefErr> {
        Ok(u32::from(self.u16()?) << 16 | u32::from(self.u16()?))
    }
    fn name(&mut self) -> Result<Name, RefErr> {
        let n = read_name(self.buf, self.pos, self.limit)?;
        self.pos = n.next;
        self.long |= name_wire_len(&n.name) > 255;
        self.pointers += n.pointers;
        self.overlap += usize::from(n.overlap);
        Ok(n.name)
    }
}

fn typed(t: u16, c: &mut Cur<'_>) -> Option<Result<Data, RefErr>> {
    fn go(t: u16, c: &mut Cur<'_>) -> Result<Data, RefErr> {
        Ok(match t {
            ty::A => Data::A(c.take(4)?.try_into().unwrap()),
            ty::AAAA => Data::AAAA(c.take(16)?.try_into().unwrap()),
            ty::CNAME => Data::CNAME(c.name()?),
            ty::NS => Data::NS(c.name()?),
            ty::PTR => Data::PTR(c.name()?),
            ty::MX => Data::MX(c.u16()?, c.name()?),
            ty::TXT => {
                let mut v = vec![];
                while c.pos < c.limit {
                    let l = c.take(1)?[0];
                    v.push(c.take(l.into())?.to_vec());
                }
                Data::TXT(v)
            }
            ty::SRV => Data::SRV(c.u16()?, c.u16()?, c.u16()?, c.name()?),
            ty::SOA => Data::SOA(
                c.name()?,
                c.name()?,
                [c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?],
            ),
            _ => unreachable!(),
        })
    }
    ty::TYPED.contains(&t).then(|| go(t, c))
}

pub fn parse(buf: &[u8]) -> Result<Parsed, RefErr> {
    let mut c = Cur {
        buf,
        pos: 0,
        limit: buf.len(),
        long: false,
        pointers: 0,
        overlap: 0,
    };
    let mut p = Parsed::default();
    p.hdr.id = c.u16()?;
    p.hdr.flags = c.u16()?;
    for i in 0..4 {
        p.hdr.counts[i] = c.u16()?;
    }
    fn rest(c: &mut Cur<'_>, p: &mut Parsed) -> Result<(), (usize, RefErr)> {
        for _ in 0..p.hdr.counts[0] {
            let go = |c: &mut Cur<'_>| Ok((c.name()?, c.u16()?, c.u16()?));
            let (name, ty, class) = go(c).map_err(|e| (0, e))?;
            p.items.push(Item::Q {
                name,
                ty,
                class: class & 0x7fff,
                end: c.pos,
            });
        }
        for sec in 1..4 {
            for _ in 0..p.hdr.counts[sec] {
                let go = |c: &mut Cur<'_>| {
                    let name = c.name()?;
                    let ty = c.u16()?;
                    let class = c.u16()?;
                    let ttl = c.u32()?;
                    let len = c.u16()?;
                    let start = c.pos;
                    let rdata = c.take(len.into())?;
                    let mut rc = Cur {
                        buf: c.buf,
                        pos: start,
                        limit: start + usize::from(len),
                        long: false,
                        pointers: 0,
                        overlap: 0,
                    };
                    let typed = typed(ty, &mut rc);
                    c.long |= rc.long;
                    c.pointers += rc.pointers;
                    c.overlap += rc.overlap;
                    Ok(Item::R {
                        sec,
                        name,
                        ty,
                        class: class & 0x7fff,
                        flush: class & 0x8000 != 0,
                        ttl,
                        rdata: rdata.to_vec(),
                        typed,
                        end: c.pos,
                    })
                };
                p.items.push(go(c).map_err(|e| (sec, e))?);
            }
        }
        Ok(())
    }
    if let Err((sec, err)) = rest(&mut c, &mut p) {
        p.items.push(Item::E { sec, err });
    }
    p.end = c.pos;
    p.long_name = c.long;
    p.pointers = c.pointers;
    p.overlap = c.overlap;
    Ok(p)
}
