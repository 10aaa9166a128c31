//! Translation between the reference model's plain data and the public API of the library.

use crate::refdns::{self, Data, Item, Msg, Name, Parsed, RefErr, Rr, Q};
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::decoder::{self, MessageDecoder};
use uwuhi::packet::encoder::{self, MessageEncoder};
use uwuhi::packet::records::*;
use uwuhi::packet::{Class, Header, QClass, QType, Type};
use uwuhi::Error;

pub fn dn(n: &Name) -> DomainName {
    DomainName::from_iter(n.iter().map(Label::new))
}

pub fn nm(d: &DomainName) -> Name {
    d.labels().iter().map(|l| l.as_bytes().to_vec()).collect()
}

pub fn ty(v: u16) -> Type {
    bytemuck::cast(v)
}
pub fn qty(v: u16) -> QType {
    bytemuck::cast(v)
}
pub fn class(v: u16) -> Class {
    bytemuck::cast(v)
}
pub fn qclass(v: u16) -> QClass {
    bytemuck::cast(v)
}
pub fn ty_code(v: Type) -> u16 {
    bytemuck::cast(v)
}
pub fn qty_code(v: QType) -> u16 {
    bytemuck::cast(v)
}
pub fn class_code(v: Class) -> u16 {
    bytemuck::cast(v)
}
pub fn qclass_code(v: QClass) -> u16 {
    bytemuck::cast(v)
}

/// A header as it would be received.
pub fn header(id: u16, flags: u16, counts: [u16; 4]) -> Header {
    let mut b = [0u8; 12];
    b[..2].copy_from_slice(&id.to_be_bytes());
    b[2..4].copy_from_slice(&flags.to_be_bytes());
    for i in 0..4 {
        b[4 + 2 * i..6 + 2 * i].copy_from_slice(&counts[i].to_be_bytes());
    }
    bytemuck::cast(b)
}

pub fn record(d: &Data) -> Record<'static> {
    match d {
        Data::A(a) => Record::A(A::new((*a).into())),
        Data::AAAA(a) => Record::AAAA(AAAA::new((*a).into())),
        Data::CNAME(n) => Record::CNAME(CNAME::new(dn(n))),
        Data::MX(p, n) => Record::MX(MX::new(*p, dn(n))),
        Data::NS(n) => Record::NS(NS::new(dn(n))),
        Data::PTR(n) => Record::PTR(PTR::new(dn(n))),
        Data::TXT(e) => Record::TXT(TXT::new(e.iter().cloned())),
        Data::SRV(a, b, c, n) => Record::SRV(SRV::new(*a, *b, *c, dn(n))),
        Data::SOA(m, r, v) => {
            Record::SOA(SOA::new(dn(m), dn(r), v[0], v[1], v[2], v[3], v[4]))
        }
        Data::Raw(..) => panic!("harness: raw data cannot be encoded by the library"),
    }
}

pub fn data(r: &Record<'_>) -> Data {
    match r {
        Record::A(a) => Data::A(a.addr().octets()),
        Record::AAAA(a) => Data::AAAA(a.addr().octets()),
        Record::CNAME(c) => Data::CNAME(nm(c.cname())),
        Record::MX(m) => Data::MX(m.preference(), nm(m.exchange())),
        Record::NS(n) => Data::NS(nm(n.nsdname())),
        Record::PTR(p) => Data::PTR(nm(p.ptrdname())),
        Record::TXT(t) => Data::TXT(t.entries().map(<[u8]>::to_vec).collect()),
        Record::SRV(s) => Data::SRV(s.priority(), s.weight(), s.port(), nm(s.target())),
        Record::SOA(s) => Data::SOA(
            nm(s.mname()),
            nm(s.rname()),
            [
                s.serial(),
                s.refresh(),
                s.retry(),
                s.expire(),
                s.minimum_ttl(),
            ],
        ),
        _ => panic!("harness: record type without a reference model"),
    }
}

/// What the library (or the reference) says about one entry of a message.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum DItem {
    Q {
        name: Name,
        ty: u16,
        class: u16,
    },
    R {
        sec: usize,
        name: Name,
        ty: u16,
        class: u16,
        flush: bool,
        ttl: u32,
        rdata: Vec<u8>,
        typed: Option<Result<Data, Error>>,
    },
    E {
        sec: usize,
        err: Error,
    },
}

pub fn err(e: RefErr) -> Error {
    match e {
        RefErr::Eof => Error::Eof,
        RefErr::Loop => Error::PointerLoop,
        RefErr::Reserved => Error::InvalidValue,
    }
}

pub fn expected(p: &Parsed) -> Vec<DItem> {
    p.items
        .iter()
        .map(|i| match i {
            Item::Q {
                name, ty, class, ..
            } => DItem::Q {
                name: name.clone(),
                ty: *ty,
                class: *class,
            },
            Item::R {
                sec,
                name,
                ty,
                class,
                flush,
                ttl,
                rdata,
                typed,
                ..
            } => DItem::R {
                sec: *sec,
                name: name.clone(),
                ty: *ty,
                class: *class,
                flush: *flush,
                ttl: *ttl,
                rdata: rdata.clone(),
                typed: typed.clone().map(|t| t.map_err(err)),
            },
            Item::E { sec, err: e } => DItem::E {
                sec: *sec,
                err: err(*e),
            },
        })
        .collect()
}

pub fn ditem_q(q: &decoder::Question) -> DItem {
    DItem::Q {
        name: nm(q.qname()),
        ty: qty_code(q.qtype()),
        class: qclass_code(q.qclass()),
    }
}

pub fn ditem_r(sec: usize, r: &decoder::ResourceRecord<'_>) -> DItem {
    DItem::R {
        sec,
        name: nm(r.name()),
        ty: ty_code(r.type_()),
        class: class_code(r.class()),
        flush: r.cache_flush(),
        ttl: r.ttl(),
        rdata: r.rdata().to_vec(),
        typed: r.as_enum().map(|t| t.map(|t| data(&t))),
    }
}

/// Walks all sections with the iterators. The last item is an error if the walk ended in one.
pub fn decode(b: &[u8]) -> Result<Vec<DItem>, Error> {
    let mut v = vec![];
    let mut d = MessageDecoder::new(b)?;
    for q in d.iter() {
        match q {
            Ok(q) => v.push(ditem_q(&q)),
            Err(err) => {
                v.push(DItem::E { sec: 0, err });
                return Ok(v);
            }
        }
    }
    macro_rules! section {
        ($sec:expr, $d:expr) => {{
            let mut d = match $d {
                Ok(d) => d,
                Err(err) => {
                    v.push(DItem::E { sec: $sec, err });
                    return Ok(v);
                }
            };
            for r in d.iter() {
                match r {
                    Ok(r) => v.push(ditem_r($sec, &r)),
                    Err(err) => {
                        v.push(DItem::E { sec: $sec, err });
                        return Ok(v);
                    }
                }
            }
            d
        }};
    }
    let d = section!(1, d.answers());
    let d = section!(2, d.authority());
    let _d = section!(3, d.additional());
    Ok(v)
}

/// Class with the mDNS top bit.
fn rr_class(rr: &Rr) -> Class {
    class(rr.class | if rr.flush { 0x8000 } else { 0 })
}
fn q_class(q: &Q) -> QClass {
    qclass(q.class | if q.qu { 0x8000 } else { 0 })
}

/// A question; what a new one has anyhow is not always set (decided by the length of the name).
fn question<'a>(n: &'a DomainName, q: &Q) -> encoder::Question<'a> {
    let all = refdns::name_wire_len(&q.name) % 2 == 0;
    let mut e = encoder::Question::new(n);
    if all || q_class(q) != QClass::IN {
        e = e.class(q_class(q));
    }
    if all || q.ty != 255 {
        e = e.ty(qty(q.ty));
    }
    e
}

/// A record, likewise.
fn rr_of<'a>(rr: &Rr, n: &'a DomainName, d: &'a Record<'a>) -> encoder::ResourceRecord<'a> {
    let len = refdns::name_wire_len(&rr.name);
    let mut e = encoder::ResourceRecord::new(n, d);
    if len % 4 == 0 {
        return e.ttl(rr.ttl).class(rr_class(rr));
    }
    if len % 2 == 0 || rr_class(rr) != Class::IN {
        e = e.class(rr_class(rr));
    }
    if len % 2 == 0 || rr.ttl != 0 {
        e = e.ttl(rr.ttl);
    }
    e
}

/// Encodes `m` through the public encoder. `drop_it`: leave it to `drop` to finish the message.
pub fn encode(m: &Msg, buf: &mut [u8], drop_it: bool) -> Option<Result<usize, Error>> {
    let mut e = MessageEncoder::new(buf);
    e.set_header(header(m.id, m.flags, [0; 4]));
    for q in &m.q {
        let n = dn(&q.name);
        e.question(question(&n, q));
    }
    let mut e = e.answers();
    for rr in &m.sec[0] {
        let (n, d) = (dn(&rr.name), record(&rr.data));
        e.add_answer(rr_of(rr, &n, &d));
    }
    let mut e = e.authority();
    for rr in &m.sec[1] {
        let (n, d) = (dn(&rr.name), record(&rr.data));
        e.add_authority(rr_of(rr, &n, &d));
    }
    let mut e = e.additional();
    for rr in &m.sec[2] {
        let (n, d) = (dn(&rr.name), record(&rr.data));
        e.add_additional(rr_of(rr, &n, &d));
    }
    if drop_it {
        drop(e);
        None
    } else {
        Some(e.finish())
    }
}

/// Items of a model message as a reader has to see them.
pub fn items_of(m: &Msg) -> Vec<DItem> {
    let mut v: Vec<DItem> = m
        .q
        .iter()
        .map(|q| DItem::Q {
            name: q.name.clone(),
            ty: q.ty,
            class: q.class,
        })
        .collect();
    for (i, s) in m.sec.iter().enumerate() {
        for rr in s {
            let mut w = refdns::W::plain();
            w.data(&rr.data);
            v.push(DItem::R {
                sec: i + 1,
                name: rr.name.clone(),
                ty: rr.data.ty(),
                class: rr.class,
                flush: rr.flush,
                ttl: rr.ttl,
                rdata: w.out,
                typed: match &rr.data {
                    Data::Raw(..) => None,
                    d => Some(Ok(d.clone())),
                },
            });
        }
    }
    v
}
