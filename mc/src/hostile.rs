//! Catalogue of malformed and hostile datagrams, shared by the checks that throw them at the library.

use crate::kit::*;
use crate::wire::{self, Frame, Rel, Rel::*};
use std::net::SocketAddr;
use std::sync::Arc;

#[derive(Clone)]
pub struct Item {
    pub name: String,
    /// builds the datagram; frame numbers and indexes come from the connection
    pub make: Arc<dyn Fn(&RawConn) -> Vec<u8> + Send + Sync>,
}
fn bytes(v: &mut Vec<Item>, name: impl Into<String>, b: Vec<u8>) {
    v.push(Item { name: name.into(), make: Arc::new(move |_| b.clone()) });
}
fn built(v: &mut Vec<Item>, name: impl Into<String>, f: impl Fn(&RawConn) -> Vec<u8> + Send + Sync + 'static) {
    v.push(Item { name: name.into(), make: Arc::new(f) });
}

fn v4() -> SocketAddr {
    sa("127.0.0.1:19132")
}
fn v6() -> SocketAddr {
    sa("[2001:db8::17]:19132")
}
/// one valid datagram of every offline kind
pub fn offline() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("ping1", wire::ping(1, 5, 7)),
        ("ping2", wire::ping(2, 5, 7)),
        ("pong", wire::pong(5, 7, "MCPE;x;1;".as_bytes())),
        ("req1", wire::req1(10, 46)),
        ("rep1", wire::rep1(7, 1400)),
        ("req2", wire::req2(&v4(), 1400, 7)),
        ("req2v6", wire::req2(&v6(), 1400, 7)),
        ("rep2", wire::rep2(7, &v4(), 1400)),
        ("rep2v6", wire::rep2(7, &v6(), 1400)),
        ("already", wire::already(7)),
        ("incompatible", wire::incompatible(9, 7)),
    ]
}
/// complete control messages
pub fn controls() -> Vec<(&'static str, Vec<u8>)> {
    let f = sa("255.255.255.255:19132");
    vec![
        ("connreq", wire::m_conn_request(7, 5)),
        ("accepted", wire::m_accepted(&v4(), 10, &f, 5, 6)),
        ("accepted20", wire::m_accepted(&v4(), 20, &f, 5, 6)),
        ("accepted0", wire::m_accepted(&v4(), 0, &f, 5, 6)),
        ("acceptedv6", wire::m_accepted(&v6(), 10, &v6(), 5, 6)),
        ("incoming", wire::m_new_incoming(&v4(), 10, &f, 5, 6)),
        ("incomingv6", wire::m_new_incoming(&v6(), 20, &v6(), 5, 6)),
        ("cping", wire::m_ping(5)),
        ("cpong", wire::m_pong(5, 6)),
    ]
}
fn shape(k: usize) -> (&'static str, Frame) {
    let d = [0xfe, 0xee, 1, 2, 3, 4];
    match k {
        0 => ("U", Frame::new(U, &d)),
        1 => ("US", Frame::new(US, &d).s(0).o(0)),
        2 => ("R", Frame::new(R, &d).r(900)),
        3 => ("RO", Frame::new(RO, &d).r(900).o(5000)),
        4 => ("RS", Frame::new(RS, &d).r(900).s(0).o(0)),
        _ => ("split", Frame::new(RO, &d).r(900).o(5000).split(3, 700, 1)),
    }
}

/// Everything that fits no valid datagram, or that is valid but absurd. `level` 0: a small selection, 1: the whole catalogue.
/// None of them is a disconnect notification.
pub fn catalogue(level: u32) -> Vec<Item> {
    let full = level > 0;
    let mut v: Vec<Item> = vec![];
    bytes(&mut v, "empty", vec![]);
    // ---- first byte
    for b in 0..=255u8 {
        if b == 0x15 {
            continue;
        }
        let known = [0, 1, 2, 3, 5, 6, 7, 8, 9, 0x10, 0x12, 0x13, 0x19, 0x1c, 0x80, 0x84, 0x8c, 0x8d, 0x8e, 0xa0, 0xc0, 0xfe, 0xff, 0x42].contains(&b);
        if full || known {
            bytes(&mut v, format!("[{b:#04x}]"), vec![b]);
        }
        for fill in [0x00u8, 0xff, 0x10, 0x01] {
            for n in [1, 2, 3, 5, 9, 20, 40, 1399, 2100] {
                if full || (known && (n == 3 || n == 20) && fill != 0x10 && fill != 1) {
                    // a body of zero frames of an application message cannot arise: 0xfe never follows a frame header here
                    let mut d = vec![b];
                    d.resize(1 + n, fill);
                    bytes(&mut v, format!("[{b:#04x}]+{n}*{fill:#04x}"), d);
                }
            }
        }
    }
    // ---- offline datagrams, cut and extended, wrong magic
    for (n, d) in offline() {
        bytes(&mut v, n, d.clone());
        for k in 1..d.len() {
            if full || k % 9 == 1 || k + 1 == d.len() {
                bytes(&mut v, format!("{n} cut to {k}"), d[..k].to_vec());
            }
        }
        for x in [1usize, 8, 700] {
            if full {
                let mut e = d.clone();
                e.resize(d.len() + x, 0xaa);
                bytes(&mut v, format!("{n} and {x} more bytes"), e);
            }
        }
        if full {
            if let Some(p) = d.windows(16).position(|w| w == wire::MAGIC) {
                for k in 0..16 {
                    let mut e = d.clone();
                    e[p + k] ^= 0x40;
                    bytes(&mut v, format!("{n} magic byte {k} wrong"), e);
                }
            }
            for k in 1..d.len() {
                for x in [0x00, 0xff, 0x06, 0x80] {
                    let mut e = d.clone();
                    if e[k] != x {
                        e[k] = x;
                        bytes(&mut v, format!("{n} byte {k} = {x:#x}"), e);
                    }
                }
            }
        }
    }
    for m in [0u16, 1, 27, 28, 29, 46, 59, 60, 61, 62, 90, 100, 399, 8251, 8252, 9000, 32767, 32768, 65535] {
        if full || m < 100 || m == 65535 {
            bytes(&mut v, format!("req2 mtu {m}"), wire::req2(&v4(), m, 7));
            bytes(&mut v, format!("rep1 mtu {m}"), wire::rep1(7, m));
        }
    }
    for ver in [0u8, 1, 5, 7, 255] {
        let mut d = wire::req2(&v4(), 1400, 7);
        d[17] = ver;
        bytes(&mut v, format!("req2 address version {ver}"), d);
        let mut d = wire::rep2(7, &v4(), 1400);
        d[25] = ver;
        bytes(&mut v, format!("rep2 address version {ver}"), d);
    }
    for (n, t) in [("utf-8", vec![0xffu8, 0xfe, 0xc3]), ("cut utf-8", vec![b'a', 0xe6, 0x97])] {
        bytes(&mut v, format!("pong invalid {n}"), wire::pong(5, 7, &t));
    }
    for l in [0u16, 1, 100, 65535] {
        let mut d = wire::pong(5, 7, b"MCPE;");
        let p = d.len() - 7;
        d[p..p + 2].copy_from_slice(&l.to_be_bytes());
        bytes(&mut v, format!("pong string length {l}"), d);
    }
    // ---- ACK and NACK
    for (n, id) in [("ack", 0xc0u8), ("nack", 0xa0)] {
        let valid = wire::records(id, &[(3, 3), (5, 9), (11, 11)]);
        for k in 1..valid.len() {
            if full || k % 3 == 0 {
                bytes(&mut v, format!("{n} cut to {k}"), valid[..k].to_vec());
            }
        }
        let mut e = valid.clone();
        e.extend([0xaa; 5]);
        bytes(&mut v, format!("{n} and more bytes"), e);
        for cnt in [0u16, 1, 2, 4, 65535] {
            let mut e = valid.clone();
            e[1..3].copy_from_slice(&cnt.to_be_bytes());
            bytes(&mut v, format!("{n} count {cnt}"), e);
        }
        for kind in [2u8, 0x80, 255] {
            let mut e = wire::records(id, &[(7, 9)]);
            e[3] = kind;
            bytes(&mut v, format!("{n} record kind {kind}"), e);
        }
        let far = 0xffffff;
        for (t, r) in [
            ("inverted", vec![(9, 3)]),
            ("last", vec![(far, far)]),
            ("ahead", vec![(5000, 5000)]),
            ("ahead twice", vec![(5000, 5000), (6000, 6000)]),
            ("past and ahead", vec![(0, 300)]),
            ("inverted far", vec![(far, 0)]),
            ("everything", vec![(0, far)]),
            ("everything, many times", vec![(0, far); 190]),
            ("upwards", (0..150).map(|i| (i * 3, i * 3)).collect()),
            ("downwards", (0..150).rev().map(|i| (i * 3, i * 3)).collect()),
            ("upper half", vec![(0x800000, far)]),
        ] {
            bytes(&mut v, format!("{n} {t}"), wire::records(id, &r));
        }
    }
    // ---- frame sets: header
    for k in 0..6 {
        let (n, f) = shape(k);
        let d = wire::frames(0, &[f.clone()]);
        for cut in 1..d.len() {
            if full || cut % 4 == 0 || cut + 1 == d.len() {
                let f = f.clone();
                built(&mut v, format!("frame {n} cut to {cut}"), move |c| {
                    let d = wire::frames(c.next_num(), &[f.clone()]);
                    d[..cut].to_vec()
                });
            }
        }
        for len in [0u16, 1, 7, 9, 47, 49, 0x7fff, 0x8000, 0xfff8, 0xffff] {
            let f = f.clone();
            if full || len == 0 || len > 40000 {
                built(&mut v, format!("frame {n} length {len} bits"), move |c| {
                    let mut d = wire::frames(c.next_num(), &[f.clone()]);
                    d[5..7].copy_from_slice(&len.to_be_bytes());
                    d
                });
            }
        }
        let f2 = f.clone();
        built(&mut v, format!("frame {n} twice, second cut"), move |c| {
            let mut d = wire::frames(c.next_num(), &[Frame::new(R, &[0xfe, 0xed]), f2.clone()]);
            d.truncate(d.len() - 3);
            d
        });
        let f2 = f.clone();
        built(&mut v, format!("frame {n} and a byte"), move |c| {
            let mut d = wire::frames(c.next_num(), &[f2.clone()]);
            d.push(0x60);
            d
        });
    }
    for fl in 0..=255u8 {
        for fill in [0u8, 0xff, 0x08] {
            for n in [0usize, 1, 2, 5, 12, 30] {
                if full || (fl % 16 == 0 && n % 12 == 0 && fill != 8) {
                    built(&mut v, format!("flags {fl:#04x} + {n}*{fill:#04x}"), move |c| {
                        let mut d = wire::frames(c.next_num(), &[]);
                        d.push(fl);
                        d.resize(d.len() + n, fill);
                        d
                    });
                }
            }
        }
    }
    for num in [0u32, 3, 700, 0x7fffff, 0xfffffe, 0xffffff] {
        built(&mut v, format!("datagram number {num:#x}"), move |_| wire::frames(num, &[Frame::new(R, &[0xfe, 0xee, 9]).r(900)]));
        bytes(&mut v, format!("no frames, number {num:#x}"), wire::frames(num, &[]));
    }
    if full {
        for ch in [1u8, 31, 32, 255] {
            built(&mut v, format!("order channel {ch}"), move |c| {
                let mut f = Frame::new(RO, &[0xfe, 0xee]).r(900).o(5000);
                f.chan = ch;
                wire::frames(c.next_num(), &[f])
            });
        }
        built(&mut v, "200 empty frames", |c| {
            let mut d = wire::frames(c.next_num(), &[]);
            for _ in 0..200 {
                d.extend([0x00, 0, 0]);
            }
            d
        });
        built(&mut v, "oversize", |c| wire::frames(c.next_num(), &[Frame::new(R, &vec![0xee; 5000]).r(900)]));
    }
    // ---- fragments: far ahead and stale ordered indexes, compound ids nobody else uses
    for (w, o) in [("ahead", 5000u32), ("stale", 0), ("last", 0xffffff)] {
        for (size, idx) in [(0u32, 0u32), (0, 1), (1, 0), (1, 1), (2, 2), (2, 0), (2, 1), (3, u32::MAX), (u32::MAX, 0), (u32::MAX, u32::MAX), (0x10000, 7)] {
            if full || w != "last" {
                for rel in Rel::ALL {
                    if rel != RO && (!full || w != "ahead") {
                        continue;
                    }
                    built(&mut v, format!("fragment {idx} of {size}, {rel:?}, {w}"), move |c| {
                        wire::frames(c.next_num(), &[Frame::new(rel, &[0xee, 1]).r(900).o(o).split(size, 701, idx)])
                    });
                }
            }
        }
    }
    for (n, a, b) in [
        ("size grows", (2u32, 0u32, 5000u32), (3u32, 1u32, 5000u32)),
        ("size shrinks", (3, 0, 5000), (2, 1, 5000)),
        ("size shrinks to one", (3, 1, 5000), (1, 0, 5000)),
        ("size becomes zero", (3, 0, 5000), (0, 1, 5000)),
        ("index beyond", (2, 0, 5000), (2, 5, 5000)),
        ("other order", (2, 0, 5000), (2, 1, 5001)),
        ("same index twice", (2, 0, 5000), (2, 0, 5000)),
        ("becomes stale", (2, 0, 5000), (2, 1, 0)),
    ] {
        built(&mut v, format!("fragments: {n}"), move |c| {
            let f = |x: (u32, u32, u32)| Frame::new(RO, &[0xee, 2]).r(900).o(x.2).split(x.0, 702, x.1);
            wire::frames(c.next_num(), &[f(a), f(b)])
        });
    }
    // ---- frame bodies: empty, unknown, cut control messages; well-formed frames, so they take their place in the order
    for rel in [U, R, RO, US, RS] {
        built(&mut v, format!("empty message {rel:?}"), move |c| c.datagram(&[c.frame(rel, &[])]));
    }
    built(&mut v, "empty fragments", |c| c.datagram(&c.fragments(703, &[&[], &[]])));
    built(&mut v, "an empty fragment", |c| c.datagram(&c.fragments(704, &[&[0xfe, 0xee], &[]])));
    for b in 0..=255u8 {
        let known = [1, 2, 5, 6, 7, 8, 0x12, 0x19, 0x1c, 0x80, 0x84, 0xa0, 0xc0, 0x42, 0xff].contains(&b);
        if [0x15, 0xfe].contains(&b) || !(full || known) {
            continue;
        }
        for rel in [RO, R, U] {
            if full || rel == RO {
                built(&mut v, format!("message [{b:#04x}] {rel:?}"), move |c| c.datagram(&[c.frame(rel, &[b])]));
                built(&mut v, format!("message [{b:#04x}, 0..] {rel:?}"), move |c| c.datagram(&[c.frame(rel, &[b, 0, 0, 0, 0, 0, 0, 0, 0, 0])]));
            }
        }
    }
    for (n, m) in controls() {
        for k in 1..m.len() {
            if full || k % 20 == 1 || k + 1 == m.len() {
                let m = m[..k].to_vec();
                built(&mut v, format!("message {n} cut to {k}"), move |c| c.datagram(&[c.frame(RO, &m)]));
            }
        }
        let m2 = m.clone();
        built(&mut v, format!("message {n} complete"), move |c| c.datagram(&[c.frame(RO, &m2)]));
        if full {
            let mut m3 = m.clone();
            m3.extend([0xaa; 30]);
            built(&mut v, format!("message {n} and more bytes"), move |c| c.datagram(&[c.frame(RO, &m3)]));
            for k in 1..m.len().min(40) {
                for x in [0u8, 0xff, 4, 6] {
                    let mut m4 = m.clone();
                    if m4[k] != x {
                        m4[k] = x;
                        built(&mut v, format!("message {n} byte {k} = {x:#x}"), move |c| c.datagram(&[c.frame(RO, &m4)]));
                    }
                }
            }
        }
    }
    v
}

/// complete bodies of all frames of a datagram that parse; what the peer may be said to have sent
pub fn bodies(d: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if d.len() < 4 || !(0x80..=0x8d).contains(&d[0]) {
        return out;
    }
    let mut p = 4;
    while p + 3 <= d.len() {
        let fl = d[p];
        let n = u16::from_be_bytes([d[p + 1], d[p + 2]]) as usize / 8;
        let Some(rel) = Rel::from(fl >> 5) else { break };
        p += 3 + if rel.reliable() { 3 } else { 0 } + if rel.sequenced() { 3 } else { 0 } + if rel.ordered() { 4 } else { 0 } + if fl & 16 != 0 { 10 } else { 0 };
        if p + n > d.len() {
            break;
        }
        out.push(d[p..p + n].to_vec());
        p += n;
    }
    out
}
