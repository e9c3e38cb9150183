//! An independent RakNet codec, written from the protocol documentation
//! (https://wiki.vg/Raknet_Protocol), used by the raw peers and by the wire oracles.
//! It shares no code with the library.

use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const MAGIC: [u8; 16] =
    [0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78];

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Rel {
    U = 0,
    US = 1,
    R = 2,
    RO = 3,
    RS = 4,
}
impl Rel {
    pub fn from(b: u8) -> Option<Rel> {
        Some(match b {
            0 => Rel::U,
            1 => Rel::US,
            2 => Rel::R,
            3 => Rel::RO,
            4 => Rel::RS,
            _ => return None,
        })
    }
    pub fn reliable(self) -> bool {
        matches!(self, Rel::R | Rel::RO | Rel::RS)
    }
    pub fn sequenced(self) -> bool {
        matches!(self, Rel::US | Rel::RS)
    }
    pub fn ordered(self) -> bool {
        matches!(self, Rel::US | Rel::RO | Rel::RS)
    }
    pub const ALL: [Rel; 5] = [Rel::U, Rel::US, Rel::R, Rel::RO, Rel::RS];
}

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub rel: Rel,
    pub ridx: u32,
    pub sidx: u32,
    pub oidx: u32,
    pub chan: u8,
    /// (compound size, compound id, index)
    pub split: Option<(u32, u16, u32)>,
    pub data: Vec<u8>,
}
impl Frame {
    pub fn new(rel: Rel, data: &[u8]) -> Frame {
        Frame { rel, ridx: 0, sidx: 0, oidx: 0, chan: 0, split: None, data: data.to_vec() }
    }
    pub fn r(mut self, i: u32) -> Self {
        self.ridx = i;
        self
    }
    pub fn s(mut self, i: u32) -> Self {
        self.sidx = i;
        self
    }
    pub fn o(mut self, i: u32) -> Self {
        self.oidx = i;
        self
    }
    pub fn split(mut self, size: u32, id: u16, idx: u32) -> Self {
        self.split = Some((size, id, idx));
        self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pkt {
    Ping { kind: u8, time: i64, guid: Option<u64> },
    Pong { time: i64, guid: u64, motd: Vec<u8> },
    Req1 { proto: u8, len: usize },
    Rep1 { guid: u64, secure: u8, mtu: u16 },
    Req2 { addr: SocketAddr, mtu: u16, guid: u64 },
    Rep2 { guid: u64, addr: SocketAddr, mtu: u16, enc: u8 },
    Already { guid: u64 },
    Incompatible { proto: u8, guid: u64 },
    Disconnect,
    Ack(Vec<(u32, u32)>),
    Nack(Vec<(u32, u32)>),
    Frames { id: u8, num: u32, frames: Vec<Frame> },
}

// ---------------------------------------------------------------- reading
struct R<'a> {
    b: &'a [u8],
    p: usize,
}
type E = String;
impl<'a> R<'a> {
    fn take(&mut self, n: usize, what: &str) -> Result<&'a [u8], E> {
        if self.b.len() - self.p < n {
            return Err(format!("truncated in {what} at offset {}", self.p));
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u8(&mut self, w: &str) -> Result<u8, E> {
        Ok(self.take(1, w)?[0])
    }
    fn u16(&mut self, w: &str) -> Result<u16, E> {
        let b = self.take(2, w)?;
        Ok(u16::from_be_bytes([b[0], b[1]]))
    }
    fn u16le(&mut self, w: &str) -> Result<u16, E> {
        let b = self.take(2, w)?;
        Ok(u16::from_le_bytes([b[0], b[1]]))
    }
    fn u24(&mut self, w: &str) -> Result<u32, E> {
        let b = self.take(3, w)?;
        Ok(u32::from_le_bytes([b[0], b[1], b[2], 0]))
    }
    fn u32(&mut self, w: &str) -> Result<u32, E> {
        Ok(u32::from_be_bytes(self.take(4, w)?.try_into().unwrap()))
    }
    fn u64(&mut self, w: &str) -> Result<u64, E> {
        Ok(u64::from_be_bytes(self.take(8, w)?.try_into().unwrap()))
    }
    fn magic(&mut self) -> Result<(), E> {
        if self.take(16, "magic")? != MAGIC {
            return Err("wrong magic".into());
        }
        Ok(())
    }
    fn addr(&mut self) -> Result<SocketAddr, E> {
        match self.u8("address version")? {
            4 => {
                let b = self.take(4, "ipv4")?;
                let ip = Ipv4Addr::new(!b[0], !b[1], !b[2], !b[3]);
                Ok(SocketAddr::new(IpAddr::V4(ip), self.u16("port")?))
            }
            6 => {
                let fam = self.u16le("family")?;
                if fam != 23 {
                    return Err(format!("IPv6 address with family {fam}"));
                }
                let port = self.u16("port")?;
                self.u32("flow info")?;
                let b: [u8; 16] = self.take(16, "ipv6")?.try_into().unwrap();
                self.u32("scope id")?;
                Ok(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(b)), port))
            }
            v => Err(format!("address version {v}")),
        }
    }
    fn end(&self) -> Result<(), E> {
        if self.p != self.b.len() {
            return Err(format!("{} bytes left over", self.b.len() - self.p));
        }
        Ok(())
    }
}

/// Numbers and indexes on the wire have 24 bits.
pub const NUMBERS: u32 = 1 << 24;
thread_local! {
    /// what this codec calls number, reliable, sequenced and ordered index 0 is this on the wire
    static BASE: std::cell::Cell<[u32; 4]> = const { std::cell::Cell::new([0; 4]) };
}
pub fn set_base(b: [u32; 4]) {
    BASE.with(|x| x.set(b))
}
fn base(k: usize) -> u32 {
    BASE.with(|x| x.get()[k])
}
fn from_wire(k: usize, v: u32) -> u32 {
    v.wrapping_sub(base(k)) % NUMBERS
}
fn to_wire(k: usize, v: u32) -> [u8; 3] {
    let b = base(k);
    let x = if b == 0 { v } else { v.wrapping_add(b) % NUMBERS };
    x.to_le_bytes()[..3].try_into().unwrap()
}

/// the ranges of an ACK or NACK, from the base on
fn ranges(r: &mut R) -> Result<Vec<(u32, u32)>, E> {
    let v = wire_ranges(r)?;
    if base(0) == 0 {
        return Ok(v);
    }
    let mut w: Vec<(u32, u32)> = vec![];
    for (a, b) in v {
        let (a, b) = (from_wire(0, a), from_wire(0, b));
        let parts = if a <= b { vec![(a, b)] } else { vec![(a, NUMBERS - 1), (0, b)] };
        for (a, b) in parts {
            match w.last_mut() {
                // one range may have become two at the last number
                Some(l) if l.1 + 1 == a && a == NUMBERS - base(0) => l.1 = b,
                _ => w.push((a, b)),
            }
        }
    }
    Ok(w)
}
fn wire_ranges(r: &mut R) -> Result<Vec<(u32, u32)>, E> {
    let n = r.u16("record count")?;
    let mut v = vec![];
    for _ in 0..n {
        match r.u8("record kind")? {
            1 => {
                let a = r.u24("record")?;
                v.push((a, a));
            }
            0 => {
                let a = r.u24("record")?;
                let b = r.u24("record end")?;
                if b < a {
                    return Err(format!("inverted range {a}-{b}"));
                }
                v.push((a, b));
            }
            k => return Err(format!("record kind {k}")),
        }
    }
    r.end()?;
    Ok(v)
}

/// Decode one datagram completely; anything off is an error.
pub fn decode(b: &[u8]) -> Result<Pkt, E> {
    let mut r = R { b, p: 0 };
    let id = r.u8("packet id")?;
    match id {
        0x01 | 0x02 => {
            let time = r.u64("time")? as i64;
            r.magic()?;
            let guid = if r.p == b.len() { None } else { Some(r.u64("guid")?) };
            r.end()?;
            Ok(Pkt::Ping { kind: id, time, guid })
        }
        0x1c => {
            let time = r.u64("time")? as i64;
            let guid = r.u64("guid")?;
            r.magic()?;
            let n = r.u16("motd length")? as usize;
            let motd = r.take(n, "motd")?.to_vec();
            r.end()?;
            Ok(Pkt::Pong { time, guid, motd })
        }
        0x05 => {
            r.magic()?;
            let proto = r.u8("protocol")?;
            if b[r.p..].iter().any(|&x| x != 0) {
                return Err("non-zero padding".into());
            }
            Ok(Pkt::Req1 { proto, len: b.len() })
        }
        0x06 => {
            r.magic()?;
            let guid = r.u64("guid")?;
            let secure = r.u8("security")?;
            let mtu = r.u16("mtu")?;
            r.end()?;
            Ok(Pkt::Rep1 { guid, secure, mtu })
        }
        0x07 => {
            r.magic()?;
            let addr = r.addr()?;
            let mtu = r.u16("mtu")?;
            let guid = r.u64("guid")?;
            r.end()?;
            Ok(Pkt::Req2 { addr, mtu, guid })
        }
        0x08 => {
            r.magic()?;
            let guid = r.u64("guid")?;
            let addr = r.addr()?;
            let mtu = r.u16("mtu")?;
            let enc = r.u8("encryption")?;
            r.end()?;
            Ok(Pkt::Rep2 { guid, addr, mtu, enc })
        }
        0x12 => {
            r.magic()?;
            let guid = r.u64("guid")?;
            r.end()?;
            Ok(Pkt::Already { guid })
        }
        0x19 => {
            let proto = r.u8("protocol")?;
            r.magic()?;
            let guid = r.u64("guid")?;
            r.end()?;
            Ok(Pkt::Incompatible { proto, guid })
        }
        0x15 => {
            r.end()?;
            Ok(Pkt::Disconnect)
        }
        0xc0 => Ok(Pkt::Ack(ranges(&mut r)?)),
        0xa0 => Ok(Pkt::Nack(ranges(&mut r)?)),
        0x80..=0x8d => {
            let num = from_wire(0, r.u24("number")?);
            let mut frames = vec![];
            if r.p == b.len() {
                return Err("frame set without frames".into());
            }
            while r.p < b.len() {
                let flags = r.u8("flags")?;
                let rel = Rel::from(flags >> 5).ok_or_else(|| format!("reliability {}", flags >> 5))?;
                if flags & 0x0f != 0 {
                    return Err(format!("flag bits {flags:#x}"));
                }
                let bits = r.u16("length")?;
                if bits % 8 != 0 {
                    return Err(format!("length of {bits} bits"));
                }
                let mut f = Frame::new(rel, &[]);
                if rel.reliable() {
                    f.ridx = from_wire(1, r.u24("reliable index")?);
                }
                if rel.sequenced() {
                    f.sidx = from_wire(2, r.u24("sequenced index")?);
                }
                if rel.ordered() {
                    f.oidx = from_wire(3, r.u24("ordered index")?);
                    f.chan = r.u8("channel")?;
                }
                if flags & 0x10 != 0 {
                    let size = r.u32("compound size")?;
                    let cid = r.u16("compound id")?;
                    let idx = r.u32("fragment index")?;
                    if idx >= size {
                        return Err(format!("fragment {idx} of {size}"));
                    }
                    f.split = Some((size, cid, idx));
                }
                f.data = r.take(bits as usize / 8, "body")?.to_vec();
                if f.data.is_empty() {
                    return Err("empty frame".into());
                }
                frames.push(f);
            }
            Ok(Pkt::Frames { id, num, frames })
        }
        _ => Err(format!("unknown packet id {id:#04x}")),
    }
}

// ---------------------------------------------------------------- writing
pub fn w_addr(v: &mut Vec<u8>, a: &SocketAddr) {
    match a {
        SocketAddr::V4(a) => {
            v.push(4);
            v.extend(a.ip().octets().iter().map(|b| !b));
            v.extend(a.port().to_be_bytes());
        }
        SocketAddr::V6(a) => {
            v.push(6);
            v.extend(23u16.to_le_bytes());
            v.extend(a.port().to_be_bytes());
            v.extend([0; 4]);
            v.extend(a.ip().octets());
            v.extend([0; 4]);
        }
    }
}
pub fn req1(proto: u8, total: usize) -> Vec<u8> {
    let mut v = vec![5];
    v.extend(MAGIC);
    v.push(proto);
    v.resize(total.max(v.len()), 0);
    v
}
pub fn rep1(guid: u64, mtu: u16) -> Vec<u8> {
    let mut v = vec![6];
    v.extend(MAGIC);
    v.extend(guid.to_be_bytes());
    v.push(0);
    v.extend(mtu.to_be_bytes());
    v
}
pub fn req2(server: &SocketAddr, mtu: u16, guid: u64) -> Vec<u8> {
    let mut v = vec![7];
    v.extend(MAGIC);
    w_addr(&mut v, server);
    v.extend(mtu.to_be_bytes());
    v.extend(guid.to_be_bytes());
    v
}
pub fn rep2(guid: u64, client: &SocketAddr, mtu: u16) -> Vec<u8> {
    let mut v = vec![8];
    v.extend(MAGIC);
    v.extend(guid.to_be_bytes());
    w_addr(&mut v, client);
    v.extend(mtu.to_be_bytes());
    v.push(0);
    v
}
pub fn already(guid: u64) -> Vec<u8> {
    let mut v = vec![0x12];
    v.extend(MAGIC);
    v.extend(guid.to_be_bytes());
    v
}
pub fn incompatible(proto: u8, guid: u64) -> Vec<u8> {
    let mut v = vec![0x19, proto];
    v.extend(MAGIC);
    v.extend(guid.to_be_bytes());
    v
}
pub fn ping(kind: u8, time: i64, guid: u64) -> Vec<u8> {
    let mut v = vec![kind];
    v.extend(time.to_be_bytes());
    v.extend(MAGIC);
    v.extend(guid.to_be_bytes());
    v
}
pub fn pong(time: i64, guid: u64, motd: &[u8]) -> Vec<u8> {
    let mut v = vec![0x1c];
    v.extend(time.to_be_bytes());
    v.extend(guid.to_be_bytes());
    v.extend(MAGIC);
    v.extend((motd.len() as u16).to_be_bytes());
    v.extend(motd);
    v
}
pub fn records(id: u8, rs: &[(u32, u32)]) -> Vec<u8> {
    // a range does not go over the last number
    let end = NUMBERS - base(0);
    let mut parts = vec![];
    for &(a, b) in rs {
        if a < end && b >= end && b < NUMBERS {
            parts.push((a, end - 1));
            parts.push((end, b));
        } else {
            parts.push((a, b));
        }
    }
    let mut v = vec![id];
    v.extend((parts.len() as u16).to_be_bytes());
    for (a, b) in parts {
        if a == b {
            v.push(1);
            v.extend(to_wire(0, a));
        } else {
            v.push(0);
            v.extend(to_wire(0, a));
            v.extend(to_wire(0, b));
        }
    }
    v
}
pub fn ack(rs: &[(u32, u32)]) -> Vec<u8> {
    records(0xc0, rs)
}
pub fn nack(rs: &[(u32, u32)]) -> Vec<u8> {
    records(0xa0, rs)
}
pub fn w_frame(v: &mut Vec<u8>, f: &Frame) {
    v.push((f.rel as u8) << 5 | if f.split.is_some() { 0x10 } else { 0 });
    v.extend(((f.data.len() * 8) as u16).to_be_bytes());
    if f.rel.reliable() {
        v.extend(to_wire(1, f.ridx));
    }
    if f.rel.sequenced() {
        v.extend(to_wire(2, f.sidx));
    }
    if f.rel.ordered() {
        v.extend(to_wire(3, f.oidx));
        v.push(f.chan);
    }
    if let Some((size, id, idx)) = f.split {
        v.extend(size.to_be_bytes());
        v.extend(id.to_be_bytes());
        v.extend(idx.to_be_bytes());
    }
    v.extend(&f.data);
}
pub fn frames(num: u32, fs: &[Frame]) -> Vec<u8> {
    let cont = fs.iter().any(|f| matches!(f.split, Some((_, _, i)) if i > 0));
    let mut v = vec![if cont { 0x8c } else { 0x84 }];
    v.extend(to_wire(0, num));
    for f in fs {
        w_frame(&mut v, f);
    }
    v
}

// control messages (frame bodies)
pub fn m_conn_request(guid: u64, time: i64) -> Vec<u8> {
    let mut v = vec![9];
    v.extend(guid.to_be_bytes());
    v.extend(time.to_be_bytes());
    v.push(0);
    v
}
pub fn m_accepted(client: &SocketAddr, naddr: usize, filler: &SocketAddr, t1: i64, t2: i64) -> Vec<u8> {
    let mut v = vec![0x10];
    w_addr(&mut v, client);
    v.extend([0, 0]);
    for _ in 0..naddr {
        w_addr(&mut v, filler);
    }
    v.extend(t1.to_be_bytes());
    v.extend(t2.to_be_bytes());
    v
}
pub fn m_new_incoming(server: &SocketAddr, naddr: usize, filler: &SocketAddr, t1: i64, t2: i64) -> Vec<u8> {
    let mut v = vec![0x13];
    w_addr(&mut v, server);
    for _ in 0..naddr {
        w_addr(&mut v, filler);
    }
    v.extend(t1.to_be_bytes());
    v.extend(t2.to_be_bytes());
    v
}
pub fn m_ping(t: i64) -> Vec<u8> {
    let mut v = vec![0];
    v.extend(t.to_be_bytes());
    v
}
pub fn m_pong(t: i64, t2: i64) -> Vec<u8> {
    let mut v = vec![3];
    v.extend(t.to_be_bytes());
    v.extend(t2.to_be_bytes());
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    ConnRequest { guid: u64, time: i64, secure: u8 },
    Accepted { client: SocketAddr, index: u16, internal: Vec<SocketAddr>, t1: i64, t2: i64 },
    NewIncoming { server: SocketAddr, internal: Vec<SocketAddr>, t1: i64, t2: i64 },
    Ping(i64),
    Pong(i64, i64),
    Disconnect,
    App,
}
/// Decode the body of a whole message.
pub fn decode_msg(b: &[u8]) -> Result<Msg, E> {
    let mut r = R { b, p: 0 };
    let m = match r.u8("message id")? {
        9 => Msg::ConnRequest { guid: r.u64("guid")?, time: r.u64("time")? as i64, secure: r.u8("secure")? },
        0x10 => {
            let client = r.addr()?;
            let index = r.u16("system index")?;
            let mut internal = vec![];
            while b.len() - r.p > 16 {
                internal.push(r.addr()?);
            }
            Msg::Accepted { client, index, internal, t1: r.u64("time")? as i64, t2: r.u64("time")? as i64 }
        }
        0x13 => {
            let server = r.addr()?;
            let mut internal = vec![];
            while b.len() - r.p > 16 {
                internal.push(r.addr()?);
            }
            Msg::NewIncoming { server, internal, t1: r.u64("time")? as i64, t2: r.u64("time")? as i64 }
        }
        0 => Msg::Ping(r.u64("time")? as i64),
        3 => Msg::Pong(r.u64("time")? as i64, r.u64("time")? as i64),
        0x15 => Msg::Disconnect,
        0xfe => return Ok(Msg::App),
        x => return Err(format!("unknown message id {x:#04x}")),
    };
    r.end()?;
    Ok(m)
}
