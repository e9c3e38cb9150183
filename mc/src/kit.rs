//! What the scenarios are built from: API calls driven on the simulated world, raw peers, and the
//! pieces common to several oracles.

use crate::explore::Found;
use crate::wire::{self, Frame, Msg, Pkt, Rel};
use rust_raknet::{RaknetListener, RaknetSocket, Reliability};
use simrt::{Tap, MS, SEC};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;

pub type Rz<T> = Result<T, Found>;

pub fn found<T>(sig: impl Into<String>, msg: impl Into<String>) -> Rz<T> {
    Err(Found { sig: sig.into(), msg: msg.into() })
}

pub fn sa(s: &str) -> SocketAddr {
    s.parse().unwrap()
}
pub fn server_addr() -> SocketAddr {
    sa("127.0.0.1:19132")
}

pub fn rel(r: Rel) -> Reliability {
    match r {
        Rel::U => Reliability::Unreliable,
        Rel::US => Reliability::UnreliableSequenced,
        Rel::R => Reliability::Reliable,
        Rel::RO => Reliability::ReliableOrdered,
        Rel::RS => Reliability::ReliableSequenced,
    }
}

// ------------------------------------------------------------------------------------------------
// running API calls

pub struct Job<T> {
    pub id: simrt::TaskId,
    slot: Rc<RefCell<Option<T>>>,
    pub name: &'static str,
}
pub fn go<T: 'static>(name: &'static str, fut: impl Future<Output = T> + 'static) -> Job<T> {
    let slot = Rc::new(RefCell::new(None));
    let s2 = slot.clone();
    let id = simrt::spawn_app(name, async move {
        let v = fut.await;
        *s2.borrow_mut() = Some(v);
    });
    Job { id, slot, name }
}
impl<T> Job<T> {
    pub fn done(&self) -> bool {
        self.slot.borrow().is_some()
    }
    pub fn dead(&self) -> bool {
        simrt::task_done(self.id)
    }
    pub fn take(&self) -> Option<T> {
        self.slot.borrow_mut().take()
    }
    /// Run the world until the job has finished (or panicked), at most `limit` ns.
    pub fn wait(&self, limit: u64) -> Option<T> {
        let d = simrt::now() + limit;
        simrt::run_until(d, || self.done() || self.dead());
        self.take()
    }
    pub fn abort(&self) {
        simrt::abort(self.id)
    }
}

#[derive(Debug)]
pub enum Stuck {
    Hang,
    Panic(String),
}
impl Stuck {
    pub fn text(&self) -> String {
        match self {
            Stuck::Hang => "did not return".into(),
            Stuck::Panic(p) => format!("panicked ({p})"),
        }
    }
}
/// Run one call to completion while the whole world runs along.
pub fn block<'a, T: 'a>(limit: u64, fut: impl Future<Output = T> + 'a) -> Result<T, Stuck> {
    let slot: Rc<RefCell<Option<T>>> = Rc::new(RefCell::new(None));
    let s2 = slot.clone();
    let f: Pin<Box<dyn Future<Output = ()> + 'a>> = Box::pin(async move {
        let v = fut.await;
        *s2.borrow_mut() = Some(v);
    });
    // Sound: the task is finished or aborted (its future dropped) before this function returns.
    let f: Pin<Box<dyn Future<Output = ()> + 'static>> = unsafe { std::mem::transmute(f) };
    let np = simrt::panics().len();
    let id = simrt::spawn_app("call", f);
    let d = simrt::now() + limit;
    simrt::run_until(d, || simrt::task_done(id));
    if !simrt::task_done(id) {
        simrt::abort(id);
        return Err(Stuck::Hang);
    }
    let v = slot.borrow_mut().take();
    match v {
        Some(v) => Ok(v),
        None => Err(Stuck::Panic(simrt::panics().into_iter().skip(np).filter(|p| !p.lib).last().map(|p| p.msg).unwrap_or_default())),
    }
}

pub fn e2s<T>(r: rust_raknet_result<T>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}
#[allow(non_camel_case_types)]
pub type rust_raknet_result<T> = rust_raknet::error::Result<T>;

/// Library panics so far (tasks of the library and API calls alike).
pub fn no_panic(sig: &str) -> Rz<()> {
    let p = simrt::panics();
    if let Some(p) = p.first() {
        return found(format!("{sig}: panic"), format!("panic in {}: {}", p.task, p.msg));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// connected pairs

pub struct Pair {
    pub listener: RaknetListener,
    pub client: Rc<RaknetSocket>,
    pub server: Rc<RaknetSocket>,
    pub saddr: SocketAddr,
    pub caddr: SocketAddr,
}

thread_local! {
    static FROM_STD: Cell<bool> = const { Cell::new(false) };
}
/// Listeners of this execution come from a socket of the standard library.
pub fn listen_from_std() {
    FROM_STD.with(|f| f.set(true));
}
/// A socket of the standard library; other executions may have one with the same address.
fn std_socket(a: &SocketAddr) -> std::io::Result<std::net::UdpSocket> {
    use std::os::fd::FromRawFd;
    extern "C" {
        fn socket(domain: i32, ty: i32, protocol: i32) -> i32;
        fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
        fn bind(fd: i32, addr: *const u8, len: u32) -> i32;
    }
    let SocketAddr::V4(v4) = a else { return Err(std::io::ErrorKind::Unsupported.into()) };
    let mut sin = [0u8; 16];
    sin[..2].copy_from_slice(&2u16.to_ne_bytes());
    sin[2..4].copy_from_slice(&v4.port().to_be_bytes());
    sin[4..8].copy_from_slice(&v4.ip().octets());
    unsafe {
        let fd = socket(2, 2 | 0o2000000, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = std::net::UdpSocket::from_raw_fd(fd);
        if setsockopt(fd, 1, 15, &1, 4) != 0 || bind(fd, sin.as_ptr(), 16) != 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(s)
    }
}
/// `RaknetListener::bind`, or `from_std`
pub async fn bind(a: &SocketAddr) -> Result<RaknetListener, rust_raknet::error::RaknetError> {
    if FROM_STD.with(|f| f.get()) {
        match std_socket(a) {
            Ok(s) => RaknetListener::from_std(s).await,
            Err(e) => panic!("setup: a socket of the standard library: {e}"),
        }
    } else {
        RaknetListener::bind(a).await
    }
}

pub fn listen_at(a: SocketAddr) -> Rz<RaknetListener> {
    let mut l = match block(5 * SEC, bind(&a)) {
        Ok(Ok(l)) => l,
        Ok(Err(e)) => return found("setup: bind", format!("bind failed: {e:?}")),
        Err(s) => return found("setup: bind", format!("bind {}", s.text())),
    };
    match block(5 * SEC, l.listen()) {
        Ok(()) => Ok(l),
        Err(s) => found("setup: listen", format!("listen {}", s.text())),
    }
}
pub fn connect_to(a: SocketAddr, ver: Option<u8>) -> Job<Result<Rc<RaknetSocket>, String>> {
    go("connect", async move {
        match ver {
            None => RaknetSocket::connect(&a).await,
            Some(v) => RaknetSocket::connect_with_version(&a, v).await,
        }
        .map(Rc::new)
        .map_err(|e| format!("{e:?}"))
    })
}
pub fn accept(l: &mut RaknetListener, limit: u64) -> Result<Result<Rc<RaknetSocket>, String>, Stuck> {
    block(limit, l.accept()).map(|r| r.map(Rc::new).map_err(|e| format!("{e:?}")))
}

/// Connect one client to a listener, without exploring anything.
pub fn join(l: &mut RaknetListener, saddr: SocketAddr) -> Rz<(Rc<RaknetSocket>, Rc<RaknetSocket>)> {
    let j = connect_to(saddr, None);
    let c = match j.wait(10 * SEC) {
        Some(Ok(c)) => c,
        Some(Err(e)) => return found("setup: connect", format!("connect failed: {e}")),
        None => return found("setup: connect", "connect did not return within 10 s on a perfect network"),
    };
    match accept(l, 5 * SEC) {
        Ok(Ok(s)) => Ok((c, s)),
        Ok(Err(e)) => found("setup: accept", format!("accept failed: {e}")),
        Err(s) => found("setup: accept", format!("accept {}", s.text())),
    }
}
pub fn pair() -> Rz<Pair> {
    pair_at(server_addr())
}
pub fn pair_at(a: SocketAddr) -> Rz<Pair> {
    let m = simrt::exploring();
    simrt::explore(0);
    let mut listener = listen_at(a)?;
    let (client, server) = join(&mut listener, a)?;
    let caddr = server.peer_addr().unwrap();
    // let the handshake traffic settle
    simrt::run_for(300 * MS);
    simrt::explore(m);
    Ok(Pair { listener, client, server, saddr: a, caddr })
}

// ------------------------------------------------------------------------------------------------
// readers

#[derive(Clone, Default)]
pub struct Log {
    pub v: Rc<RefCell<Vec<(u64, Vec<u8>)>>>,
    pub end: Rc<RefCell<Option<(u64, String)>>>,
}
impl Log {
    pub fn len(&self) -> usize {
        self.v.borrow().len()
    }
    pub fn msgs(&self) -> Vec<Vec<u8>> {
        self.v.borrow().iter().map(|x| x.1.clone()).collect()
    }
    pub fn end(&self) -> Option<String> {
        self.end.borrow().as_ref().map(|e| e.1.clone())
    }
    pub fn end_at(&self) -> Option<u64> {
        self.end.borrow().as_ref().map(|e| e.0)
    }
}
/// A task that calls recv until it fails.
pub fn reader(s: &Rc<RaknetSocket>) -> (Log, Job<()>) {
    let log = Log::default();
    let l2 = log.clone();
    let s = s.clone();
    let j = go("reader", async move {
        loop {
            match s.recv().await {
                Ok(m) => {
                    simrt::log(|| format!("recv -> {}", show(&m)));
                    l2.v.borrow_mut().push((simrt::now(), m))
                }
                Err(e) => {
                    simrt::log(|| format!("recv -> Err({e:?})"));
                    *l2.end.borrow_mut() = Some((simrt::now(), format!("{e:?}")));
                    break;
                }
            }
        }
    });
    (log, j)
}

// ------------------------------------------------------------------------------------------------
// payloads

/// A message of `len` (>= 1) bytes whose content is determined by, and identifies, `tag`.
pub fn payload(tag: u32, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    v.push(0xfe);
    let mut x = tag.wrapping_mul(2654435761).wrapping_add(len as u32) | 1;
    let head = [(tag >> 8) as u8, tag as u8];
    for i in 1..len {
        if i <= 2 {
            v.push(head[i - 1]);
        } else {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            v.push((x >> 8) as u8);
        }
    }
    v
}
pub fn show(m: &[u8]) -> String {
    let h: String = m.iter().take(6).map(|b| format!("{b:02x}")).collect();
    format!("{}B:{}", m.len(), h)
}
pub fn shows(ms: &[Vec<u8>]) -> String {
    ms.iter().map(|m| show(m)).collect::<Vec<_>>().join(" ")
}

pub fn send(s: &Rc<RaknetSocket>, m: &[u8], r: Rel) -> Result<Result<(), String>, Stuck> {
    simrt::log(|| format!("send({}, {:?})", show(m), r));
    block(60 * SEC, s.send(m, rel(r))).map(|x| x.map_err(|e| format!("{e:?}")))
}
pub fn must_send(s: &Rc<RaknetSocket>, m: &[u8], r: Rel) -> Rz<()> {
    match send(s, m, r) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => found("send refused", format!("send of {} ({r:?}) failed with {e}", show(m))),
        Err(s) => found("send stuck", format!("send of {} {}", show(m), s.text())),
    }
}

// ------------------------------------------------------------------------------------------------
// raw peers

pub struct Raw {
    pub addr: SocketAddr,
    pub sock: u32,
}
impl Drop for Raw {
    fn drop(&mut self) {
        simrt::net_close(self.sock);
    }
}
impl Raw {
    pub fn new(addr: SocketAddr) -> Raw {
        let (sock, addr) = simrt::net_bind(addr).expect("raw bind");
        Raw { addr: simrt::visible_addr(addr), sock }
    }
    /// put on the wire as is, no choice involved
    pub fn send(&self, to: SocketAddr, b: &[u8]) {
        simrt::inject(self.addr, to, b, 5 * MS);
    }
    pub fn send_in(&self, to: SocketAddr, b: &[u8], ns: u64) {
        simrt::inject(self.addr, to, b, ns);
    }
    pub fn try_recv(&self) -> Option<(Vec<u8>, SocketAddr)> {
        let mut b = vec![0u8; 65536];
        simrt::net_try_recv(self.sock, &mut b).ok().map(|(n, a)| (b[..n].to_vec(), a))
    }
    pub fn drain(&self) -> Vec<(Vec<u8>, SocketAddr)> {
        let mut v = vec![];
        while let Some(x) = self.try_recv() {
            v.push(x);
        }
        v
    }
    /// run the world until a datagram arrives here
    pub fn recv(&self, limit: u64) -> Option<(Vec<u8>, SocketAddr)> {
        let d = simrt::now() + limit;
        let got = RefCell::new(None);
        simrt::run_until(d, || {
            *got.borrow_mut() = self.try_recv();
            got.borrow().is_some()
        });
        got.into_inner()
    }
    pub fn recv_pkt(&self, limit: u64) -> Option<Result<Pkt, String>> {
        self.recv(limit).map(|(b, _)| wire::decode(&b))
    }
}

/// A raw peer's end of a connection.
pub struct RawConn {
    pub raw: Raw,
    pub peer: SocketAddr,
    pub mtu: u16,
    pub num: Cell<u32>,
    pub ridx: Cell<u32>,
    pub oidx: Cell<u32>,
    pub sidx: Cell<u32>,
    /// everything received, in order
    pub got: RefCell<Vec<(u64, Vec<u8>)>>,
    pub auto_ack: Cell<bool>,
}
impl RawConn {
    pub fn new(raw: Raw, peer: SocketAddr, mtu: u16) -> RawConn {
        RawConn {
            raw,
            peer,
            mtu,
            num: Cell::new(0),
            ridx: Cell::new(0),
            oidx: Cell::new(0),
            sidx: Cell::new(0),
            got: RefCell::new(vec![]),
            auto_ack: Cell::new(true),
        }
    }
    pub fn bytes(&self, b: &[u8]) {
        self.raw.send(self.peer, b)
    }
    fn inc(c: &Cell<u32>) -> u32 {
        let v = c.get();
        c.set(v + 1);
        v
    }
    pub fn next_num(&self) -> u32 {
        Self::inc(&self.num)
    }
    pub fn frame(&self, r: Rel, data: &[u8]) -> Frame {
        let mut f = Frame::new(r, data);
        if r.reliable() {
            f.ridx = Self::inc(&self.ridx);
        }
        match r {
            Rel::RO => f.oidx = Self::inc(&self.oidx),
            Rel::US | Rel::RS => {
                f.sidx = Self::inc(&self.sidx);
                f.oidx = self.oidx.get();
            }
            _ => {}
        }
        f
    }
    /// fragments of one ordered message
    pub fn fragments(&self, id: u16, parts: &[&[u8]]) -> Vec<Frame> {
        let o = Self::inc(&self.oidx);
        parts
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let mut f = Frame::new(Rel::RO, p).o(o).split(parts.len() as u32, id, i as u32);
                f.ridx = Self::inc(&self.ridx);
                f
            })
            .collect()
    }
    pub fn datagram(&self, fs: &[Frame]) -> Vec<u8> {
        wire::frames(self.next_num(), fs)
    }
    /// one message in one datagram
    pub fn msg(&self, r: Rel, data: &[u8]) -> u32 {
        let f = self.frame(r, data);
        let n = self.next_num();
        self.bytes(&wire::frames(n, &[f]));
        n
    }
    fn absorb(&self) -> usize {
        let new = self.raw.drain();
        let n = new.len();
        for (b, _) in new {
            if self.auto_ack.get() {
                if let Ok(Pkt::Frames { num, .. }) = wire::decode(&b) {
                    self.bytes(&wire::ack(&[(num, num)]));
                }
            }
            self.got.borrow_mut().push((simrt::now(), b));
        }
        n
    }
    /// let the world run for `ns`, answering with ACKs if asked to
    pub fn pump(&self, ns: u64) {
        let d = simrt::now() + ns;
        let s = simrt::run_until(d, || {
            self.absorb();
            false
        });
        if s == simrt::Stop::Quiet {
            simrt::advance_clock_to(d);
        }
        self.absorb();
    }
    pub fn pump_until(&self, ns: u64, mut c: impl FnMut() -> bool) -> bool {
        let d = simrt::now() + ns;
        simrt::run_until(d, || {
            self.absorb();
            c()
        }) == simrt::Stop::Cond
    }
    pub fn pkts(&self) -> Vec<(u64, Pkt)> {
        self.got.borrow().iter().filter_map(|(t, b)| wire::decode(b).ok().map(|p| (*t, p))).collect()
    }
    /// application and control messages received so far, reassembled, in arrival order, without repeats
    pub fn messages(&self) -> Vec<Vec<u8>> {
        let mut seen = std::collections::HashSet::new();
        let mut parts: std::collections::BTreeMap<u16, std::collections::BTreeMap<u32, Vec<u8>>> = Default::default();
        let mut out = vec![];
        for (_, p) in self.pkts() {
            if let Pkt::Frames { num, frames, .. } = p {
                for f in frames {
                    let key = if f.rel.reliable() { (1, f.ridx) } else { (0, num) };
                    if !seen.insert(key) {
                        continue;
                    }
                    match f.split {
                        None => out.push(f.data),
                        Some((size, id, idx)) => {
                            let e = parts.entry(id).or_default();
                            e.insert(idx, f.data);
                            if e.len() as u32 == size {
                                out.push(parts.remove(&id).unwrap().into_values().flatten().collect());
                            }
                        }
                    }
                }
            }
        }
        out
    }
    pub fn app_messages(&self) -> Vec<Vec<u8>> {
        self.messages().into_iter().filter(|m| m.first() == Some(&0xfe)).collect()
    }
}

/// Offline part of the client's handshake: request 1 and 2.
pub fn raw_offline(raw: &Raw, server: SocketAddr, ver: u8, mtu: u16, guid: u64) -> Rz<()> {
    raw.send(server, &wire::req1(ver, 1371));
    match raw.recv_pkt(2 * SEC) {
        Some(Ok(Pkt::Rep1 { .. })) => {}
        x => return found("setup: raw handshake", format!("no reply 1: {x:?}")),
    }
    raw.send(server, &wire::req2(&server, mtu, guid));
    match raw.recv_pkt(2 * SEC) {
        Some(Ok(Pkt::Rep2 { .. })) => Ok(()),
        x => found("setup: raw handshake", format!("no reply 2: {x:?}")),
    }
}
/// A raw client, connected to a listener of the library.
pub fn raw_client(addr: SocketAddr, server: SocketAddr, mtu: u16) -> Rz<RawConn> {
    let m = simrt::exploring();
    simrt::explore(0);
    let raw = Raw::new(addr);
    raw_offline(&raw, server, 10, mtu, 77)?;
    let c = RawConn::new(raw, server, mtu);
    c.msg(Rel::RO, &wire::m_conn_request(77, 1234));
    let accepted = || c.messages().iter().any(|m| m.first() == Some(&0x10));
    if !c.pump_until(2 * SEC, accepted) {
        return found("setup: raw handshake", "no connection-request-accepted");
    }
    c.msg(Rel::RO, &wire::m_new_incoming(&server, 10, &sa("0.0.0.0:0"), 1, 2));
    c.pump(200 * MS);
    simrt::explore(m);
    Ok(c)
}
/// A client of the library, connected to a raw server.
pub fn raw_server(addr: SocketAddr, mtu: u16) -> Rz<(RawConn, Rc<RaknetSocket>)> {
    let m = simrt::exploring();
    simrt::explore(0);
    let raw = Raw::new(addr);
    let addr = raw.addr;
    let j = connect_to(addr, None);
    let client;
    match raw.recv(2 * SEC) {
        Some((b, from)) if matches!(wire::decode(&b), Ok(Pkt::Req1 { .. })) => client = from,
        x => return found("setup: raw server", format!("no request 1: {x:?}")),
    }
    raw.send(client, &wire::rep1(99, mtu));
    match raw.recv_pkt(2 * SEC) {
        Some(Ok(Pkt::Req2 { .. })) => {}
        x => return found("setup: raw server", format!("no request 2: {x:?}")),
    }
    raw.send(client, &wire::rep2(99, &client, mtu));
    let c = RawConn::new(raw, client, mtu);
    if !c.pump_until(2 * SEC, || c.messages().iter().any(|m| m.first() == Some(&9))) {
        return found("setup: raw server", "no connection request");
    }
    c.msg(Rel::RO, &wire::m_accepted(&client, 10, &sa("255.255.255.255:19132"), 5, 6));
    let mut s = None;
    c.pump_until(3 * SEC, || {
        if let Some(x) = j.take() {
            s = Some(x);
        }
        s.is_some()
    });
    let s = match s {
        Some(Ok(s)) => s,
        Some(Err(e)) => return found("setup: raw server", format!("connect failed: {e}")),
        None => return found("setup: raw server", "connect did not return after the acceptance"),
    };
    c.pump(200 * MS);
    simrt::explore(m);
    Ok((c, s))
}

// ------------------------------------------------------------------------------------------------
// reading the wire log

/// Everything put on the wire from `a` to `b`.
pub fn sent<'a>(tap: &'a [Tap], a: SocketAddr, b: SocketAddr) -> impl Iterator<Item = &'a Tap> {
    tap.iter().filter(move |t| t.src == a && t.dst == b)
}
pub fn tap() -> Vec<Tap> {
    simrt::tap_from(0)
}
pub fn frames_of(b: &[u8]) -> Option<(u32, Vec<Frame>)> {
    match wire::decode(b) {
        Ok(Pkt::Frames { num, frames, .. }) => Some((num, frames)),
        _ => None,
    }
}
pub fn is_app(m: &[u8]) -> bool {
    matches!(wire::decode_msg(m), Ok(Msg::App))
}

/// Data datagrams put on the wire from `a` to `b`: (time, number, frames).
pub fn data_tx(tap: &[Tap], a: SocketAddr, b: SocketAddr) -> Vec<(u64, u32, Vec<Frame>)> {
    sent(tap, a, b).filter_map(|t| frames_of(&t.data).map(|(n, f)| (t.t, n, f))).collect()
}
/// Data datagrams that arrived at `b` from `a`: (time, number, frames).
pub fn data_rx(del: &[simrt::Delivery], a: SocketAddr, b: SocketAddr) -> Vec<(u64, u32, Vec<Frame>)> {
    del.iter().filter(|d| d.src == a && d.dst == b).filter_map(|d| frames_of(&d.data).map(|(n, f)| (d.t, n, f))).collect()
}
pub type Ranges = Vec<(u32, u32)>;
pub fn acks_rx(del: &[simrt::Delivery], a: SocketAddr, b: SocketAddr) -> Vec<(u64, Ranges)> {
    del.iter()
        .filter(|d| d.src == a && d.dst == b)
        .filter_map(|d| match wire::decode(&d.data) {
            Ok(Pkt::Ack(r)) => Some((d.t, r)),
            _ => None,
        })
        .collect()
}
pub fn acks_tx(tap: &[Tap], a: SocketAddr, b: SocketAddr) -> Vec<(u64, Ranges)> {
    sent(tap, a, b)
        .filter_map(|d| match wire::decode(&d.data) {
            Ok(Pkt::Ack(r)) => Some((d.t, r)),
            _ => None,
        })
        .collect()
}
pub fn nacks_tx(tap: &[Tap], a: SocketAddr, b: SocketAddr) -> Vec<(u64, Ranges)> {
    sent(tap, a, b)
        .filter_map(|d| match wire::decode(&d.data) {
            Ok(Pkt::Nack(r)) => Some((d.t, r)),
            _ => None,
        })
        .collect()
}
pub fn nacks_rx(del: &[simrt::Delivery], a: SocketAddr, b: SocketAddr) -> Vec<(u64, Ranges)> {
    del.iter()
        .filter(|d| d.src == a && d.dst == b)
        .filter_map(|d| match wire::decode(&d.data) {
            Ok(Pkt::Nack(r)) => Some((d.t, r)),
            _ => None,
        })
        .collect()
}
pub fn covers(r: &Ranges, n: u32) -> bool {
    r.iter().any(|(a, b)| *a <= n && n <= *b)
}
/// Wait (running the world) for a job; a hang or panic is a violation.
pub fn must<T: 'static>(j: &Job<T>, limit: u64, sig: &str) -> Rz<T> {
    match j.wait(limit) {
        Some(v) => Ok(v),
        None if j.dead() => found(format!("{sig}-panic"), format!("{} panicked: {:?}", j.name, simrt::panics().last().map(|p| p.msg.clone()))),
        None => found(format!("{sig}-hang"), format!("{} did not return within {} ms", j.name, limit / MS)),
    }
}

/// Both ends of every new connection begin with numbers and indexes that are that far from the
/// end of their 24 bits (number, reliable, sequenced, ordered) and 16 bits (split messages).
pub fn begin_before_the_end(left: [u32; 4], compound: u16) {
    begin_at(left.map(|l| wire::NUMBERS - l), 0u16.wrapping_sub(compound));
}
/// They begin there.
pub fn begin_at(at: [u32; 4], compound: u16) {
    let at = at.map(|a| a % wire::NUMBERS);
    wire::set_base(at);
    rust_raknet::mc::set_start(rust_raknet::mc::Start { number: at[0], reliable: at[1], sequenced: at[2], ordered: at[3], compound });
}
