//! C16: connections are isolated from each other and from strangers.

use super::*;
use crate::hostile::{self, Item};
use crate::traffic::{self, *};
use std::net::SocketAddr;
use std::sync::Arc;

/// a message on a perfect network, one way
const SOON: u64 = 160 * MS;

struct End {
    c: RawConn,
    s: Option<Rc<RaknetSocket>>,
    log: Option<Log>,
    job: Option<Job<()>>,
    sent: Vec<Vec<u8>>,
    back: Vec<Vec<u8>>,
}
/// a raw client with an accepted socket that is read, unless `read` is false
fn end(l: &mut RaknetListener, addr: &str, read: bool) -> Rz<End> {
    let c = raw_client(sa(addr), server_addr(), 1400)?;
    let s = match accept(l, SEC) {
        Ok(Ok(s)) => s,
        _ => bail!("setup: accept", "not accepted"),
    };
    let (log, job) = if read {
        let (a, b) = reader(&s);
        (Some(a), Some(b))
    } else {
        (None, None)
    };
    Ok(End { c, s: Some(s), log, job, sent: vec![], back: vec![] })
}
impl End {
    /// one message each way, and nothing but these is ever returned
    fn talk(&mut self, tag: u32, n: usize, what: &str) -> Rz<()> {
        let (x, y) = (payload(tag, n), payload(tag + 1, n));
        self.c.msg(RO, &x);
        self.sent.push(x);
        let s = self.s.as_ref().unwrap();
        match block(SOON, s.send(&y, rel(RO))) {
            Ok(Ok(())) => self.back.push(y),
            x => bail!("neighbour-send", "after {what}: send on another connection: {:?}", x.map_err(|e| e.text())),
        }
        let log = self.log.as_ref().unwrap();
        self.c.pump_until(SOON, || log.len() >= self.sent.len() && self.c.app_messages().len() >= self.back.len());
        self.exact(what)
    }
    fn exact(&self, what: &str) -> Rz<()> {
        let log = self.log.as_ref().unwrap();
        check!(log.msgs() == self.sent, "neighbour-data", "after {what}: another client's connection returned {} of {} ({:?})", shows(&log.msgs()), shows(&self.sent), log.end());
        check!(self.c.app_messages() == self.back, "neighbour-data", "after {what}: another client received {} of {}", shows(&self.c.app_messages()), shows(&self.back));
        check!(log.end().is_none(), "neighbour-closed", "after {what}: another client's recv returned {:?}", log.end());
        no_panic("neighbour")
    }
}

const ACTS: [&str; 21] = [
    "nothing", "a message", "a disconnect datagram", "a disconnect message", "close of its socket", "drop of its socket", "handshake again", "200 messages, unread", "300 datagrams of garbage", "an empty datagram", "a huge NACK",
    "an unfinished split message", "a cut frame", "an ACK of everything", "silence for 10 s", "handshake again with another identity", "40 MTU-sized messages to it, never acknowledged", "request 2 with another MTU", "a ping", "a disconnect and an empty datagram",
    "200 disconnect datagrams",
];
fn act(k: usize, a: &mut End, tag: u32) {
    match k {
        1 => {
            let m = payload(tag, 30);
            a.c.msg(RO, &m);
            a.sent.push(m);
        }
        2 => a.c.bytes(&[0x15]),
        3 => {
            a.c.msg(RO, &[0x15]);
        }
        4 => {
            if let Some(s) = a.s.clone() {
                go("close", async move { s.close().await });
            }
        }
        5 => {
            if let Some(j) = a.job.take() {
                j.abort();
            }
            a.s = None;
        }
        6 | 15 => {
            a.c.bytes(&wire::req1(10, 1371));
            a.c.bytes(&wire::req2(&server_addr(), 1400, if k == 6 { 77 } else { 78 }));
            a.c.num.set(0);
            a.c.ridx.set(0);
            a.c.oidx.set(0);
            a.c.msg(RO, &wire::m_conn_request(77, 1234));
        }
        7 => {
            for i in 0..200 {
                let m = payload(tag + 1000 + i, 20);
                a.c.msg(RO, &m);
            }
        }
        8 => {
            for i in 0..300u32 {
                a.c.bytes(&payload(tag + i, 1 + i as usize)[1..]);
            }
        }
        9 => a.c.bytes(&[]),
        10 => a.c.bytes(&wire::nack(&[(0, 0xffffff); 100])),
        11 => {
            for f in a.c.fragments(9, &[&[1; 1000], &[2; 1000]]).into_iter().take(1) {
                a.c.bytes(&a.c.datagram(&[f]));
            }
        }
        12 => {
            let d = a.c.datagram(&[Frame::new(RO, &[0xfe, 1, 2, 3]).r(5).o(5)]);
            a.c.bytes(&d[..d.len() - 2]);
        }
        13 => a.c.bytes(&wire::ack(&[(0, 0xffffff)])),
        14 => {
            simrt::run_for(10 * SEC);
        }
        16 => {
            if let Some(s) = a.s.clone() {
                go("send", async move {
                    for i in 0..40 {
                        if s.send(&payload(tag + i, 1300), rel(RO)).await.is_err() {
                            break;
                        }
                    }
                });
            }
        }
        17 => a.c.bytes(&wire::req2(&server_addr(), 600, 77)),
        18 => a.c.bytes(&wire::ping(1, 4, 4)),
        19 => {
            a.c.bytes(&[0x15]);
            a.c.bytes(&[]);
        }
        20 => {
            for _ in 0..200 {
                a.c.bytes(&[0x15]);
            }
        }
        _ => {}
    }
}

/// every history of what one client does, and another client's traffic in between
fn neighbours(name: &str, depth: usize, modes: bool, kinds: &'static [Kind], total: u32) -> Space {
    Space::new(
        name,
        format!("every sequence of {depth} actions of one raw client out of {} ({}), its socket being read, or not, or its connection not accepted; after each action another client, whose datagram may be an empty one first, sends and receives", ACTS.len(), ACTS.join(", ")),
        move || {
            let mut l = listen_at(server_addr())?;
            let read = if modes { pick(3) } else { 0 };
            let mut b = end(&mut l, "127.0.0.1:50002", true)?;
            let mut a = if read == 2 {
                let c = raw_client(sa("127.0.0.1:50001"), server_addr(), 1400)?;
                End { c, s: None, log: None, job: None, sent: vec![], back: vec![] }
            } else {
                end(&mut l, "127.0.0.1:50001", read == 0)?
            };
            let empty = modes && pick(2) == 1;
            let mut h = vec![];
            let mut accepted: Vec<Rc<RaknetSocket>> = vec![];
            for d in 0..depth {
                let k = pick(ACTS.len());
                h.push(ACTS[k]);
                simrt::explore(kinds.iter().fold(Kind::App.bit(), |m, k| m | k.bit()));
                act(k, &mut a, 2000 + 3000 * d as u32);
                if empty {
                    // neither end may take this for anything another client sent
                    b.c.pump(6 * MS);
                    b.c.bytes(&[]);
                }
                b.talk(100 + 10 * d as u32, 40, &h.join(", "))?;
                simrt::explore(Kind::App.bit());
                b.c.pump(20 * MS);
                // a connection that the first client made again
                if let Ok(Ok(s)) = accept(&mut l, MS) {
                    check!(s.peer_addr().unwrap() == a.c.raw.addr, "neighbour-accept", "after {}: accepted {:?}", h.join(", "), s.peer_addr());
                    accepted.push(s);
                }
            }
            let what = h.join(", ");
            b.talk(300, 5000, &what).or_else(|_| {
                // the raw client's message does not fit one datagram; nothing depends on it
                Ok(())
            })?;
            b.c.pump(400 * MS);
            check!(b.log.as_ref().unwrap().end().is_none(), "neighbour-closed", "after {what}: another client's connection was closed");
            b.c.auto_ack.set(true);
            no_panic("neighbour")?;
            ok(format!("{} {read}", what))
        },
    )
    .kinds(kinds)
    .total(total)
}

/// what a stranger may send: the catalogue, and the most convincing forgeries
fn forgeries(c: &RawConn) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let n = c.num.get();
    let msg = [0xfe, 0xbb, 0xbb];
    for (k, num) in [("next", n), ("earlier", n.saturating_sub(1)), ("far", n + 500)] {
        for r in Rel::ALL {
            v.push((format!("{r:?} message, {k} number"), wire::frames(num, &[Frame::new(r, &msg).r(c.ridx.get()).o(c.oidx.get()).s(c.sidx.get())])));
        }
        v.push((format!("disconnect message, {k} number"), wire::frames(num, &[Frame::new(RO, &[0x15]).r(c.ridx.get()).o(c.oidx.get())])));
        v.push((format!("disconnect message unreliable, {k} number"), wire::frames(num, &[Frame::new(U, &[0x15])])));
        v.push((format!("fragment, {k} number"), wire::frames(num, &[Frame::new(RO, &msg).r(c.ridx.get()).o(c.oidx.get()).split(2, 0, 0)])));
    }
    v.push(("disconnect".into(), vec![0x15]));
    v.push(("empty".into(), vec![]));
    v.push(("ACK of everything".into(), wire::ack(&[(0, 5000)])));
    v.push(("ACK of each".into(), wire::ack(&(0..50).map(|i| (i, i)).collect::<Vec<_>>())));
    v.push(("NACK of everything".into(), wire::nack(&[(0, 5000)])));
    v.push(("ping on a connection".into(), wire::frames(n, &[Frame::new(U, &wire::m_ping(4))])));
    v.push(("request on a connection".into(), wire::frames(n, &[Frame::new(RO, &wire::m_conn_request(4, 4)).r(c.ridx.get()).o(c.oidx.get())])));
    v.push(("acceptance".into(), wire::frames(n, &[Frame::new(RO, &wire::m_accepted(&server_addr(), 10, &server_addr(), 5, 6)).r(c.ridx.get()).o(c.oidx.get())])));
    v.push(("request 1".into(), wire::req1(10, 1371)));
    v.push(("request 1, other version".into(), wire::req1(3, 1371)));
    v.push(("incompatible".into(), wire::incompatible(3, 4)));
    v.push(("already connected".into(), wire::already(4)));
    v.push(("reply 1".into(), wire::rep1(4, 600)));
    v.push(("reply 2".into(), wire::rep2(4, &server_addr(), 600)));
    v
}
/// stranger's address: same host, same port, or neither
fn stranger(peer: SocketAddr, k: usize) -> SocketAddr {
    match k {
        0 => SocketAddr::new(peer.ip(), peer.port() + 1),
        1 => SocketAddr::new(sa("127.0.0.9:1").ip(), peer.port()),
        _ => sa("10.7.0.3:40000"),
    }
}

fn injected(name: &str, side: usize, n: usize, level: u32, step: usize) -> Space {
    let who = ["server", "client"][side];
    let cat: Arc<Vec<Item>> = Arc::new(hostile::catalogue(level).into_iter().step_by(step).collect());
    Space::new(
        name,
        format!("{n} datagrams out of 36 forgeries and {} malformed or hostile ones, from an address that shares the host, the port, or neither with the peer, injected into a {who}'s connection while data is unacknowledged and while nothing is; nothing may change on that connection", cat.len()),
        move || {
            let (c, s, _l) = either_side(side)?;
            let from = stranger(c.raw.addr, pick(3));
            let x = RawConn::new(Raw::new(from), if side == 0 { server_addr() } else { c.peer }, 1400);
            let (log, _j) = reader(&s);
            let first = payload(1, 30);
            c.msg(RO, &first);
            c.pump(100 * MS);
            let busy = pick(2) == 1;
            // the stranger knows everything about the connection
            x.num.set(c.num.get());
            x.ridx.set(c.ridx.get());
            x.oidx.set(c.oidx.get());
            let (y, z) = (payload(2, 50), payload(3, 3000));
            if busy {
                c.auto_ack.set(false);
                must_send(&s, &y, RO)?;
                must_send(&s, &z, RO)?;
            }
            c.pump(8 * MS);
            let (t0, got0) = (tap().len(), c.got.borrow().len());
            let fs = forgeries(&c);
            let mut h = vec![];
            for _ in 0..n {
                let k = pick(fs.len() + cat.len());
                if k < fs.len() {
                    h.push(fs[k].0.clone());
                    x.bytes(&fs[k].1);
                } else {
                    h.push(cat[k - fs.len()].name.clone());
                    x.bytes(&(cat[k - fs.len()].make)(&x));
                }
            }
            let what = format!("{} from {from}", h.join(", then "));
            c.pump(6 * MS);
            no_panic("stranger")?;
            if busy {
                check!(!matches!(block(40 * MS, s.flush()), Ok(Ok(()))), "stranger-flush", "after {what}: flush returned Ok though the peer acknowledged nothing");
                // what is unacknowledged is sent again
                c.pump(700 * MS);
                let again = data_tx(&tap()[t0..], c.peer, c.raw.addr).iter().flat_map(|d| d.2.clone()).any(|f| f.data == y);
                check!(again, "stranger-ack", "after {what}: an unacknowledged message was not sent again");
                c.auto_ack.set(true);
            } else {
                // nothing is said to the peer because of it
                c.pump(300 * MS);
                let new: Vec<_> = c.got.borrow()[got0..].iter().map(|d| wire::decode(&d.1)).collect();
                check!(new.is_empty(), "stranger-echo", "after {what}: the peer was sent {new:?}");
                must_send(&s, &y, RO)?;
                must_send(&s, &z, RO)?;
            }
            check!(log.msgs() == [first.clone()], "stranger-data", "after {what}: recv returned {}", shows(&log.msgs()));
            let last = payload(4, 60);
            c.msg(RO, &last);
            c.pump_until(3 * SEC, || log.len() == 2 && c.app_messages().len() == 2 );
            check!(log.msgs() == [first.clone(), last.clone()], "stranger-data", "after {what}: recv returned {}, ended {:?}", shows(&log.msgs()), log.end());
            check!(c.app_messages() == [y.clone(), z.clone()], "stranger-data", "after {what}: the peer received {}", shows(&c.app_messages()));
            check!(log.end().is_none(), "stranger-closes", "after {what}: recv returned {:?}", log.end());
            check!(c.got.borrow().iter().all(|(_, d)| d.len() <= 1372 + 28), "stranger-mtu", "after {what}: larger datagrams");
            no_panic("stranger")?;
            ok(h.join(","))
        },
    )
}

/// a client that is connecting while strangers talk to it
fn connecting(name: &str, n: usize) -> Space {
    let cat: Arc<Vec<Item>> = Arc::new(hostile::catalogue(0).into_iter().step_by(4).collect());
    Space::new(
        name,
        format!("connect to a listener while a stranger (sharing the host, the port, or neither) sends {n} datagrams out of 36 forgeries and {} hostile ones, at each stage of the handshake", cat.len()),
        move || {
            let mut l = listen_at(server_addr())?;
            simrt::set_latency(20 * MS);
            let from = stranger(server_addr(), pick(3));
            let x = RawConn::new(Raw::new(from), server_addr(), 1400);
            let t0 = simrt::now();
            let j = connect_to(server_addr(), None);
            // the client's address, seen on the wire
            simrt::run_until(t0 + SEC, || !tap().is_empty());
            let caddr = tap()[0].src;
            let at = pick(8);
            simrt::run_for(at as u64 * 20 * MS + 3 * MS);
            let x = RawConn { peer: caddr, ..x };
            x.num.set(at as u32 / 6);
            let fs = forgeries(&x);
            let mut h = vec![];
            for _ in 0..n {
                let k = pick(fs.len() + cat.len());
                if k < fs.len() {
                    h.push(fs[k].0.clone());
                    x.bytes(&fs[k].1);
                } else {
                    h.push(cat[k - fs.len()].name.clone());
                    x.bytes(&(cat[k - fs.len()].make)(&x));
                }
            }
            let what = format!("{} from {from} at stage {at}", h.join(", then "));
            let c = match j.wait(20 * SEC) {
                Some(Ok(c)) => c,
                Some(Err(e)) => bail!("stranger-connect", "{what}: connect failed: {e}"),
                None => bail!("stranger-connect", "{what}: connect did not return"),
            };
            check!(c.peer_addr().unwrap() == server_addr(), "stranger-connect", "{what}: connected to {:?}", c.peer_addr());
            let s = match accept(&mut l, SEC) {
                Ok(Ok(s)) => s,
                _ => bail!("stranger-connect", "{what}: not accepted"),
            };
            let (lc, _a) = reader(&c);
            let (ls, _b) = reader(&s);
            let (p, q) = (payload(1, 3000), payload(2, 100));
            must_send(&c, &p, RO)?;
            must_send(&s, &q, RO)?;
            let d = simrt::now() + 3 * SEC;
            simrt::run_until(d, || lc.len() > 0 && ls.len() > 0);
            check!(lc.msgs() == [q.clone()] && ls.msgs() == [p.clone()], "stranger-connect", "{what}: the connection returned {} and {}", shows(&lc.msgs()), shows(&ls.msgs()));
            check!(!simrt::tap_from(0).iter().any(|t| t.src == caddr && t.dst == x.raw.addr), "stranger-answered", "{what}: the client sent the stranger {:?}", simrt::tap_from(0).iter().filter(|t| t.dst == x.raw.addr).map(|t| wire::decode(&t.data)).collect::<Vec<_>>());
            // the mtu agreed with the server, not with the stranger
            let big = data_tx(&tap(), caddr, server_addr()).iter().map(|d| wire::frames(d.1, &d.2).len()).max().unwrap_or(0);
            check!(big > 1000, "stranger-mtu", "{what}: data was sent in datagrams of at most {big} bytes");
            no_panic("stranger")?;
            ok(h.join(","))
        },
    )
}

/// two library clients of one listener, faults or schedules explored
fn two_clients(name: &str, kinds: &'static [Kind], total: u32, fates: fn() -> Vec<Fate>) -> Space {
    Space::new(name, format!("two clients of one listener exchange messages of every reliability with it while the first one, or its server end, closes, is dropped, or goes on; up to {total} deviations"), move || {
        let p1 = pair()?;
        let mut l = p1.listener;
        let (c2, s2) = join(&mut l, server_addr())?;
        let (c1, s1) = (p1.client, p1.server);
        simrt::run_for(200 * MS);
        let socks = [&c1, &s1, &c2, &s2];
        let logs: Vec<(Log, Job<()>)> = socks.iter().map(|s| reader(s)).collect();
        let msgs: Vec<Vec<Vec<u8>>> = (0..4u32).map(|i| (0..3u32).map(|k| payload(100 * i + k, [30, 2000, 60][k as usize])).collect()).collect();
        let end = pick(4);
        simrt::explore(kinds.iter().fold(Kind::App.bit(), |m, k| m | k.bit()));
        let jobs: Vec<_> = (0..4)
            .map(|i| {
                let s = socks[i].clone();
                let ms = msgs[i].clone();
                go("sender", async move {
                    for m in ms {
                        if s.send(&m, rel(RO)).await.is_err() {
                            return false;
                        }
                    }
                    true
                })
            })
            .collect();
        match end {
            1 | 2 => {
                let s = socks[end - 1].clone();
                go("close", async move { s.close().await });
            }
            _ => {}
        }
        simrt::run_for(if end == 3 { 2 * MS } else { 130 * MS });
        if end == 3 {
            // the datagram form of a disconnect, as if from the first client
            simrt::inject(c1.local_addr().map(|a| SocketAddr::new(server_addr().ip(), a.port())).unwrap(), server_addr(), &[0x15], 5 * MS);
            simrt::run_for(130 * MS);
        }
        simrt::explore(Kind::App.bit());
        let d = simrt::now() + 30 * SEC;
        simrt::run_until(d, || logs[2].0.len() == 3 && logs[3].0.len() == 3 && (end != 0 || logs[0].0.len() == 3 && logs[1].0.len() == 3));
        no_panic("two")?;
        // each end returns what its own peer sent and nothing else
        for (i, from) in [(0usize, 1usize), (1, 0), (2, 3), (3, 2)] {
            let got = logs[i].0.msgs();
            check!(got.iter().zip(&msgs[from]).all(|(a, b)| a == b) && got.len() <= 3, "two-mixed", "socket {i} returned {} of {}", shows(&got), shows(&msgs[from]));
            if i >= 2 || end == 0 {
                check!(got.len() == 3 && logs[i].0.end().is_none(), "two-lost", "socket {i} returned {} messages, ended {:?} (the first client: {end})", got.len(), logs[i].0.end());
                check!(jobs[i].take() == Some(true), "two-send", "socket {i}: send failed");
            }
        }
        ok(format!("{end}"))
    })
    .kinds(kinds)
    .total(total)
    .cfg(move |c| c.fates = fates())
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        neighbours("neighbours", if q { 2 } else { 3 }, true, &[], 0),
        neighbours("neighbours/sched", 1, true, &[Kind::Sched, Kind::Select], 1),
        injected("injected/server", 0, 1, if q { 0 } else { 1 }, 1),
        injected("injected/client", 1, 1, if q { 0 } else { 1 }, 1),
        injected("injected/server-pairs", 0, 2, 0, if q { 40 } else { 8 }),
        injected("injected/client-pairs", 1, 2, 0, if q { 40 } else { 8 }),
        connecting("connecting", 1),
        two_clients("two/faults", &[Kind::Fate], if q { 2 } else { 3 }, traffic::FATES_3),
        two_clients("two/schedules", &[Kind::Sched, Kind::Yield, Kind::Select], if q { 1 } else { 2 }, FATES_3),
    ];
    v.push(two_clients("two/send-errors", &[Kind::Env], if q { 2 } else { 3 }, FATES_3));
    if !q {
        v.push(neighbours("neighbours/sched2", 1, false, &[Kind::Sched, Kind::Select], 2));
        v.push(connecting("connecting/pairs", 2));
    }
    let v = with_std(v, &["two/faults"]);
    let v = with_stalls(v, &["two/faults"], 1, STALLS);
    let v = with_pauses(v, &["two/faults"], 2, &[60, 400, 3000]);
    v
}
