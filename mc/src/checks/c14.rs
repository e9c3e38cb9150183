//! C14: no datagram from any stranger can take a server down.

use super::c15::Probe;
use super::*;
use crate::hostile::{self, Item};
use std::cell::RefCell;
use std::net::SocketAddr;
use std::sync::Arc;

struct World {
    motd: String,
    accepted: Rc<RefCell<Vec<Rc<RaknetSocket>>>>,
    acceptor: Job<()>,
    a: RawConn,
    sa: Rc<RaknetSocket>,
    probe: Probe,
}
/// a listener that accepts everything, and one established connection
fn world() -> Rz<World> {
    let mut l = listen_at(server_addr())?;
    let motd = block(SEC, l.get_motd()).unwrap_or_default();
    let a = raw_client(sa("127.0.0.1:50001"), server_addr(), 1400)?;
    let s = match accept(&mut l, SEC) {
        Ok(Ok(s)) => s,
        _ => bail!("setup: accept", "not accepted"),
    };
    let accepted: Rc<RefCell<Vec<Rc<RaknetSocket>>>> = Default::default();
    let acc = accepted.clone();
    let acceptor = go("acceptor", async move {
        while let Ok(s) = l.accept().await {
            acc.borrow_mut().push(Rc::new(s));
        }
    });
    let probe = Probe::new(&s);
    Ok(World { motd, accepted, acceptor, a, sa: s, probe })
}
impl World {
    fn peers(&self) -> Vec<SocketAddr> {
        self.accepted.borrow().iter().filter_map(|s| s.peer_addr().ok()).collect()
    }
    /// the server still does everything it should
    fn alive(&mut self, what: &str) -> Rz<()> {
        no_panic("stranger-panic")?;
        // pings
        let p = Raw::new(sa("127.0.0.1:49000"));
        for k in [1, 2] {
            p.send(server_addr(), &wire::ping(k, 99, 5));
            match p.recv_pkt(100 * MS) {
                Some(Ok(Pkt::Pong { time: 99, motd, .. })) if motd == self.motd.as_bytes() => {}
                x => bail!("stranger-ping", "after {what}: a ping was answered with {x:?}"),
            }
        }
        // the established connection
        self.probe.send(&self.a, &self.sa)?;
        self.probe.settle(&self.a, what)?;
        // a new client
        let before = self.accepted.borrow().len();
        let n = connect_to(server_addr(), None);
        let c = match n.wait(5 * SEC) {
            Some(Ok(c)) => c,
            x => bail!("stranger-connect", "after {what}: a new client's connect: {:?}", x.map(|r| r.map(|_| ()))),
        };
        simrt::run_for(50 * MS);
        let new: Vec<_> = self.accepted.borrow()[before..].to_vec();
        check!(new.len() == 1, "stranger-accept", "after {what}: a new client was accepted {} times", new.len());
        let want = c.local_addr().unwrap();
        check!(new[0].peer_addr().unwrap().port() == want.port(), "stranger-accept", "after {what}: accepted {:?} for {want:?}", new[0].peer_addr());
        let (lc, _j1) = reader(&c);
        let (ls, _j2) = reader(&new[0]);
        let (x, y) = (payload(7, 900), payload(8, 2000));
        must_send(&c, &x, RO)?;
        must_send(&new[0], &y, RO)?;
        let d = simrt::now() + 3 * SEC;
        simrt::run_until(d, || lc.len() == 1 && ls.len() == 1);
        check!(lc.msgs() == [y] && ls.msgs() == [x], "stranger-data", "after {what}: the new connection returned {} and {}", shows(&lc.msgs()), shows(&ls.msgs()));
        check!(!self.acceptor.done() && !self.acceptor.dead(), "stranger-accept", "after {what}: accept failed");
        no_panic("stranger-panic")
    }
}
/// may the server take this for a request to connect?
fn opens(d: &[u8]) -> Option<bool> {
    match wire::decode(d) {
        Ok(Pkt::Req2 { mtu, .. }) if mtu >= 400 => Some(true),
        // too small to be used; whether it is refused is not at issue here
        Ok(Pkt::Req2 { .. }) => None,
        _ => {
            // well-formed but for the fields of an IPv6 address nobody reads
            if d.len() == 56 && d[17] == 6 {
                let mut n = d.to_vec();
                n[18..20].copy_from_slice(&[23, 0]);
                n[22..26].fill(0);
                n[42..46].fill(0);
                if matches!(wire::decode(&n), Ok(Pkt::Req2 { .. })) {
                    return None;
                }
            }
            // well-formed, with more bytes after it
            for n in [34, 56, 58] {
                if d.len() > n && matches!(wire::decode(&d[..n]), Ok(Pkt::Req2 { .. })) {
                    return None;
                }
            }
            Some(false)
        }
    }
}

fn strange(name: &str, level: u32, step: usize, n: usize, stages: &'static [usize]) -> Space {
    let cat: Arc<Vec<Item>> = Arc::new(hostile::catalogue(level).into_iter().step_by(step).collect());
    Space::new(
        name,
        format!("{n} of {} malformed, hostile or out-of-order datagrams in every combination from a stranger that has sent nothing yet, a first request, or both (0, 1, 2: {stages:?}); then pings, the established connection's traffic, and a new client", cat.len()),
        move || {
            let mut w = world()?;
            let stage = stages[pick(stages.len())];
            let x = RawConn::new(Raw::new(sa("127.0.0.1:50007")), server_addr(), 1400);
            if stage >= 1 {
                x.bytes(&wire::req1(10, 1371));
            }
            if stage >= 2 {
                x.bytes(&wire::req2(&server_addr(), 1400, 31));
            }
            x.pump(20 * MS);
            let mut names = vec![];
            let mut opened = stage == 2;
            let mut sure = true;
            for _ in 0..n {
                let it = &cat[pick(cat.len())];
                names.push(it.name.clone());
                let d = (it.make)(&x);
                match opens(&d) {
                    Some(o) => opened |= o,
                    None => sure = false,
                }
                x.bytes(&d);
            }
            x.pump(20 * MS);
            let what = format!("{} from a stranger at stage {stage}", names.join(", then "));
            w.alive(&what)?;
            let from_x = w.peers().iter().filter(|a| **a == x.raw.addr).count();
            if opened || sure {
                check!(from_x == opened as usize, "stranger-connection", "{what}: accepted {from_x} connections from it, it asked for {}", opened as usize);
            }
            check!(w.peers().len() == 1 + from_x, "stranger-connection", "{what}: accepted connections from {:?}", w.peers());
            ok(format!("{stage} {from_x} {}", names[0]))
        },
    )
}
/// many different strangers at once
fn crowd(name: &str, sizes: &'static [usize]) -> Space {
    let cat = Arc::new(hostile::catalogue(0));
    Space::new(name, format!("{sizes:?} strangers, each sending another item of the catalogue at the same time, starting anywhere in it; some with a session"), move || {
        let mut w = world()?;
        let n = sizes[pick(sizes.len())];
        let at = pick(cat.len() / 8) * 8;
        let sess = pick(2);
        let xs: Vec<_> = (0..n).map(|i| RawConn::new(Raw::new(sa(&format!("127.0.0.1:{}", 51000 + i))), server_addr(), 1400)).collect();
        for x in xs.iter().filter(|_| sess == 1) {
            x.bytes(&wire::req1(10, 1371));
            x.bytes(&wire::req2(&server_addr(), 1400, 31));
        }
        simrt::run_for(20 * MS);
        for (i, x) in xs.iter().enumerate() {
            x.bytes(&(cat[(at + i) % cat.len()].make)(x));
        }
        simrt::run_for(20 * MS);
        w.alive(&format!("{n} strangers' {}..", cat[at].name))?;
        ok(format!("{at} {n} {sess}"))
    })
}
/// every sequence of offline steps, in any order
fn orders(name: &str, depth: usize) -> Space {
    Space::new(name, format!("every sequence of {depth} datagrams out of ping, request 1 (supported, unsupported version), request 2 (two identities), a data datagram, a disconnect, an empty datagram, an ACK, from two strangers' addresses"), move || {
        let mut w = world()?;
        let xs = [50007, 50008].map(|p| RawConn::new(Raw::new(sa(&format!("127.0.0.1:{p}"))), server_addr(), 1400));
        let mut h = vec![];
        // what each address has asked for
        let mut open = [None, None];
        let mut count = 0;
        for _ in 0..depth {
            let who = pick(2);
            let x = &xs[who];
            let k = pick(9);
            match k {
                0 => x.bytes(&wire::ping(1, 5, 5)),
                1 => x.bytes(&wire::req1(10, 1371)),
                2 => x.bytes(&wire::req1(77, 1371)),
                3 | 4 => {
                    x.bytes(&wire::req2(&server_addr(), 1400, k as u64));
                    if open[who].is_none() {
                        open[who] = Some(k);
                        count += 1;
                    }
                }
                5 => {
                    x.msg(RO, &wire::m_ping(3));
                }
                6 => {
                    x.bytes(&[0x15]);
                    open[who] = None;
                }
                7 => x.bytes(&[]),
                _ => x.bytes(&wire::ack(&[(0, 0)])),
            }
            h.push(format!("{who}:{k}"));
            simrt::run_for(7 * MS);
        }
        let what = h.join(" ");
        w.alive(&what)?;
        // an address whose disconnect is still being carried out may be refused for a moment; so at most, and at least one per address that asked
        let got = w.peers().len() - 1;
        check!(got <= count, "stranger-connection", "{what}: {got} connections accepted, at most {count} asked for");
        ok(what)
    })
}

/// the server cannot send all its answers
fn unanswered(name: &str, n: usize, total: u32) -> Space {
    Space::new(name, format!("strangers send every sequence of {n} well-formed datagrams (pings, requests 1 with and without a known version, request 2, a datagram of a connection that is not there); up to {total} of the server's answers cannot be sent"), move || {
        let mut w = world()?;
        simrt::set_fate_filter(Some(std::sync::Arc::new(move |s, d, _b| *s == server_addr() && d.port() != 50001)));
        simrt::explore(Kind::Env.bit() | Kind::App.bit());
        let x = [Raw::new(sa("127.0.0.1:51000")), Raw::new(sa("127.0.0.1:51001"))];
        let mut seq = vec![];
        for _ in 0..n {
            let k = pick(7);
            let who = &x[if k == 0 { 0 } else { pick(2) }];
            seq.push(k);
            let d = match k {
                0 => wire::ping(1, 5, 6),
                1 => wire::ping(2, 5, 6),
                2 => wire::req1(10, 1371),
                3 => wire::req1(99, 1371),
                4 => wire::req2(&server_addr(), 1400, 7),
                5 => wire::frames(0, &[Frame::new(RO, &payload(1, 8))]),
                _ => wire::req1(11, 400),
            };
            who.send(server_addr(), &d);
            simrt::run_for(7 * MS);
        }
        simrt::run_for(60 * MS);
        simrt::explore(0);
        w.alive(&format!("strangers sent {seq:?} and {} answers could not be sent", tap().iter().filter(|t| t.fate == Fate::Drop).count()))?;
        ok(format!("{seq:?} {}", w.accepted.borrow().len()))
    })
    .kinds(&[Kind::Env])
    .total(total)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let v = vec![
        orders("orders", if q { 3 } else { 4 }),
        strange("each", 1, 1, 1, if q { &[0, 2] } else { &[0, 1, 2] }),
        strange("pairs", 0, if q { 8 } else { 2 }, 2, &[0, 1, 2]),
        unanswered("send-errors", if q { 2 } else { 3 }, 2),
        crowd("crowd", if q { &[8, 130] } else { &[8, 64, 200] }),
    ];
    let v = with_batch(v, &["crowd"]);
    with_std(v, &["crowd"])
}
