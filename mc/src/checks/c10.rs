//! C10: idle connections close after 60 s without traffic and not before.

use super::*;
use crate::traffic::{self, *};
use std::net::SocketAddr;
use std::sync::Arc;

const IDLE: u64 = 60 * SEC;
/// ticks are 50 ms apart
const SLACK: u64 = 200 * MS;

fn open(s: &Rc<RaknetSocket>) -> bool {
    matches!(block(SEC, s.send(&payload(901, 5), rel(U))), Ok(Ok(())))
}
/// when the last datagram from `from` arrived at `to`
fn last_arrival(from: SocketAddr, to: SocketAddr) -> u64 {
    simrt::deliveries_from(0).iter().filter(|d| d.src == from && d.dst == to).map(|d| d.t).max().unwrap_or(0)
}
/// every call says that the connection is closed; on a server a new handshake from the same address is answered afresh
fn is_closed(s: &Rc<RaknetSocket>, c: Option<&RawConn>, server: bool) -> Rz<()> {
    check!(!open(s), "idle-not-closed", "send still succeeds at {:.3} s, the last datagram arrived at {:.3} s", simrt::now() as f64 / 1e9, c.map(|c| last_arrival(c.raw.addr, c.peer)).unwrap_or(0) as f64 / 1e9);
    match block(15 * SEC, s.recv()) {
        Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
        x => bail!("idle-recv", "recv after the timeout: {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
    }
    match block(SEC, s.flush()) {
        Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
        x => bail!("idle-flush", "flush after the timeout: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
    }
    if let (Some(c), true) = (c, server) {
        simrt::run_for(100 * MS);
        c.raw.drain();
        c.bytes(&wire::req1(10, 1371));
        c.bytes(&wire::req2(&c.peer, 1400, 78));
        let got = std::cell::RefCell::new(vec![]);
        let d = simrt::now() + SEC;
        simrt::run_until(d, || {
            got.borrow_mut().extend(c.raw.drain().into_iter().filter_map(|b| wire::decode(&b.0).ok()));
            got.borrow().iter().any(|p| matches!(p, Pkt::Rep2 { .. }))
        });
        let got = got.into_inner();
        check!(got.iter().any(|p| matches!(p, Pkt::Rep2 { .. })), "idle-slot", "after the timeout, a new handshake from that address was answered {got:?}");
    }
    Ok(())
}

/// kinds of datagram a peer can send that say nothing but that it is there
fn beat(c: &RawConn, k: usize) -> Option<Vec<u8>> {
    Some(match k {
        0 => c.datagram(&[c.frame(RO, &payload(3, 10))]),
        1 => c.datagram(&[c.frame(U, &payload(4, 10))]),
        2 => c.datagram(&[c.frame(U, &wire::m_ping(5))]),
        3 => wire::ack(&[(0, 0)]),
        4 => wire::nack(&[(0, 0)]),
        // an old datagram again
        5 => wire::frames(1, &[Frame::new(RO, &payload(3, 10)).r(0).o(0)]),
        6 => c.datagram(&[c.frame(U, &wire::m_pong(5, 6))]),
        _ => return None,
    })
}
const BEATS: usize = 7;

/// silence from some moment on
fn silent(name: &str, phases: &'static [u64]) -> Space {
    Space::new(name, format!("last datagram of each of {BEATS} kinds, {phases:?} ms into the connection; with and without calls pending, unacknowledged data, messages unread; then silence; looked at just before and just after 60 s; both sides"), move || {
        let side = pick(2);
        let (c, s, l) = either_side(side)?;
        let state = pick(4);
        let k = pick(BEATS);
        c.auto_ack.set(false);
        let mut js = vec![];
        if state == 1 {
            let s2 = s.clone();
            js.push(go("recv", async move {
                loop {
                    if let Err(e) = s2.recv().await {
                        return format!("{e:?}");
                    }
                }
            }));
        }
        if state == 2 {
            must_send(&s, &payload(1, 3000), RO)?;
            let s2 = s.clone();
            js.push(go("flush", async move { s2.flush().await.map_err(|e| format!("{e:?}")).err().unwrap_or("Ok".into()) }));
        }
        c.pump(phases[pick(phases.len())] * MS);
        c.bytes(&beat(&c, k).unwrap());
        simrt::run_for(100 * MS);
        let t = last_arrival(c.raw.addr, c.peer);
        if state == 3 {
            // the application keeps sending, which does not count
            while simrt::now() < t + IDLE - 2 * SEC {
                simrt::run_for(900 * MS);
                check!(open(&s), "idle-early", "closed {:.3} s after the last datagram", (simrt::now() - t) as f64 / 1e9);
            }
        }
        simrt::run_until(t + IDLE - 40 * MS, || false);
        check!(open(&s), "idle-early", "closed {:.3} s after the last datagram", (simrt::now() - t) as f64 / 1e9);
        check!(js.iter().all(|j| !j.done()), "idle-early", "a pending call returned {:?} before the 60 s were over", js.iter().filter_map(|j| j.take()).collect::<Vec<_>>());
        simrt::run_until(t + IDLE + SLACK, || false);
        check!(!open(&s), "idle-not-closed", "still open {:.3} s after the last datagram", (simrt::now() - t) as f64 / 1e9);
        for j in &js {
            let r = must(j, 15 * SEC, "idle-pending")?;
            check!(r == "ConnectionClosed", "idle-pending", "a pending {} returned {r}", j.name);
        }
        if state != 1 {
            while let Ok(Ok(m)) = block(15 * SEC, s.recv()) {
                check!(m[0] == 0xfe, "idle-recv", "recv returned {}", show(&m));
            }
        }
        is_closed(&s, Some(&c), side == 0)?;
        drop(l);
        ok(format!("{side} {state} {k}"))
    })
}

/// heartbeats with gaps
fn kept(name: &str, gaps: &'static [u64], n: usize) -> Space {
    Space::new(name, format!("every sequence of {n} gaps out of {gaps:?} ms between datagrams of each kind, then silence; both sides"), move || {
        let side = pick(2);
        let (c, s, l) = either_side(side)?;
        c.auto_ack.set(false);
        let mut seq = vec![];
        let mut t = last_arrival(c.raw.addr, c.peer);
        let k0 = pick(BEATS);
        for i in 0..n {
            let g = gaps[pick(gaps.len())];
            let k = (k0 + i * 3) % BEATS;
            seq.push((g, k));
            let b = beat(&c, k).unwrap();
            // it takes 5 ms to arrive
            simrt::run_until(t + g * MS - 5 * MS, || false);
            c.bytes(&b);
            simrt::run_until(t + g * MS + 60 * MS, || false);
            let t2 = last_arrival(c.raw.addr, c.peer);
            check!(t2 == t + g * MS, "harness", "arrived at {t2}, not {}", t + g * MS);
            t = t2;
            check!(open(&s), "idle-early", "closed although datagrams kept arriving: gaps {seq:?}");
        }
        simrt::run_until(t + IDLE - 40 * MS, || false);
        check!(open(&s), "idle-early", "closed {:.3} s after the last of {seq:?}", (simrt::now() - t) as f64 / 1e9);
        simrt::run_until(t + IDLE + SLACK, || false);
        check!(!open(&s), "idle-not-closed", "still open {:.3} s after the last of {seq:?}", (simrt::now() - t) as f64 / 1e9);
        while let Ok(Ok(_)) = block(15 * SEC, s.recv()) {}
        is_closed(&s, Some(&c), side == 0)?;
        drop(l);
        ok(format!("{side} {seq:?}"))
    })
}

/// two ends of the library and a network that stops
fn pairs(name: &str) -> Space {
    Space::new(name, "client and server; traffic of either or both until the network is cut in one or both directions or just falls idle; afterwards a new client from the same machine connects", move || {
        let mut p = pair()?;
        let (cl, _j) = reader(&p.client);
        let (sl, _k) = reader(&p.server);
        let cut = pick(4);
        let act = pick(4);
        let (ca, sa_) = (p.caddr, p.saddr);
        if act & 1 != 0 {
            must_send(&p.client, &payload(1, 2000), RO)?;
        }
        if act & 2 != 0 {
            must_send(&p.server, &payload(2, 20), R)?;
        }
        simrt::run_for([0, 7, 80][pick(3)] * MS);
        simrt::set_fates(vec![Fate::Drop]);
        simrt::set_fate_filter(Some(Arc::new(move |s: &SocketAddr, _d: &SocketAddr, _b: &[u8]| match cut {
            0 => false,
            1 => *s == ca,
            2 => *s == sa_,
            _ => true,
        })));
        // each end is open until 60 s after its own last arrival, and closed then; an end may be told by the other
        let mut o = vec![];
        let mut closed = [None, None];
        let end = simrt::now() + 130 * SEC;
        while simrt::now() < end && closed.iter().any(|c| c.is_none()) {
            simrt::run_for(50 * MS);
            for (i, (s, me, peer)) in [(&p.client, ca, sa_), (&p.server, sa_, ca)].into_iter().enumerate() {
                if closed[i].is_some() {
                    continue;
                }
                // flush on an idle connection sends nothing
                let is_open = !matches!(block(MS, s.flush()), Ok(Err(_)));
                let told = simrt::deliveries_from(0).iter().any(|d| d.src == peer && d.dst == me && d.data[..] == [0x15]);
                let la = simrt::deliveries_from(0).iter().filter(|d| d.src == peer && d.dst == me && d.data[..] != [0x15]).map(|d| d.t).max().unwrap();
                if is_open {
                    check!(simrt::now() < la + IDLE + SLACK + 100 * MS, "idle-not-closed", "{} still open {:.3} s after the last datagram", ["client", "server"][i], (simrt::now() - la) as f64 / 1e9);
                } else {
                    check!(told || simrt::now() > la + IDLE, "idle-early", "{} closed {:.3} s after the last datagram", ["client", "server"][i], (simrt::now() - la) as f64 / 1e9);
                    closed[i] = Some(simrt::now());
                    o.push(format!("{i}@{}", simrt::now() / SEC));
                }
            }
        }
        check!(closed.iter().all(|c| c.is_some()), "idle-not-closed", "not closed at the end");
        simrt::set_fate_filter(None);
        simrt::set_fates(vec![Fate::Deliver]);
        simrt::run_for(15 * SEC);
        check!(cl.end().as_deref() == Some("ConnectionClosed") && sl.end().as_deref() == Some("ConnectionClosed"), "idle-recv", "pending recv calls ended with {:?} and {:?}", cl.end(), sl.end());
        let (c2, s2) = join(&mut p.listener, p.saddr)?;
        must_send(&c2, &payload(9, 10), RO)?;
        match block(SEC, s2.recv()) {
            Ok(Ok(m)) if m == payload(9, 10) => {}
            _ => bail!("idle-after", "a new connection does not work afterwards"),
        }
        ok(o.join(" "))
    })
}
/// some connections of a listener idle, others not
fn neighbours(name: &str) -> Space {
    Space::new(name, "three clients of one listener of which every subset keeps sending", move || {
        let mut l = listen_at(server_addr())?;
        let mut cs = vec![];
        for i in 0..3 {
            let c = raw_client(sa(&format!("127.0.0.1:5000{i}")), server_addr(), 1400)?;
            let s = match accept(&mut l, SEC) {
                Ok(Ok(s)) => s,
                _ => bail!("setup: accept", "no accept"),
            };
            cs.push((c, s));
        }
        let active: Vec<bool> = (0..3).map(|_| pick(2) == 1).collect();
        let t0 = simrt::now();
        while simrt::now() < t0 + 64 * SEC {
            for (i, (c, _)) in cs.iter().enumerate() {
                if active[i] {
                    c.bytes(&wire::ack(&[(0, 0)]));
                }
            }
            simrt::run_for(9500 * MS);
        }
        for (i, (_, s)) in cs.iter().enumerate() {
            check!(open(s) == active[i], if active[i] { "idle-early" } else { "idle-not-closed" }, "connection {i} of {active:?} open: {}", !active[i]);
        }
        ok(format!("{active:?}"))
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let v = vec![
        silent("silent", if q { &[0, 33] } else { &[0, 7, 33, 49, 51, 777] }),
        kept("kept-alive", &[1000, 30_000, 59_000, 59_950], if q { 3 } else { 4 }),
        pairs("pair/network-stops"),
        neighbours("neighbours"),
    ];
    let v = with_pauses(v, &["neighbours"], 1, &[400, 3000]);
    let v = with_batch(v, &["neighbours"]);
    with_uptime(v, &["silent", "kept-alive", "neighbours"], &[1, 2000, 30_000, 60_020, 61_000])
}
