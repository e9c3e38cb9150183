//! C11: the handshake yields exactly one working connection per client.

use super::*;
use crate::traffic::{self, *};
use std::cell::RefCell;
use std::net::SocketAddr;
use std::sync::Arc;

/// a connect that was answered must be through by then
const BOUND: u64 = 20 * SEC;
/// ... or have given up by then, if the server is gone
const GIVE_UP: u64 = 75 * SEC;

type Acc = Rc<RefCell<Vec<Rc<RaknetSocket>>>>;
/// accept forever
fn acceptor(mut l: RaknetListener, start: u64) -> (Acc, Job<RaknetListener>) {
    let v = Acc::default();
    let v2 = v.clone();
    let j = go("acceptor", async move {
        simrt::sleep(start).await;
        loop {
            match l.accept().await {
                Ok(s) => {
                    simrt::log(|| format!("accept -> {}", s.peer_addr().unwrap()));
                    v2.borrow_mut().push(Rc::new(s))
                }
                Err(_) => return l,
            }
        }
    });
    (v, j)
}

/// data both ways, sent at once
fn works(c: &Rc<RaknetSocket>, s: &Rc<RaknetSocket>, tag: u32) -> Rz<()> {
    let (a, b) = (payload(tag, 1500), payload(tag + 100, 30));
    must_send(c, &a, RO)?;
    must_send(s, &b, RO)?;
    for (who, sock, m) in [("server", s, &a), ("client", c, &b)] {
        match block(5 * SEC, sock.recv()) {
            Ok(Ok(g)) if g == *m => {}
            x => bail!("handshake-unusable", "after the handshake, {who}.recv gives {:?} for {}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text()), show(m)),
        }
    }
    Ok(())
}

/// `n` clients connect while everything in `kinds` is explored
fn clients(name: &str, n: usize, kinds: &'static [Kind], total: u32, fates: Vec<Fate>, setup_too: bool, late: &'static [u64]) -> Space {
    let mask = kinds.iter().fold(0, |a, k| a | k.bit());
    Space::new(name, format!("{n} clients connect at once{}, accept called {late:?} ms later; up to {total} deviations of {kinds:?}", if setup_too { " (bind and listen explored as well)" } else { "" }), move || {
        let late = late[pick(late.len())];
        if setup_too {
            simrt::explore(mask | Kind::App.bit());
        }
        let l = listen_at(server_addr())?;
        simrt::explore(mask | Kind::App.bit());
        let (acc, _aj) = acceptor(l, late * MS);
        let t0 = simrt::now();
        let js: Vec<_> = (0..n).map(|_| connect_to(server_addr(), None)).collect();
        let d = t0 + BOUND;
        simrt::run_until(d, || js.iter().all(|j| j.done() || j.dead()) && acc.borrow().len() >= n);
        simrt::explore(0);
        let mut cs = vec![];
        for j in &js {
            match j.take() {
                Some(Ok(c)) => cs.push(c),
                Some(Err(e)) => bail!("handshake-failed", "connect failed with {e} after {} ms", (simrt::now() - t0) / MS),
                None if j.dead() => bail!("handshake-panic", "connect panicked: {:?}", simrt::panics().last().map(|p| p.msg.clone())),
                None => bail!("handshake-hang", "connect had not returned after {} ms ({} sockets accepted)", BOUND / MS, acc.borrow().len()),
            }
        }
        let took = (simrt::now() - t0) / MS;
        for c in &cs {
            let a = SocketAddr::new(server_addr().ip(), c.local_addr().unwrap().port());
            let d = simrt::now() + SEC;
            simrt::run_until(d, || acc.borrow().iter().any(|s| s.peer_addr().unwrap() == a));
            let m: Vec<_> = acc.borrow().iter().filter(|s| s.peer_addr().unwrap() == a).cloned().collect();
            check!(m.len() == 1, "handshake-accepts", "{} sockets accepted for the client at {a}", m.len());
            check!(c.peer_addr().unwrap() == server_addr(), "handshake-peer", "the client's peer is {}", c.peer_addr().unwrap());
            works(c, &m[0], 1)?;
        }
        // whatever was delayed arrives now
        simrt::run_for(3 * SEC);
        check!(acc.borrow().len() == n, "handshake-accepts", "{} sockets accepted for {n} clients", acc.borrow().len());
        for c in &cs {
            let m = acc.borrow().iter().find(|s| s.peer_addr().unwrap().port() == c.local_addr().unwrap().port()).cloned().unwrap();
            works(c, &m, 300)?;
        }
        ok(format!("{took} ms"))
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = fates)
}
const FATES_H: fn() -> Vec<Fate> = || vec![Fate::Deliver, Fate::Drop, Fate::Delay(7 * MS), Fate::Delay(65 * MS), Fate::Delay(2100 * MS), Fate::Dup(3 * MS), Fate::Dup(70 * MS), Fate::Dup(2500 * MS)];
const FATES_H4: fn() -> Vec<Fate> = || vec![Fate::Deliver, Fate::Drop, Fate::Delay(2100 * MS), Fate::Dup(70 * MS)];

/// every sequence of handshake datagrams of a client
fn sequences(name: &str, n: usize) -> Space {
    Space::new(name, format!("a client's handshake datagrams in every order and multiplicity up to {n}, then the rest of the handshake"), move || {
        let l = listen_at(server_addr())?;
        let (acc, _j) = acceptor(l, 0);
        let raw = Raw::new(sa("127.0.0.1:50001"));
        let a = raw.addr;
        let c = RawConn::new(raw, server_addr(), 1400);
        let (mut req1, mut req2) = (false, false);
        let mut seq = vec![];
        let send = |k: usize| match k {
            0 => c.bytes(&wire::req1(10, 1371)),
            1 => c.bytes(&wire::req2(&server_addr(), 1400, 77)),
            2 => c.bytes(&wire::frames(0, &[Frame::new(RO, &wire::m_conn_request(77, 1234)).r(0).o(0)])),
            _ => c.bytes(&wire::frames(1, &[Frame::new(RO, &wire::m_new_incoming(&server_addr(), 10, &sa("0.0.0.0:0"), 1, 2)).r(1).o(1)])),
        };
        let gap = [0, 30][pick(2)];
        for _ in 0..n {
            let k = pick(4);
            // a second request before the first is out of protocol
            if k == 1 && !req1 {
                return ok("out of protocol");
            }
            req1 |= k == 0;
            req2 |= k == 1;
            seq.push(k);
            send(k);
            c.pump(gap * MS);
        }
        c.pump(100 * MS);
        check!(acc.borrow().len() == req2 as usize, "handshake-accepts", "{seq:?}: {} sockets accepted", acc.borrow().len());
        for k in 0..4 {
            send(k);
            c.pump(60 * MS);
        }
        c.pump(100 * MS);
        check!(acc.borrow().len() == 1 && acc.borrow()[0].peer_addr().unwrap() == a, "handshake-accepts", "{seq:?} and the rest: {} sockets accepted", acc.borrow().len());
        let s = acc.borrow()[0].clone();
        c.num.set(2);
        c.ridx.set(2);
        c.oidx.set(2);
        c.msg(RO, &payload(1, 20));
        match block(SEC, s.recv()) {
            Ok(Ok(m)) if m == payload(1, 20) => {}
            _ => bail!("handshake-unusable", "{seq:?}: no data from the client"),
        }
        must_send(&s, &payload(2, 20), RO)?;
        c.pump(300 * MS);
        check!(c.app_messages() == vec![payload(2, 20)], "handshake-unusable", "{seq:?}: the client got {}", shows(&c.app_messages()));
        no_panic("handshake")?;
        ok(format!("{seq:?}"))
    })
}

/// a server that stops answering at some stage
fn gone(name: &str) -> Space {
    Space::new(name, "a raw server that goes away after reply 1, after reply 2, after acknowledging the connection request (silent, with a disconnect, or answering nonsense), for good", move || {
        let raw = Raw::new(server_addr());
        let j = connect_to(server_addr(), None);
        let Some((_, client)) = raw.recv(2 * SEC) else { bail!("setup: raw server", "no request 1") };
        let stage = pick(3);
        let how = pick(6);
        raw.send(client, &wire::rep1(99, 1400));
        let t0 = simrt::now();
        let mut told = false;
        let bye = |told: &mut bool| {
            if how == 1 {
                *told = true;
                raw.send(client, &[0x15]);
            }
        };
        if stage >= 1 {
            match raw.recv_pkt(2 * SEC) {
                Some(Ok(Pkt::Req2 { .. })) => {}
                x => bail!("setup: raw server", "no request 2: {x:?}"),
            }
            raw.send(client, &wire::rep2(99, &client, 1400));
            if stage == 1 {
                bye(&mut told);
            }
        }
        if stage == 2 {
            let Some((b, _)) = raw.recv(2 * SEC) else { bail!("setup: raw server", "no connection request") };
            let Some((n, _)) = frames_of(&b) else { bail!("setup: raw server", "no connection request") };
            raw.send(client, &wire::ack(&[(n, n)]));
            bye(&mut told);
        }
        // answers nonsense for ten seconds
        let nonsense: Option<Vec<u8>> = match how {
            2 => Some(wire::rep1(99, 1400)),
            3 => Some(wire::already(99)),
            4 => Some(wire::pong(1, 99, b"MCPE;x;")),
            5 => Some(vec![0xff, 1, 2]),
            _ => None,
        };
        if let Some(x) = nonsense {
            let d = simrt::now() + 10 * SEC;
            while simrt::now() < d && !j.done() && !j.dead() {
                let got = RefCell::new(false);
                simrt::run_until(d, || {
                    *got.borrow_mut() = !raw.drain().is_empty();
                    *got.borrow() || j.done() || j.dead()
                });
                if got.into_inner() {
                    raw.send(client, &x);
                } else {
                    break;
                }
            }
        }
        let limit = if told && stage == 2 { 5 * SEC } else { GIVE_UP + 10 * SEC };
        let r = j.wait((t0 + limit).saturating_sub(simrt::now()).max(1));
        match r {
            Some(Err(e)) => ok(format!("{stage} {how} {e} after {} s", (simrt::now() - t0) / SEC)),
            Some(Ok(_)) => found("handshake-false", format!("connect succeeded although the server went away at stage {stage}")),
            None if j.dead() => found("handshake-panic", format!("connect panicked: {:?}", simrt::panics().last().map(|p| p.msg.clone()))),
            None => found("handshake-hang", format!("the server answered and went away after stage {stage} (then: {how}); connect had not returned {} s later", (simrt::now() - t0) / SEC)),
        }
    })
}
/// a real server that closes, crashes or is cut off while a client connects
fn dies(name: &str) -> Space {
    Space::new(name, "the listener is closed, or the network cut for good, at every datagram of the handshake after the first answer", move || {
        let mut l = listen_at(server_addr())?;
        let close = pick(2) == 0;
        let j = connect_to(server_addr(), None);
        let k = pick(12);
        let t0 = simrt::now();
        // after the k-th datagram from the first reply on
        let d = simrt::now() + 2 * SEC;
        simrt::run_until(d, || simrt::deliveries_len() >= 2 + k);
        if close {
            let r = block(20 * SEC, l.close());
            check!(matches!(r, Ok(Ok(()))), "handshake-close", "listener.close during a handshake: {:?}", r.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text()));
        } else {
            simrt::set_fates(vec![Fate::Drop]);
        }
        match j.wait(GIVE_UP + 10 * SEC) {
            Some(Err(e)) => ok(format!("{close} {k} {e}")),
            Some(Ok(c)) => {
                // it was through already; then it must end
                let (log, _r) = reader(&c);
                let d = simrt::now() + 80 * SEC;
                simrt::run_until(d, || log.end.borrow().is_some());
                check!(log.end().as_deref() == Some("ConnectionClosed"), "handshake-hang", "connect succeeded and recv did not end: {:?}", log.end());
                ok(format!("{close} {k} connected"))
            }
            None if j.dead() => found("handshake-panic", format!("connect panicked: {:?}", simrt::panics().last().map(|p| p.msg.clone()))),
            None => found("handshake-hang", format!("{} after {k} more datagrams than the first answer; connect had not returned {} s later", if close { "listener closed" } else { "network cut" }, (simrt::now() - t0) / SEC)),
        }
    })
}
/// clients one after the other
fn many(name: &str, n: usize) -> Space {
    Space::new(name, format!("{n} clients connect one after the other or in overlapping waves, accept called before, during or after"), move || {
        let l = listen_at(server_addr())?;
        let gap = [0, 4, 11, 40][pick(4)];
        let late = [0, 100, 2000][pick(3)];
        let (acc, _j) = acceptor(l, late * MS);
        let mut js = vec![];
        for _ in 0..n {
            js.push(connect_to(server_addr(), None));
            simrt::run_for(gap * MS);
        }
        let d = simrt::now() + BOUND;
        simrt::run_until(d, || js.iter().all(|j| j.done() || j.dead()) && acc.borrow().len() >= n);
        let mut cs = vec![];
        for j in &js {
            match j.take() {
                Some(Ok(c)) => cs.push(c),
                x => bail!("handshake-hang", "of {n} clients one's connect gave {:?} (accepted {})", x.map(|r| r.map(|_| ())), acc.borrow().len()),
            }
        }
        simrt::run_for(200 * MS);
        check!(acc.borrow().len() == n, "handshake-accepts", "{} sockets accepted for {n} clients", acc.borrow().len());
        for (i, c) in cs.iter().enumerate() {
            let m: Vec<_> = acc.borrow().iter().filter(|s| s.peer_addr().unwrap().port() == c.local_addr().unwrap().port()).cloned().collect();
            check!(m.len() == 1, "handshake-accepts", "client {i}: {} sockets", m.len());
            works(c, &m[0], i as u32)?;
        }
        ok(format!("{gap} {late}"))
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    const P: &[Kind] = &[Kind::Sched, Kind::Yield, Kind::Sync, Kind::Select, Kind::Tie];
    let mut v = vec![
        clients("faults/one-client", 1, &[Kind::Fate], if q { 3 } else { 4 }, FATES_H(), false, &[0]),
        clients("faults/losses", 1, &[Kind::Fate], if q { 4 } else { 6 }, FATES_DROP(), false, &[0, 3000]),
        clients("faults/two-clients", 2, &[Kind::Fate], if q { 2 } else { 3 }, FATES_H4(), false, &[0]),
        clients("sched/one-client", 1, P, if q { 2 } else { 3 }, vec![], true, &[0]),
        clients("sched/two-clients", 2, P, if q { 2 } else { 3 }, vec![], true, &[0, 50]),
        clients("sched/with-fault", 1, &[Kind::Fate, Kind::Sched, Kind::Yield], if q { 2 } else { 3 }, FATES_H4(), false, &[0]),
        sequences("sequences", if q { 4 } else { 6 }),
        gone("server-gone"),
        dies("server-dies"),
        many("many", 5),
        many("scale/many", if q { 130 } else { 300 }),
    ];
    v.push(clients("send-errors/one-client", 1, &[Kind::Env], if q { 3 } else { 4 }, vec![], false, &[0]));
    v.push(clients("send-errors/two-clients", 2, &[Kind::Env, Kind::Fate], 2, FATES_DROP(), false, &[0]));
    if !q {
        v.push(many("many-more", 10));
    }
    let v = with_uptime(v, &["faults/one-client", "server-gone"], &[5, 40, 2500]);
    let v = with_std(v, &["faults/one-client", "sequences"]);
    let v = with_stalls(v, &["faults/one-client", "faults/losses", "faults/two-clients"], 1, STALLS);
    let v = with_pauses(v, &["faults/one-client", "faults/losses", "faults/two-clients"], 2, &[60, 400, 3000]);
    let v = with_batch(v, &["many", "scale/many"]);
    let v = with_stalls_n(v, &["faults/one-client", "faults/two-clients"], 2);
    if q {
        v
    } else {
        with_stalls_n(v, &["faults/one-client", "faults/two-clients"], 3)
    }
}
