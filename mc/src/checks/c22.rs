//! C22: a finished connection leaves nothing behind and its address can return.

use super::*;
use crate::traffic::{self, *};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::net::SocketAddr;

/// everything of a connection is gone this long after its end (the client's own socket is polled every 10 s)
const GONE: u64 = 15 * SEC;

fn count() -> (usize, Vec<SocketAddr>) {
    let mut s = simrt::live_sockets();
    s.sort();
    (simrt::live_lib_tasks(), s)
}
/// wait until the library's tasks and sockets are down to `base`
fn released(base: &(usize, Vec<SocketAddr>), limit: u64, what: &str) -> Rz<()> {
    let d = simrt::now() + limit;
    loop {
        let c = count();
        if c.0 <= base.0 && c.1.len() <= base.1.len() {
            return Ok(());
        }
        if simrt::now() >= d {
            bail!("not-released", "{what}: {} s later {} tasks {:?} and sockets {:?} are left, where there were {} tasks and {:?}", limit / SEC, c.0, simrt::live_lib_task_names(), c.1, base.0, base.1);
        }
        simrt::run_for(100 * MS);
    }
}
/// both ends of a library connection exchange messages
fn works(c: &Rc<RaknetSocket>, s: &Rc<RaknetSocket>, tag: u32, what: &str) -> Rz<()> {
    let (cl, cj) = reader(c);
    let (sl, sj) = reader(s);
    let mut want = vec![];
    for (i, (r, n)) in [(RO, 9), (R, 10), (RO, 3000)].into_iter().enumerate() {
        for (k, x) in [c, s].into_iter().enumerate() {
            let m = payload(tag + i as u32, n + k);
            match send(x, &m, r) {
                Ok(Ok(())) => {}
                e => bail!("disturbed", "{what}: send on the new connection: {:?}", e.map_err(|e| e.text())),
            }
        }
        want.push((tag + i as u32, n));
    }
    simrt::run_for(2 * SEC);
    for (k, l) in [(0, &sl), (1, &cl)] {
        let w: Vec<Vec<u8>> = want.iter().map(|(t, n)| payload(*t, n + k)).collect();
        check!(l.msgs() == w && l.end().is_none(), "disturbed", "{what}: on the new connection the {} received {} ({:?}), sent were {}", ["server", "client"][k], shows(&l.msgs()), l.end(), shows(&w));
    }
    cj.abort();
    sj.abort();
    Ok(())
}
fn client_from(port: u16, addr: SocketAddr) -> Job<Result<Rc<RaknetSocket>, String>> {
    simrt::set_next_port(port);
    connect_to(addr, None)
}

const ENDS: [&str; 9] = ["client close", "client drop", "server close", "server drop", "both close", "both drop", "the client's network is cut", "the server's network is cut", "both networks are cut"];
const STATES: [&str; 6] = ["idle", "messages unread", "messages unacknowledged", "both", "a reader waiting", "never accepted"];

/// what these addresses send is lost
fn cut(who: Vec<SocketAddr>) {
    if who.is_empty() {
        simrt::set_fate_filter(None);
        simrt::set_fates(vec![Fate::Deliver]);
    } else {
        simrt::set_fates(vec![Fate::Drop]);
        simrt::set_fate_filter(Some(std::sync::Arc::new(move |s: &SocketAddr, _: &SocketAddr, _: &[u8]| who.contains(s))));
    }
}

/// library both ends
fn ends(name: &str, delays: &'static [u64], rounds: usize, kinds: &'static [Kind], total: u32, states: &'static [usize]) -> Space {
    Space::new(
        name,
        format!("{rounds} connections in turn from one address, each ending in one of {} ways ({ENDS:?}) in one of the states {:?}; after everything is released the same address connects again {delays:?} ms later; at most {total} deviations of {kinds:?}", ENDS.len(), states.iter().map(|k| STATES[*k]).collect::<Vec<_>>()),
        move || {
            let m = kinds.iter().fold(0, |a, k| a | k.bit()) | Kind::App.bit();
            let e = pick(ENDS.len());
            let st = states[pick(states.len())];
            let delay = delays[pick(delays.len())];
            let what = format!("{}, {}", ENDS[e], STATES[st]);
            let mut l = listen_at(server_addr())?;
            simrt::run_for(100 * MS);
            let base = count();
            for round in 0..rounds {
                let what = format!("{what}, connection {}", round + 1);
                let j = client_from(45000, server_addr());
                let c = match j.wait(5 * SEC) {
                    Some(Ok(c)) => c,
                    Some(Err(e)) => bail!("no-return", "{what}: connect failed with {e}"),
                    None => bail!("no-return", "{what}: connect did not return within 5 s"),
                };
                check!(c.local_addr().unwrap().port() == 45000, "setup: port", "{what}: the client's address is {:?}", c.local_addr());
                let me = sa("127.0.0.1:45000");
                let mut s = None;
                if st != 5 {
                    match accept(&mut l, SEC) {
                        Ok(Ok(x)) => s = Some(x),
                        _ => bail!("no-return", "{what}: not accepted"),
                    }
                    let s = s.as_ref().unwrap();
                    check!(s.peer_addr().ok() == Some(me), "no-return", "{what}: accept returned a socket of {:?}", s.peer_addr());
                    works(&c, s, 100 * round as u32, &what)?;
                }
                simrt::run_for(73 * MS);
                // the state at the end
                let mut jobs = vec![];
                if st == 1 || st == 3 {
                    for i in 0..3 {
                        must_send(&c, &payload(800 + i, 5), RO)?;
                        must_send(s.as_ref().unwrap(), &payload(810 + i, 5), RO)?;
                    }
                    simrt::run_for(200 * MS);
                }
                if st == 2 || st == 3 {
                    for i in 0..3 {
                        must_send(&c, &payload(820 + i, 5000), RO)?;
                        must_send(s.as_ref().unwrap(), &payload(830 + i, 5000), RO)?;
                    }
                }
                if st == 4 {
                    jobs.push(reader(&c).1);
                    jobs.push(reader(s.as_ref().unwrap()).1);
                }
                let mut c = Some(c);
                if round + 1 == rounds {
                    simrt::explore(m);
                }
                let close = |x: &Option<Rc<RaknetSocket>>| {
                    if let Some(x) = x.clone() {
                        go("close", async move {
                            let _ = x.close().await;
                        });
                    }
                };
                let silent = e >= 6;
                match e {
                    0 => close(&c),
                    2 => close(&s),
                    4 => {
                        close(&c);
                        close(&s);
                    }
                    1 | 3 | 5 => {
                        for j in jobs.drain(..) {
                            j.abort();
                        }
                        if e != 3 {
                            c = None;
                        }
                        if e != 1 {
                            s = None;
                        }
                    }
                    _ => {
                        let saddr = server_addr();
                        cut(match e {
                            6 => vec![me],
                            7 => vec![saddr],
                            _ => vec![me, saddr],
                        });
                    }
                }
                simrt::run_for(250 * MS);
                simrt::explore(0);
                if silent {
                    // 60 s without traffic at either end, and again for the notification's loss
                    simrt::run_for(125 * SEC);
                    cut(vec![]);
                }
                simrt::run_for(2 * SEC);
                // both ends are closed by now; the application lets go of them
                for j in jobs.drain(..) {
                    let d = simrt::now() + 14 * SEC;
                    simrt::run_until(d, || j.done());
                    check!(j.done(), "reader-left", "{what}: a recv has not ended");
                }
                if st == 5 {
                    // whoever is still in the queue
                    while let Ok(Ok(x)) = accept(&mut l, 50 * MS) {
                        drop(x);
                    }
                }
                drop(c);
                drop(s);
                released(&base, GONE, &what)?;
                simrt::run_for(delay * MS);
            }
            no_panic("end")?;
            // a last one, which lives
            let j = client_from(45000, server_addr());
            let c = match j.wait(5 * SEC) {
                Some(Ok(c)) => c,
                x => bail!("no-return", "{what}, then connect: {:?}", x.map(|r| r.map(|_| ()))),
            };
            let s = match accept(&mut l, SEC) {
                Ok(Ok(x)) => x,
                _ => bail!("no-return", "{what}, then connect: not accepted"),
            };
            works(&c, &s, 3000, &what)?;
            for _ in 0..5 {
                simrt::run_for(14 * SEC);
                works(&c, &s, 3100, &what)?;
            }
            ok(format!("{e} {st}"))
        },
    )
    .kinds(kinds)
    .total(total)
}

const RAW_ENDS: [&str; 8] = ["disconnect datagram", "disconnect in a frame", "ten disconnects", "server close", "server drop", "disconnect and server close", "messages, then a disconnect", "silence"];

/// A raw client comes back from its own address at once, and keeps trying until it is let in.
fn returns(name: &str, delays: &'static [u64], phases: &'static [u64], ends: &'static [usize], kinds: &'static [Kind], total: u32) -> Space {
    Space::new(
        name,
        format!("a raw client's connection ends in one of the ways {:?}, {phases:?} ms into a tick; it asks again {delays:?} ms later, every 20 ms until answered, with the same or another identifier; the old socket is kept, used, closed or dropped afterwards, or was never accepted; at most {total} deviations of {kinds:?}", ends.iter().map(|k| RAW_ENDS[*k]).collect::<Vec<_>>()),
        move || {
            let m = kinds.iter().fold(0, |a, k| a | k.bit()) | Kind::App.bit();
            let e = ends[pick(ends.len())];
            let delay = delays[pick(delays.len())];
            let phase = phases[pick(phases.len())];
            let mut guid = [77, 78][pick(2)];
            // a request that overtakes the end cannot be told from a repetition
            if delay == 0 && !kinds.is_empty() {
                guid = 78;
            }
            let after = pick(4);
            let what = format!("{}, {phase} ms into a tick, back {delay} ms later with {} identifier", RAW_ENDS[e], if guid == 77 { "the same" } else { "another" });
            let mut l = listen_at(server_addr())?;
            let me = sa("127.0.0.1:50001");
            let c = raw_client(me, server_addr(), 1400)?;
            let mut old = None;
            let keep_unaccepted = after == 3 && !(3..=5).contains(&e);
            if !keep_unaccepted {
                match accept(&mut l, SEC) {
                    Ok(Ok(s)) => old = Some(s),
                    _ => bail!("setup: accept", "not accepted"),
                }
            }
            simrt::run_for(phase * MS);
            simrt::explore(m);
            match e {
                0 => c.bytes(&[0x15]),
                1 => {
                    c.msg(RO, &[0x15]);
                }
                2 => {
                    for _ in 0..10 {
                        c.bytes(&[0x15]);
                    }
                }
                3 | 5 => {
                    let s = old.clone().unwrap();
                    go("close", async move {
                        let _ = s.close().await;
                    });
                    if e == 5 {
                        c.bytes(&[0x15]);
                    }
                }
                4 => old = None,
                6 => {
                    for i in 0..12 {
                        c.msg(RO, &payload(i, 20));
                    }
                    c.bytes(&[0x15]);
                }
                _ => {
                    c.auto_ack.set(false);
                    simrt::explore(0);
                    c.pump(61 * SEC);
                    simrt::explore(m);
                }
            }
            let told = |c: &RawConn| c.pkts().iter().any(|p| matches!(&p.1, Pkt::Disconnect) || matches!(&p.1, Pkt::Frames { frames, .. } if frames.iter().any(|f| f.data == [0x15])));
            // an end the server brings about is known to the client when it has been told
            if (3..=4).contains(&e) || e == 7 {
                check!(c.pump_until(3 * SEC, || told(&c)), "not-told", "{what}: the client has not been told");
            }
            c.pump(delay * MS);
            let n0 = c.got.borrow().len();
            // come back
            let mut n = RawConn::new(c.raw, server_addr(), 1400);
            n.auto_ack.set(true);
            let t0 = simrt::now();
            let mut open = false;
            while simrt::now() < t0 + 5 * SEC && !open {
                n.bytes(&wire::req1(10, 1371));
                n.bytes(&wire::req2(&server_addr(), 1400, guid));
                open = n.pump_until(20 * MS, || n.pkts().iter().any(|p| matches!(p.1, Pkt::Rep2 { .. })));
            }
            check!(open, "no-return", "{what}: no reply 2 within 5 s: {:?} and before {n0} datagrams", n.pkts().iter().map(|p| &p.1).collect::<Vec<_>>().iter().rev().take(4).collect::<Vec<_>>());
            n.pump(20 * MS);
            // what the old connection sent before the reply is over with
            let first = n.got.borrow().iter().position(|g| matches!(wire::decode(&g.1), Ok(Pkt::Rep2 { .. }))).unwrap_or(0);
            n.got.borrow_mut().drain(..first);
            n.got.borrow_mut().retain(|g| !matches!(wire::decode(&g.1), Ok(Pkt::Disconnect)) || g.0 > simrt::now());
            n.num = 0.into();
            n.msg(RO, &wire::m_conn_request(guid, 4321));
            let acc = || n.messages().iter().any(|m| matches!(wire::decode_msg(m), Ok(Msg::Accepted { t1: 4321, .. })));
            check!(n.pump_until(2 * SEC, acc), "no-return", "{what}: the connection request of the new connection was not answered: {:?}", n.pkts().iter().map(|p| &p.1).collect::<Vec<_>>());
            n.msg(RO, &wire::m_new_incoming(&server_addr(), 10, &sa("0.0.0.0:0"), 1, 2));
            n.pump(100 * MS);
            simrt::explore(0);
            // the new socket, after what was never accepted
            let new = loop {
                match accept(&mut l, SEC) {
                    Ok(Ok(s)) => {
                        let x = block(SEC, s.send(&payload(1, 3), rel(U)));
                        if matches!(x, Ok(Ok(()))) {
                            break s;
                        }
                        check!(keep_unaccepted, "no-return", "{what}: accept returned a socket that is not open");
                        old = Some(s);
                    }
                    x => bail!("no-return", "{what}: the new connection was not accepted: {:?}", x.map(|r| r.map(|_| ()))),
                }
            };
            match after {
                0 => {}
                1 => old = None,
                _ => {
                    if let Some(o) = &old {
                        let r = block(SEC, o.send(&payload(666, 5), rel(RO)));
                        check!(!matches!(r, Ok(Ok(()))), "old-open", "{what}: the old socket can still send");
                        let _ = block(SEC, o.close());
                        let _ = block(SEC, o.flush());
                    }
                }
            }
            // the new connection works and stays
            let (log, _j) = reader(&new);
            let mut want = vec![];
            for i in 0..4 {
                let m = payload(700 + i, 10);
                n.msg(RO, &m);
                want.push(m);
                let r = send(&new, &payload(750 + i, 12), RO);
                check!(matches!(r, Ok(Ok(()))), "disturbed", "{what}: send on the new connection: {:?}", r.map_err(|e| e.text()));
                n.pump([40, 100, 3000, 100][i as usize] * MS);
            }
            n.pump(500 * MS);
            check!(log.msgs() == want && log.end().is_none(), "disturbed", "{what}: the new connection received {} ({:?}), sent were {}", shows(&log.msgs()), log.end(), shows(&want));
            let w2: Vec<Vec<u8>> = (0..4).map(|i| payload(750 + i, 12)).collect();
            let g2: Vec<Vec<u8>> = n.app_messages().into_iter().filter(|m| m.len() == 12).collect();
            check!(g2 == w2, "disturbed", "{what}: the raw client got {} on the new connection", shows(&n.app_messages()));
            check!(!told(&n), "disturbed", "{what}: the new connection was told of a disconnect");
            drop(old);
            no_panic("return")?;
            ok(format!("{e} {after} {guid}"))
        },
    )
    .kinds(kinds)
    .total(total)
}

/// connect given up
fn abandoned(name: &str, at: Vec<u64>, kinds: &'static [Kind], total: u32) -> Space {
    Space::new(name, format!("connect is abandoned by its caller at each of {} instants in its first {} ms, with a listener, with a server that answers part of the handshake, or none; ping likewise; at most {total} deviations of {kinds:?}; everything is released, and the same address connects", at.len(), at.last().unwrap()), move || {
        let m = kinds.iter().fold(0, |a, k| a | k.bit()) | Kind::App.bit();
        let t = at[pick(at.len())];
        let who = pick(4);
        let base;
        let mut l = None;
        let mut raw = None;
        match who {
            0 | 3 => {
                l = Some(listen_at(server_addr())?);
                simrt::run_for(100 * MS);
                base = count();
            }
            1 => {
                raw = Some(Raw::new(server_addr()));
                base = count();
            }
            _ => base = count(),
        }
        simrt::explore(m);
        simrt::set_next_port(45000);
        let a = server_addr();
        let j = go("connect", async move {
            if who == 3 {
                let _ = RaknetSocket::ping(&a).await;
                return None;
            }
            RaknetSocket::connect(&a).await.ok()
        });
        if let Some(r) = &raw {
            let d = simrt::now() + t * MS;
            simrt::run_until(d, || {
                if let Some((b, from)) = r.try_recv() {
                    match wire::decode(&b) {
                        Ok(Pkt::Req1 { .. }) => r.send(from, &wire::rep1(9, 1400)),
                        Ok(Pkt::Req2 { .. }) => r.send(from, &wire::rep2(9, &from, 1400)),
                        _ => {}
                    }
                }
                false
            });
        }
        simrt::run_for(t * MS);
        simrt::explore(0);
        let had = j.take().flatten();
        j.abort();
        drop(had);
        let what = format!("{} abandoned after {t} ms", if who == 3 { "ping" } else { "connect" });
        // the server's end of it, if there is one, ends for lack of traffic
        let limit = if l.is_some() { GONE + 62 * SEC } else { GONE };
        let mut dead = vec![];
        if let Some(l) = &mut l {
            while let Ok(Ok(s)) = accept(l, 100 * MS) {
                dead.push(s);
            }
            let d = simrt::now() + 62 * SEC;
            while simrt::now() < d {
                simrt::run_for(SEC);
            }
            dead.clear();
        }
        released(&base, limit, &what)?;
        no_panic("abandoned")?;
        if let Some(l) = &mut l {
            let j = client_from(45000, server_addr());
            let c = match j.wait(5 * SEC) {
                Some(Ok(c)) => c,
                x => bail!("no-return", "{what}, then connect: {:?}", x.map(|r| r.map(|_| ()))),
            };
            let s = match accept(l, SEC) {
                Ok(Ok(s)) => s,
                _ => bail!("no-return", "{what}, then connect: not accepted"),
            };
            works(&c, &s, 1, &what)?;
        }
        ok(format!("{who}"))
    })
    .kinds(kinds)
    .total(total)
}

/// many short connections
fn churn(name: &str, n: u16) -> Space {
    Space::new(name, format!("{n} clients connect and leave again in each of 5 ways, one after the other or all at once; nothing is left"), move || {
        let how = pick(5);
        let together = pick(2) == 1;
        let mut l = listen_at(server_addr())?;
        simrt::run_for(100 * MS);
        let base = count();
        let mut cs = vec![];
        let mut ss = vec![];
        let socks: Rc<RefCell<Vec<Rc<RaknetSocket>>>> = Default::default();
        for i in 0..n {
            let (c, s) = join(&mut l, server_addr())?;
            must_send(&c, &payload(i as u32, 20), RO)?;
            cs.push(c);
            ss.push(s);
            if !together || i + 1 == n {
                for (c, s) in cs.drain(..).zip(ss.drain(..)) {
                    match how {
                        0 => {
                            let _ = block(SEC, c.close());
                        }
                        1 => {
                            let _ = block(SEC, s.close());
                        }
                        2 => {
                            let _ = block(SEC, c.close());
                            let _ = block(SEC, s.close());
                        }
                        3 => {
                            drop(c);
                            socks.borrow_mut().push(s);
                            continue;
                        }
                        _ => {
                            drop(s);
                            socks.borrow_mut().push(c);
                            continue;
                        }
                    }
                    socks.borrow_mut().push(c);
                    socks.borrow_mut().push(s);
                }
            }
        }
        simrt::run_for(2 * SEC);
        socks.borrow_mut().clear();
        released(&base, GONE, &format!("{n} clients, way {how}"))?;
        no_panic("churn")?;
        let (c, s) = join(&mut l, server_addr())?;
        works(&c, &s, 1, "afterwards")?;
        ok(format!("{how} {together}"))
    })
}

/// Many connections end in the same instant, and all of their clients come back.
fn crowd(name: &str, ns: &'static [u16], cycles: usize, batch: bool) -> Space {
    Space::new(name, format!("{ns:?} clients connect at once, their connections all end at once in one of {} ways ({ENDS:?}), and when everything is released all of them connect again from the same addresses; {cycles} cycles{}", ENDS.len(), if batch { "; all that is due at one instant happens before the tasks it wakes run" } else { "" }), move || {
        let n = ns[pick(ns.len())];
        let e = pick(ENDS.len());
        let mut l = listen_at(server_addr())?;
        simrt::run_for(100 * MS);
        let base = count();
        for cycle in 0..cycles {
            let what = format!("{n} clients, {}, cycle {}", ENDS[e], cycle + 1);
            let js: Vec<_> = (0..n).map(|i| {
                let j = client_from(45000 + i, server_addr());
                simrt::run_for(0);
                j
            }).collect();
            let mut cs = BTreeMap::new();
            for j in &js {
                match j.wait(10 * SEC) {
                    Some(Ok(c)) => {
                        cs.insert(c.local_addr().unwrap().port(), c);
                    }
                    Some(Err(e)) => bail!("no-return", "{what}: connect failed with {e}"),
                    None => bail!("no-return", "{what}: a connect did not return within 10 s"),
                }
            }
            let mut ss = BTreeMap::new();
            for _ in 0..n {
                match accept(&mut l, 5 * SEC) {
                    Ok(Ok(s)) => {
                        ss.insert(s.peer_addr().unwrap().port(), s);
                    }
                    _ => bail!("no-return", "{what}: {} of {n} were accepted", ss.len()),
                }
            }
            for (p, c) in &cs {
                let Some(s) = ss.get(p) else { bail!("no-return", "{what}: the client of port {p} was not accepted, {:?} were", ss.keys()) };
                must_send(c, &payload(*p as u32, 30), RO)?;
                must_send(s, &payload(*p as u32, 31), RO)?;
            }
            simrt::run_for(100 * MS);
            for (p, c) in &cs {
                let s = &ss[p];
                for (x, k) in [(c, 31), (s, 30)] {
                    match block(2 * SEC, x.recv()) {
                        Ok(Ok(m)) if m == payload(*p as u32, k) => {}
                        r => bail!("disturbed", "{what}: recv on the connection of port {p}: {:?}", r.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                    }
                }
            }
            let (mut cs, mut ss): (Vec<_>, Vec<_>) = (cs.into_values().collect(), ss.into_values().collect());
            let caddrs: Vec<SocketAddr> = ss.iter().map(|s| s.peer_addr().unwrap()).collect();
            let close = |xs: &[Rc<RaknetSocket>]| {
                for x in xs {
                    let x = x.clone();
                    go("close", async move {
                        let _ = x.close().await;
                    });
                }
            };
            match e {
                0 => close(&cs),
                1 => cs.clear(),
                2 => close(&ss),
                3 => ss.clear(),
                4 => {
                    close(&cs);
                    close(&ss);
                }
                5 => {
                    cs.clear();
                    ss.clear();
                }
                6 => cut(caddrs),
                7 => cut(vec![server_addr()]),
                _ => cut(caddrs.into_iter().chain([server_addr()]).collect()),
            }
            if e >= 6 {
                simrt::explore(simrt::exploring() | Kind::Fate.bit());
                simrt::run_for(125 * SEC);
                cut(vec![]);
                simrt::explore(simrt::exploring() & !Kind::Fate.bit());
            }
            simrt::run_for(2 * SEC);
            cs.clear();
            ss.clear();
            released(&base, GONE, &what)?;
        }
        no_panic("crowd")?;
        Ok(Outcome { note: format!("{n} {e}"), inner: n as u64 })
    })
    .kinds(&[Kind::Fate])
    .cfg(move |c| {
        c.steps = 5_000_000;
        c.batch = batch;
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    const P: &[Kind] = &[Kind::Sched, Kind::Yield, Kind::Tie];
    let at: Vec<u64> = if q { (0..=300).step_by(5).chain([1000, 2500, 12000]).collect() } else { (0..=400).chain((500..40000).step_by(500)).collect() };
    let mut v = vec![
        ends("ends", if q { &[0, 5000] } else { &[0, 1, 49, 3000, 70000] }, 2, &[], 0, &[0, 1, 2, 3, 4, 5]),
        ends("ends/schedules", &[0], 1, P, if q { 1 } else { 2 }, &[0, 3]),
        returns("returns", if q { &[0, 5, 30, 48, 100] } else { &[0, 1, 5, 10, 20, 30, 40, 44, 45, 46, 48, 49, 50, 51, 60, 100, 1000, 10000] }, if q { &[0, 20, 46] } else { &[0, 5, 10, 20, 30, 40, 44, 45, 46, 49] }, &[0, 1, 2, 3, 4, 5, 6, 7], &[], 0),
        returns("returns/schedules", &[0, 40], if q { &[46] } else { &[0, 20, 46] }, &[0, 1, 5], P, if q { 1 } else { 2 }),
        abandoned("abandoned", at, &[], 0),
        abandoned("abandoned/schedules", vec![12, 70, 115, 121, 200], P, if q { 1 } else { 2 }),
        churn("churn", if q { 30 } else { 150 }),
        crowd("crowd", if q { &[12, 60] } else { &[11, 40, 130, 300] }, if q { 2 } else { 3 }, false),
        crowd("crowd/batch", if q { &[12, 60] } else { &[11, 40, 130, 300] }, if q { 2 } else { 3 }, true),
    ];
    v.push(ends("ends/send-errors", &[0], 1, &[Kind::Env], 1, &[0, 1, 2, 3, 4, 5]));
    if !q {
        v.push(ends("ends/threads", &[0], 1, &[Kind::Sync, Kind::Yield], 2, &[0, 3]));
    }
    let v = with_uptime(v, &["abandoned", "returns"], &[10, 120]);
    let v = with_std(v, &["ends", "churn"]);
    let v = with_stalls(v, &["ends/schedules"], 1, STALLS);
    let v = with_pauses(v, &["ends/schedules"], 2, &[60, 400, 3000]);
    v
}
