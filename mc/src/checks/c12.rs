//! C12: protocol versions are negotiated and reported truthfully.

use super::*;
use crate::traffic::{self, *};
use std::cell::RefCell;
use std::net::SocketAddr;

/// the versions the library documents as supported
const SUPPORTED: [u8; 2] = [10, 11];

fn peer_version(l: &RaknetListener, a: &SocketAddr) -> Rz<u8> {
    match block(SEC, l.get_peer_raknet_version(a)) {
        Ok(Ok(v)) => Ok(v),
        x => found("version-listener", format!("get_peer_raknet_version: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text()))),
    }
}
fn truthful(l: &RaknetListener, s: &Rc<RaknetSocket>, c: Option<&Rc<RaknetSocket>>, ver: u8) -> Rz<()> {
    let a = s.peer_addr().unwrap();
    check!(s.raknet_version().unwrap() == ver, "version-accepted", "the client announced {ver}; the accepted socket reports {}", s.raknet_version().unwrap());
    let v = peer_version(l, &a)?;
    check!(v == ver, "version-listener", "the client announced {ver}; the listener reports {v}");
    if let Some(c) = c {
        check!(c.raknet_version().unwrap() == ver, "version-client", "connected with {ver}; the socket reports {}", c.raknet_version().unwrap());
    }
    Ok(())
}
fn no_accept(l: &mut RaknetListener, ver: u8) -> Rz<()> {
    if let Ok(r) = accept(l, 300 * MS) {
        bail!("version-accepted-unsupported", "a client speaking {ver}: accept returned {:?}", r.map(|s| s.peer_addr().unwrap()));
    }
    Ok(())
}

/// connect_with_version, for every version
fn library(name: &str, total: u32) -> Space {
    Space::new(name, format!("connect_with_version with each of the 256 versions, up to {total} handshake datagrams lost, delayed or duplicated; data sent over supported ones; a second connection afterwards"), move || {
        let mut l = listen_at(server_addr())?;
        let ver = pick(256) as u8;
        simrt::explore(Kind::Fate.bit() | Kind::App.bit());
        let j = connect_to(server_addr(), Some(ver));
        let d = simrt::now() + 20 * SEC;
        simrt::run_until(d, || j.done() || j.dead());
        simrt::explore(0);
        let r = must(&j, SEC, "version-connect")?;
        if SUPPORTED.contains(&ver) {
            let Ok(c) = r else { bail!("version-refused", "connecting with version {ver} failed: {}", r.err().unwrap()) };
            let s = match accept(&mut l, SEC) {
                Ok(Ok(s)) => s,
                _ => bail!("version-refused", "version {ver} was not accepted"),
            };
            truthful(&l, &s, Some(&c), ver)?;
            must_send(&c, &payload(1, 2000), RO)?;
            match block(5 * SEC, s.recv()) {
                Ok(Ok(m)) if m == payload(1, 2000) => {}
                _ => bail!("version-refused", "no data over version {ver}"),
            }
            truthful(&l, &s, Some(&c), ver)?;
        } else {
            match r {
                Err(e) if e == "NotSupportVersion" => {}
                r => bail!("version-error", "connecting with version {ver} gave {:?}", r.map(|_| "a socket")),
            }
            no_accept(&mut l, ver)?;
            check!(simrt::deliveries_from(0).iter().any(|d| matches!(wire::decode(&d.data), Ok(Pkt::Incompatible { proto, .. }) if SUPPORTED.contains(&proto))), "version-reply", "version {ver}: no incompatible-version reply naming a supported version arrived");
        }
        // another client is not affected
        let (c2, s2) = join(&mut l, server_addr())?;
        truthful(&l, &s2, Some(&c2), 10)?;
        no_panic("version")?;
        ok(format!("{ver}"))
    })
    .kinds(&[Kind::Fate])
    .total(total)
    .cfg(|c| c.fates = vec![Fate::Deliver, Fate::Drop, Fate::Delay(65 * MS), Fate::Dup(20 * MS)])
}

/// raw clients: replies to every version, padding of the request, repeated
fn raw(name: &str) -> Space {
    Space::new(name, "a raw client's request 1 with each of the 256 versions and 5 paddings, once or three times; the answer, and what request 2 leads to; once connected, a refused request from the same address", move || {
        let mut l = listen_at(server_addr())?;
        let ver = pick(256) as u8;
        let total = [46, 60, 548, 1371, 1492][pick(5)];
        let times = [1, 3][pick(2)];
        let r = Raw::new(sa("127.0.0.1:50001"));
        for _ in 0..times {
            r.send(server_addr(), &wire::req1(ver, total));
        }
        simrt::run_for(200 * MS);
        let got: Vec<_> = r.drain().into_iter().map(|x| wire::decode(&x.0)).collect();
        check!(got.len() == times, "version-reply", "{times} request 1 with version {ver} were answered by {got:?}");
        for p in &got {
            match p {
                Ok(Pkt::Rep1 { .. }) if SUPPORTED.contains(&ver) => {}
                Ok(Pkt::Incompatible { proto, .. }) if !SUPPORTED.contains(&ver) && SUPPORTED.contains(proto) => {}
                p => bail!("version-reply", "a request with version {ver} was answered with {p:?}"),
            }
        }
        if SUPPORTED.contains(&ver) {
            r.send(server_addr(), &wire::req2(&server_addr(), 1400, 7));
            let s = match accept(&mut l, SEC) {
                Ok(Ok(s)) => s,
                _ => bail!("version-refused", "version {ver} was not accepted"),
            };
            truthful(&l, &s, None, ver)?;
            // a request that is refused changes nothing
            let other = [0, 9, 12, 255][pick(4)];
            r.send(server_addr(), &wire::req1(other, total));
            simrt::run_for(20 * MS);
            truthful(&l, &s, None, ver).map_err(|f| Found { msg: format!("after a request with version {other} was refused: {}", f.msg), ..f })?;
        } else {
            no_accept(&mut l, ver)?;
        }
        no_panic("version")?;
        ok(format!("{ver}"))
    })
}

/// several clients, several times
fn history(name: &str, n: usize) -> Space {
    Space::new(name, format!("every history of {n} steps: one of two addresses announces version 9, 10, 11 or 12 and goes on to connect, a connected one leaves; versions reported after every step"), move || {
        let mut l = listen_at(server_addr())?;
        let addrs = [sa("127.0.0.1:50001"), sa("127.0.0.1:50002")];
        let raws: Vec<Raw> = addrs.iter().map(|a| Raw::new(*a)).collect();
        let mut conn: [Option<(Rc<RaknetSocket>, u8)>; 2] = [None, None];
        let mut h = vec![];
        for step in 0..n {
            let i = pick(2);
            if let Some((s, v)) = conn[i].take() {
                h.push(format!("{i} leaves ({v})"));
                raws[i].send(server_addr(), &[0x15]);
                simrt::run_for(300 * MS);
                drop(s);
                simrt::run_for(300 * MS);
            } else {
                let v = [10, 11, 9, 12][pick(4)];
                h.push(format!("{i} says {v}"));
                raws[i].drain();
                raws[i].send(server_addr(), &wire::req1(v, 1371));
                let p = loop {
                    match raws[i].recv_pkt(2 * SEC) {
                        Some(Ok(Pkt::Disconnect)) => {}
                        p => break p,
                    }
                };
                if !SUPPORTED.contains(&v) {
                    check!(matches!(p, Some(Ok(Pkt::Incompatible { .. }))), "version-reply", "{h:?}: answered {p:?}");
                    no_accept(&mut l, v)?;
                } else {
                    check!(matches!(p, Some(Ok(Pkt::Rep1 { .. }))), "version-reply", "{h:?}: answered {p:?}");
                    raws[i].send(server_addr(), &wire::req2(&server_addr(), 1400, 50 + step as u64));
                    let s = match accept(&mut l, SEC) {
                        Ok(Ok(s)) => s,
                        _ => bail!("version-refused", "{h:?}: not accepted"),
                    };
                    check!(s.peer_addr().unwrap() == addrs[i], "version-peer", "{h:?}: accepted {}", s.peer_addr().unwrap());
                    conn[i] = Some((s, v));
                }
            }
            for (s, v) in conn.iter().flatten() {
                truthful(&l, s, None, *v).map_err(|f| Found { msg: format!("{} ({h:?})", f.msg), ..f })?;
            }
        }
        no_panic("version")?;
        ok(h.join("; "))
    })
}
/// library clients with different versions at the same time
fn together(name: &str, kinds: &'static [Kind], total: u32) -> Space {
    let mask = kinds.iter().fold(0, |a, k| a | k.bit());
    Space::new(name, format!("three clients with every combination of versions 10, 11, 9 connect at once, up to {total} deviations of {kinds:?}"), move || {
        let mut l = listen_at(server_addr())?;
        let vs: Vec<u8> = (0..3).map(|_| [10, 11, 9][pick(3)]).collect();
        simrt::explore(mask | Kind::App.bit());
        let js: Vec<_> = vs.iter().map(|v| connect_to(server_addr(), Some(*v))).collect();
        let d = simrt::now() + 20 * SEC;
        simrt::run_until(d, || js.iter().all(|j| j.done() || j.dead()));
        simrt::explore(0);
        let mut socks = vec![];
        while let Ok(Ok(s)) = accept(&mut l, 200 * MS) {
            socks.push(s);
        }
        check!(socks.len() == vs.iter().filter(|v| SUPPORTED.contains(v)).count(), "version-accepts", "versions {vs:?}: {} accepted", socks.len());
        for (j, v) in js.iter().zip(&vs) {
            match (must(j, SEC, "version-connect")?, SUPPORTED.contains(v)) {
                (Ok(c), true) => {
                    let Some(s) = socks.iter().find(|s| s.peer_addr().unwrap().port() == c.local_addr().unwrap().port()) else { bail!("version-accepts", "no accepted socket for a client") };
                    truthful(&l, s, Some(&c), *v)?;
                }
                (Err(e), false) if e == "NotSupportVersion" => {}
                (r, _) => bail!("version-error", "connecting with version {v} gave {:?}", r.map(|_| "a socket")),
            }
        }
        ok(format!("{vs:?}"))
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = vec![Fate::Deliver, Fate::Drop, Fate::Delay(65 * MS), Fate::Dup(20 * MS)])
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let v = vec![
        library("library/all-versions", if q { 1 } else { 2 }),
        raw("raw/all-versions"),
        history("history", if q { 4 } else { 5 }),
        together("together/faults", &[Kind::Fate], if q { 1 } else { 2 }),
        together("together/sched", &[Kind::Sched, Kind::Yield, Kind::Sync], if q { 1 } else { 2 }),
    ];
    let v = with_std(v, &["history"]);
    let v = with_stalls(v, &["library/all-versions", "history", "together/faults"], 1, STALLS);
    let v = with_pauses(v, &["library/all-versions", "history", "together/faults"], 2, &[60, 400, 3000]);
    v
}
