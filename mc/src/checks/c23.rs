//! C23: control messages are answered and never reach the application.

use super::*;
use crate::traffic::*;
use std::net::SocketAddr;

#[derive(Clone, Debug, PartialEq)]
enum K {
    Ping(i64),
    Pong(i64),
    Req(u64, i64),
    Acc(u8),
    Inc(u8),
    App(usize),
}
use K::*;

fn body(k: &K, tag: u32, me: &SocketAddr) -> Vec<u8> {
    let v4 = sa("1.2.3.4:5");
    let v6 = sa("[2001:db8::17]:19132");
    let pick_addr = |x: u8| match x {
        0 => *me,
        1 => v4,
        _ => v6,
    };
    match k {
        Ping(t) => wire::m_ping(*t),
        Pong(t) => wire::m_pong(*t, t.wrapping_add(5)),
        Req(g, t) => wire::m_conn_request(*g, *t),
        Acc(x) => wire::m_accepted(&pick_addr(*x), if *x == 1 { 20 } else { 10 }, &pick_addr(*x), 5, 6),
        Inc(x) => wire::m_new_incoming(&pick_addr(*x), if *x == 1 { 20 } else { 10 }, &pick_addr(*x), 5, 6),
        App(n) => payload(tag, *n),
    }
}

/// What came back and what reached the application, given what was sent (with how often it arrived).
fn judge(c: &RawConn, from: usize, got: &[Vec<u8>], sent: &[(K, Rel, usize, Vec<u8>)], lib_app: &[Vec<u8>], what: &str) -> Rz<()> {
    let me = c.raw.addr;
    let lib = c.peer;
    let mut pongs = vec![];
    let mut accs = vec![];
    let mut incs = vec![];
    let mut apps = vec![];
    for m in c.messages().into_iter().skip(from) {
        match wire::decode_msg(&m) {
            Ok(Msg::Pong(t, _)) => pongs.push(t),
            Ok(Msg::Accepted { client, t1, .. }) => {
                check!(client == me, "accepted-address", "{what}: the acceptance names {client}, the peer is {me}");
                accs.push(t1);
            }
            Ok(Msg::NewIncoming { server, .. }) => incs.push(server),
            // the library follows a new-incoming-connection with a ping of its own
            Ok(Msg::Ping(_)) => {}
            Ok(Msg::App) => apps.push(m),
            x => bail!("unasked", "{what}: {lib} sent {x:?}"),
        }
    }
    let span = |f: &dyn Fn(&K) -> bool| {
        let least = sent.iter().filter(|s| f(&s.0)).count();
        let most: usize = sent.iter().filter(|s| f(&s.0)).map(|s| s.2).sum();
        (least, most)
    };
    for (k, _, _, _) in sent {
        match k {
            Ping(t) => {
                let (a, b) = span(&|x| *x == Ping(*t));
                let n = pongs.iter().filter(|p| *p == t).count();
                check!(a <= n && n <= b, "pong", "{what}: {a} pings with time {t} arrived {b} times and were answered with {n} pongs echoing it; all pongs: {pongs:?}");
            }
            Req(_, t) => {
                let (a, b) = span(&|x| matches!(x, Req(_, u) if u == t));
                let n = accs.iter().filter(|p| *p == t).count();
                check!(a <= n && n <= b, "accepted", "{what}: {a} connection requests with time {t} arrived {b} times and were answered with {n} acceptances echoing it; all: {accs:?}");
            }
            _ => {}
        }
    }
    check!(pongs.iter().all(|t| sent.iter().any(|s| s.0 == Ping(*t))), "pong", "{what}: pongs {pongs:?}, not all echo a ping");
    check!(accs.iter().all(|t| sent.iter().any(|s| matches!(s.0, Req(_, u) if u == *t))), "accepted", "{what}: acceptances {accs:?}, not all echo a request");
    let (a, b) = span(&|x| matches!(x, Acc(_)));
    check!(a <= incs.len() && incs.len() <= b, "incoming", "{what}: {a} acceptances arrived {b} times and were answered with {} new-incoming-connections", incs.len());
    check!(apps == lib_app, "app-sent", "{what}: the application sent {}, the peer got {}", shows(lib_app), shows(&apps));
    // the application
    for m in got {
        check!(is_app(m), "control-returned", "{what}: recv returned {:02x?}", m);
        check!(sent.iter().any(|s| s.3 == *m), "invented", "{what}: recv returned {}", show(m));
    }
    for (k, _, n, m) in sent {
        if let App(_) = k {
            let g = got.iter().filter(|x| *x == m).count();
            check!(g >= 1 && g <= *n, "app-lost", "{what}: {} arrived {n} times, recv returned it {g} times", show(m));
        }
    }
    no_panic("control")
}

fn times(name: &str) -> Space {
    const T: [i64; 9] = [0, 1, -1, i64::MIN, i64::MAX, 0x0102030405060708, -0x0102030405060708, 0xff, 1 << 32];
    Space::new(name, format!("ping, pong, connection request (with three identifiers), acceptance and new-incoming-connection (addresses of three kinds, 10 or 20 internal ones) under every reliability, times {T:?}, once or again, both sides"), move || {
        let side = pick(2);
        let t = T[pick(T.len())];
        let k = [Ping(t), Pong(t), Req(0, t), Req(u64::MAX, t), Req(77, t), Acc(0), Acc(1), Acc(2), Inc(0), Inc(1), Inc(2)][pick(11)].clone();
        let rel = Rel::ALL[pick(5)];
        let again = pick(2) == 1;
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let from = c.messages().len();
        let b = body(&k, 1, &c.raw.addr);
        let mut sent = vec![(k.clone(), rel, 1, b.clone())];
        c.msg(rel, &b);
        if again {
            c.pump(70 * MS);
            c.msg(rel, &b);
            sent.push((k.clone(), rel, 1, b.clone()));
        }
        let app = payload(9, 7);
        c.msg(RO, &app);
        sent.push((App(7), RO, 1, app));
        c.pump(400 * MS);
        judge(&c, from, &log.msgs(), &sent, &[], &format!("{k:?} as {rel:?}"))?;
        ok(format!("{side}"))
    })
}
/// every sequence
fn sequences(name: &str, n: usize, rels: &'static [Rel], gaps: &'static [u64], same: bool) -> Space {
    Space::new(
        name,
        format!("every sequence of {n} out of ping, pong, connection request, acceptance, new-incoming-connection, application message (small, split) as {rels:?}, {gaps:?} ms apart{}; the application sends as well; both sides", if same { ", each in its own datagram, in that of the one before, or arriving twice" } else { "" }),
        move || {
            let side = pick(2);
            let (c, sock, _l) = either_side(side)?;
            let (log, _j) = reader(&sock);
            let from = c.messages().len();
            let gap = gaps[pick(gaps.len())];
            let mut sent: Vec<(K, Rel, usize, Vec<u8>)> = vec![];
            let mut lib_app = vec![];
            let mut pend: Vec<Frame> = vec![];
            for i in 0..n {
                let t = 1000 + i as i64;
                let k = [Ping(t), Pong(t), Req(77, t), Acc(0), Inc(0), App(6), App(400)][pick(7)].clone();
                let r = rels[pick(rels.len())];
                let b = body(&k, i as u32 + 1, &c.raw.addr);
                let fs = if k == App(400) {
                    let parts: Vec<&[u8]> = b.chunks(150).collect();
                    c.fragments(i as u16, &parts)
                } else {
                    vec![c.frame(r, &b)]
                };
                let how = if same { pick(3) } else { 0 };
                sent.push((k, r, if how == 2 { 2 } else { 1 }, b));
                if how == 1 {
                    // together with what comes next
                    pend.extend(fs);
                    continue;
                }
                pend.extend(fs);
                let d = c.datagram(&pend);
                let more = pend.len() > 1 && how == 2;
                pend.clear();
                c.bytes(&d);
                if how == 2 {
                    c.bytes(&d);
                    if more {
                        for s in sent.iter_mut() {
                            s.2 = 2;
                        }
                    }
                }
                if i == n / 2 {
                    let m = payload(500, 11);
                    must_send(&sock, &m, RO)?;
                    lib_app.push(m);
                }
                c.pump(gap * MS);
            }
            if !pend.is_empty() {
                let d = c.datagram(&pend);
                c.bytes(&d);
            }
            c.pump(500 * MS);
            let what = format!("{:?}", sent.iter().map(|s| (&s.0, s.1, s.2)).collect::<Vec<_>>());
            judge(&c, from, &log.msgs(), &sent, &lib_app, &what)?;
            ok(format!("{side} {}", c.messages().len()))
        },
    )
}
/// control messages that were split
fn split(name: &str) -> Space {
    Space::new(name, "ping, pong, connection request, acceptance, new-incoming-connection in two to five fragments, in every rotation of their arrival, both sides", move || {
        let side = pick(2);
        let k = [Ping(5), Pong(5), Req(77, 5), Acc(0), Inc(0), Acc(2), Inc(2)][pick(7)].clone();
        let n = 2 + pick(4);
        let rot = pick(n);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let from = c.messages().len();
        let b = body(&k, 1, &c.raw.addr);
        let size = b.len().div_ceil(n);
        let parts: Vec<&[u8]> = b.chunks(size).collect();
        let mut fs = c.fragments(5, &parts);
        let rot = rot % fs.len();
        fs.rotate_left(rot);
        for f in fs {
            let d = c.datagram(&[f]);
            c.bytes(&d);
            c.pump(3 * MS);
        }
        let app = payload(9, 7);
        c.msg(RO, &app);
        c.pump(400 * MS);
        let sent = vec![(k.clone(), RO, 1, b), (App(7), RO, 1, app)];
        judge(&c, from, &log.msgs(), &sent, &[], &format!("{k:?} in {n} fragments"))?;
        ok(format!("{side} {n}"))
    })
}
/// the library on both ends, from the first datagram on
fn library(name: &str, kinds: &'static [Kind], total: u32, fates: Vec<Fate>) -> Space {
    Space::new(name, format!("connect, accept, messages both ways at once; up to {total} deviations of {kinds:?} from the first datagram on; recv returns application messages only, each one, and the requests are answered"), move || {
        let m = kinds.iter().fold(0, |a, k| a | k.bit()) | Kind::App.bit();
        let mut l = listen_at(server_addr())?;
        simrt::explore(m);
        let j = connect_to(server_addr(), None);
        let s = match accept(&mut l, 60 * SEC) {
            Ok(Ok(s)) => s,
            _ => bail!("setup: accept", "not accepted"),
        };
        let (sl, _a) = reader(&s);
        must_send(&s, &payload(1, 8), RO)?;
        let d = simrt::now() + 500 * MS;
        simrt::run_until(d, || j.done());
        simrt::explore(0);
        let c = match j.wait(40 * SEC) {
            Some(Ok(c)) => c,
            // an acceptance that does not come: C11's matter
            _ => return ok("not connected"),
        };
        simrt::explore(m);
        let (cl, _b) = reader(&c);
        must_send(&c, &payload(2, 8), RO)?;
        must_send(&s, &payload(3, 9), RO)?;
        simrt::run_for(120 * MS);
        simrt::explore(0);
        simrt::run_for(20 * SEC);
        check!(cl.msgs() == vec![payload(1, 8), payload(3, 9)], "control-returned", "the client's recv returned {}", shows(&cl.msgs()));
        check!(sl.msgs() == vec![payload(2, 8)], "control-returned", "the server's recv returned {}", shows(&sl.msgs()));
        let ca = s.peer_addr().unwrap();
        let mut times = vec![];
        for (_, _, fs) in data_tx(&tap(), ca, server_addr()) {
            for f in fs {
                if let Ok(Msg::ConnRequest { time, .. }) = wire::decode_msg(&f.data) {
                    times.push(time);
                }
            }
        }
        for (_, _, fs) in data_tx(&tap(), server_addr(), ca) {
            for f in fs {
                if let Ok(Msg::Accepted { client, t1, .. }) = wire::decode_msg(&f.data) {
                    check!(client == ca && times.contains(&t1), "accepted", "an acceptance of {client}, time {t1}; the client is {ca}, its requests had {times:?}");
                }
            }
        }
        no_panic("control")?;
        ok(format!("{}", tap().len()))
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = fates)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        times("values"),
        split("split"),
        sequences("sequences", if q { 3 } else { 5 }, &[RO], &[0, 7], false),
        sequences("reliabilities", 2, &Rel::ALL, &[0, 7, 60], false),
        sequences("packed", if q { 3 } else { 4 }, &[RO], &[7], true),
        library("library/faults", &[Kind::Fate], 2, if q { FATES_3() } else { FATES_DDD() }),
        library("library/schedules", &[Kind::Sched, Kind::Yield, Kind::Tie], if q { 1 } else { 2 }, vec![]),
    ];
    if !q {
        v.push(sequences("reliabilities/3", 3, &Rel::ALL, &[7], false));
        v.push(sequences("packed/any", 3, &[U, R, RO], &[7], true));
        v.push(library("library/faults-3", &[Kind::Fate], 3, FATES_3()));
    }
    let v = with_uptime(v, &["library/faults", "values"], &[10, 120]);
    let v = with_counters(v, &["library/faults"]);
    let v = with_stalls(v, &["split", "library/faults"], 1, STALLS);
    let v = with_pauses(v, &["split", "library/faults"], 1, &[60, 400, 3000]);
    let v = with_stalls_n(v, &["library/faults"], 2);
    v
}
