//! C24: a slow reader loses nothing.

use super::*;
use crate::traffic::*;

fn what_of(k: usize, i: u32) -> (Rel, usize) {
    match k {
        0 => (RO, 20),
        1 => (R, 20),
        2 => [(RO, 20), (R, 21)][i as usize % 2],
        3 => (RO, [2700, 30, 1340][i as usize % 3]),
        _ => [(RO, 20), (R, 21), (RO, 1500), (RS, 22), (U, 23)][i as usize % 5],
    }
}
const MIX: [&str; 5] = ["ReliableOrdered", "Reliable", "both", "split and not", "every kind"];

/// recv everything; the messages and how it ended
fn read_all(s: &Rc<RaknetSocket>, n: usize, what: &str) -> Rz<Vec<Vec<u8>>> {
    let (log, j) = reader(s);
    let d = simrt::now() + 30 * SEC;
    simrt::run_until(d, || log.len() >= n || log.end().is_some());
    simrt::run_for(SEC);
    no_panic("slow")?;
    j.abort();
    check!(log.len() >= n || log.end().is_some(), "lost", "{what}: recv returned {} of {n} messages in 30 s", log.len());
    Ok(log.msgs())
}
/// every acknowledged message is there, ordered ones in order
fn complete(sent: &[(Rel, Vec<u8>)], acked: &dyn Fn(usize) -> bool, got: &[Vec<u8>], what: &str) -> Rz<()> {
    let mut at = std::collections::HashMap::new();
    for (i, m) in got.iter().enumerate() {
        at.entry(m.clone()).or_insert(i);
    }
    let mut last = 0;
    for (i, (r, m)) in sent.iter().enumerate() {
        if !matches!(r, RO | R) {
            continue;
        }
        match at.get(m) {
            Some(p) => {
                if *r == RO {
                    check!(*p >= last, "order", "{what}: ordered message {i} was returned too early");
                    last = *p;
                }
            }
            None => check!(!acked(i), "lost", "{what}: message {i} ({}, {r:?}) was acknowledged and is lost; {} of {} messages were returned", show(m), got.len(), sent.len()),
        }
    }
    check!(got.iter().all(|g| sent.iter().any(|s| s.1 == *g)), "invented", "{what}: recv returned what was not sent");
    Ok(())
}

/// library both ends
fn backlog(name: &str, counts: &'static [u32], mixes: &'static [usize], paces: &'static [u64], kinds: &'static [Kind], total: u32) -> Space {
    Space::new(
        name,
        format!("{counts:?} messages ({:?}) are sent {paces:?} ms apart to an end that does not read, client or server, accepted or not yet; the other direction and another client go on; then it reads everything, or it or the peer closes or is dropped first; at most {total} deviations of {kinds:?}", mixes.iter().map(|k| MIX[*k]).collect::<Vec<_>>()),
        move || {
            let m = kinds.iter().fold(0, |a, k| a | k.bit()) | Kind::App.bit();
            let n = counts[pick(counts.len())];
            let mix = mixes[pick(mixes.len())];
            let pace = paces[pick(paces.len())];
            let side = pick(3);
            let then = pick(6);
            let what = format!("{n} messages ({}) {pace} ms apart unread by the {}, then {}", MIX[mix], ["client", "server", "server, which accepts later"][side], ["read", "the peer closes", "the peer is dropped", "it closes", "it is dropped", "both close"][then]);
            let mut l = listen_at(server_addr())?;
            let (oc, os) = join(&mut l, server_addr())?;
            let (ol, _oj) = reader(&os);
            let j = connect_to(server_addr(), None);
            let c = match j.wait(5 * SEC) {
                Some(Ok(c)) => c,
                _ => bail!("setup: connect", "connect failed"),
            };
            let mut s = None;
            if side != 2 {
                match accept(&mut l, SEC) {
                    Ok(Ok(x)) => s = Some(x),
                    _ => bail!("setup: accept", "not accepted"),
                }
            }
            simrt::run_for(200 * MS);
            let mut slow = if side == 0 { Some(c.clone()) } else { s.clone() };
            let fast = if side == 0 { s.clone().unwrap() } else { c.clone() };
            let (fl, fj) = reader(&fast);
            let mut sent = vec![];
            simrt::explore(m);
            for i in 0..n {
                let (r, len) = what_of(mix, i);
                let p = payload(i + 1, len);
                must_send(&fast, &p, r)?;
                sent.push((r, p));
                if pace > 0 {
                    simrt::run_for(pace * MS);
                }
            }
            simrt::run_for(120 * MS);
            simrt::explore(0);
            // everything is acknowledged although nobody reads
            match block(60 * SEC, fast.flush()) {
                Ok(Ok(())) => {}
                x => bail!("unacknowledged", "{what}: flush at the sender: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
            }
            // the other direction and another client
            let mut back = vec![];
            if let Some(x) = &slow {
                for i in 0..3 {
                    let p = payload(5000 + i, 15);
                    must_send(x, &p, RO)?;
                    back.push(p);
                }
            }
            let other = payload(6000, 30);
            must_send(&oc, &other, RO)?;
            simrt::run_for(SEC);
            check!(fl.msgs() == back, "stalled", "{what}: the other direction got {}, sent were {}", shows(&fl.msgs()), shows(&back));
            check!(ol.msgs() == vec![other], "stalled", "{what}: another client's message did not arrive: {}", shows(&ol.msgs()));
            if side == 2 {
                match accept(&mut l, SEC) {
                    Ok(Ok(x)) => slow = Some(x),
                    _ => bail!("late-accept", "{what}: not accepted"),
                }
            }
            let slow = slow.unwrap();
            drop(s);
            let mut fast = Some(fast);
            drop(c);
            match then {
                0 => {}
                1 | 5 => {
                    let _ = block(SEC, fast.as_ref().unwrap().close());
                    if then == 5 {
                        let _ = block(SEC, slow.close());
                    }
                }
                2 => {
                    fj.abort();
                    fast = None;
                }
                3 => {
                    let _ = block(SEC, slow.close());
                }
                _ => {}
            }
            if then == 4 {
                drop(slow);
                let f = fast.unwrap();
                let d = simrt::now() + 15 * SEC;
                simrt::run_until(d, || fl.end().is_some());
                check!(fl.end().as_deref() == Some("ConnectionClosed"), "unclean", "{what}: the peer's recv: {:?}", fl.end());
                drop(f);
                no_panic("slow")?;
                return ok("dropped");
            }
            if then != 0 {
                simrt::run_for(SEC);
            }
            let got = read_all(&slow, n as usize, &what)?;
            complete(&sent, &|_| true, &got, &what)?;
            if then == 0 {
                // usable afterwards, both ways
                let f = fast.clone().unwrap();
                let (sl, _x) = reader(&slow);
                for i in 0..3 {
                    must_send(&f, &payload(7000 + i, 2000), RO)?;
                    must_send(&slow, &payload(7100 + i, 2000), RO)?;
                }
                simrt::run_for(2 * SEC);
                check!(sl.len() == 3 && fl.len() == back.len() + 3, "unusable", "{what}: afterwards {} and {} of 3 messages arrived", sl.len(), fl.len() - back.len());
            } else {
                match block(15 * SEC, slow.recv()) {
                    Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
                    x => bail!("unclean", "{what}: recv after the last message: {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                }
                let d = simrt::now() + 15 * SEC;
                simrt::run_until(d, || fl.end().is_some());
                if then != 2 {
                    check!(fl.end().as_deref() == Some("ConnectionClosed"), "unclean", "{what}: the peer's recv: {:?}", fl.end());
                }
            }
            no_panic("slow")?;
            ok(format!("{mix} {side} {then} {}", got.len()))
        },
    )
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = FATES_3())
}

/// a raw sender, whose acknowledgements are counted, and which closes or vanishes
fn raw(name: &str, counts: &'static [u32], per: &'static [usize]) -> Space {
    Space::new(name, format!("a raw peer sends {counts:?} messages of every mix, {per:?} to a datagram, all at once, to an end that does not read; it then closes in 4 ways, or falls silent for good, or goes on; whatever was acknowledged is read afterwards; both sides"), move || {
        let side = pick(2);
        let n = counts[pick(counts.len())];
        let mix = [0, 1, 2, 4][pick(4)];
        let per = per[pick(per.len())];
        let then = pick(5);
        let (c, sock, _l) = either_side(side)?;
        let what = format!("{n} messages ({}) from a raw peer, {per} to a datagram, unread; then {}", MIX[mix], ["more", "a disconnect datagram", "a disconnect in a frame", "silence", "close here"][then]);
        let mut sent = vec![];
        let mut nums = vec![];
        let mut pend = vec![];
        let mut of = vec![];
        for i in 0..n {
            let (r, len) = what_of(mix, i);
            // a datagram is never longer than the MTU
            let p = payload(i + 1, len.min(1200 / per));
            pend.push(c.frame(r, &p));
            sent.push((r, p));
            if pend.len() == per || i + 1 == n {
                let k = c.num.get();
                nums.push(k);
                let d = c.datagram(&pend);
                c.bytes(&d);
                for _ in pend.drain(..) {
                    of.push(k);
                }
            }
        }
        match then {
            1 => c.bytes(&[0x15]),
            2 => {
                c.msg(RO, &[0x15]);
            }
            _ => {}
        }
        c.pump(2 * SEC);
        let tap = tap();
        let acks: Vec<Ranges> = acks_tx(&tap, c.peer, c.raw.addr).into_iter().map(|a| a.1).collect();
        let acked = |i: usize| acks.iter().any(|r| covers(r, of[i]));
        if matches!(then, 0 | 3 | 4) {
            check!((0..n as usize).all(acked), "unacknowledged", "{what}: {} of {n} messages were acknowledged", (0..n as usize).filter(|i| acked(*i)).count());
        }
        match then {
            3 => {
                simrt::run_for(62 * SEC);
            }
            4 => {
                let _ = block(SEC, sock.close());
                simrt::run_for(SEC);
            }
            _ => {}
        }
        let got = read_all(&sock, n as usize, &what)?;
        complete(&sent, &acked, &got, &what)?;
        if then == 0 {
            let p = payload(9000, 8);
            c.msg(RO, &p);
            c.pump(100 * MS);
            match block(SEC, sock.recv()) {
                Ok(Ok(m)) if m == p => {}
                x => bail!("unusable", "{what}: a message sent afterwards: {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
            }
            must_send(&sock, &payload(9001, 8), RO)?;
            c.pump(300 * MS);
            check!(c.app_messages() == vec![payload(9001, 8)], "unusable", "{what}: the peer got {} afterwards", shows(&c.app_messages()));
        } else {
            match block(15 * SEC, sock.recv()) {
                Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
                x => bail!("unclean", "{what}: recv after the last message: {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
            }
        }
        no_panic("slow")?;
        ok(format!("{side} {mix} {then}"))
    })
}

/// reads that stop and go
fn stop_and_go(name: &str, len: usize) -> Space {
    Space::new(name, format!("every history of {len} steps: the peer sends 1, 40 or 130 messages; the reader takes one, all, or begins a recv and gives it up; what was sent is returned in order in the end"), move || {
        let side = pick(2);
        let p = pair()?;
        let (tx, rx) = if side == 0 { (p.client.clone(), p.server.clone()) } else { (p.server.clone(), p.client.clone()) };
        let mut sent = vec![];
        let mut got: Vec<Vec<u8>> = vec![];
        let mut h = vec![];
        for _ in 0..len {
            let k = pick(6);
            h.push(k);
            match k {
                0..=2 => {
                    for _ in 0..[1, 40, 130][k] {
                        let m = payload(sent.len() as u32 + 1, 12);
                        must_send(&tx, &m, RO)?;
                        sent.push(m);
                    }
                    simrt::run_for([3, 120, 7][k] * MS);
                }
                3 => {
                    if let Ok(Ok(m)) = block(5 * MS, rx.recv()) {
                        got.push(m);
                    }
                }
                4 => {
                    while let Ok(Ok(m)) = block(MS, rx.recv()) {
                        got.push(m);
                    }
                }
                _ => {
                    let r = rx.clone();
                    let j = go("recv", async move { r.recv().await.ok() });
                    // given up before it is first polled, or while it waits
                    if sent.len() % 2 == 0 {
                        simrt::run_for(0);
                    }
                    j.abort();
                    if let Some(Some(m)) = j.take() {
                        got.push(m);
                    }
                }
            }
        }
        simrt::run_for(SEC);
        while let Ok(Ok(m)) = block(200 * MS, rx.recv()) {
            got.push(m);
        }
        check!(got == sent, "lost", "history {h:?}: {} messages sent, {} returned, first difference at {:?}", sent.len(), got.len(), got.iter().zip(&sent).position(|(a, b)| a != b));
        no_panic("slow")?;
        ok(format!("{}", sent.len()))
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        backlog("backlog", if q { &[1, 99, 101, 130] } else { &[1, 2, 9, 10, 11, 20, 50, 99, 100, 101, 102, 111, 112, 120, 150, 200, 300, 500] }, &[0, 1, 3, 4], if q { &[0] } else { &[0, 1, 30] }, &[], 0),
        backlog("backlog/big", if q { &[400, 5000] } else { &[1000, 3000, 20_000] }, &[2], &[0], &[], 0).cfg(|c| c.steps = 1_000_000),
        backlog("faults", &[6], &[2], &[20], &[Kind::Fate], if q { 2 } else { 3 }),
        backlog("schedules", &[3], &[2], &[0], &[Kind::Sched, Kind::Yield, Kind::Tie], if q { 1 } else { 2 }),
        raw("raw", if q { &[1, 99, 130, 300] } else { &[1, 10, 50, 99, 100, 101, 102, 110, 111, 112, 113, 150, 300, 1000] }, &[1, 7, 40]),
        stop_and_go("stop-and-go", if q { 4 } else { 6 }),
    ];
    if !q {
        v.push(backlog("threads", &[3], &[2], &[0], &[Kind::Sync, Kind::Yield, Kind::Sched], 2));
        v.push(backlog("faults/long", &[104], &[2], &[0], &[Kind::Fate], 2));
    }
    let v = with_uptime(v, &["faults"], &[10, 120]);
    let v = with_counters(v, &["faults"]);
    let v = with_stalls(v, &["faults", "schedules"], 1, STALLS);
    let v = with_pauses(v, &["faults", "schedules"], 2, &[60, 400, 3000]);
    if q {
        v
    } else {
        with_stalls_n(v, &["schedules"], 2)
    }
}
