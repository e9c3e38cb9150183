//! C09: closing is prompt, final, visible to both ends and idempotent.

use super::*;
use crate::traffic::{self, *};
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::sync::Arc;

const RECV_END: u64 = 15 * SEC;
/// "within a few seconds"
const FEW: u64 = 3 * SEC;

type Sock = Option<Rc<RaknetSocket>>;

/// The state of an end after it has been closed: every call says so, and recv returns first what was received.
/// `log` is a reader that has been running; or None, in which case recv is called here and must return `unread` first.
fn closed_end(who: &str, s: &Rc<RaknetSocket>, log: Option<&Log>, unread: &[Vec<u8>]) -> Rz<()> {
    match block(SEC, s.send(&payload(900, 5), rel(RO))) {
        Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
        x => bail!("close-send", "{who}: send on a closed connection: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
    }
    match block(SEC, s.flush()) {
        Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
        x => bail!("close-flush", "{who}: flush on a closed connection: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
    }
    for _ in 0..2 {
        match block(SEC, s.close()) {
            Ok(Ok(())) => {}
            x => bail!("close-again", "{who}: close on a closed connection: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
        }
    }
    match log {
        Some(l) => {
            let d = simrt::now() + RECV_END;
            simrt::run_until(d, || l.end.borrow().is_some());
            match l.end() {
                Some(e) if e == "ConnectionClosed" => {}
                Some(e) => bail!("close-recv", "{who}: a pending recv ended with {e}"),
                None => bail!("close-recv-hang", "{who}: a pending recv did not return within 15 s of the close"),
            }
        }
        None => {
            for m in unread {
                match block(RECV_END, s.recv()) {
                    Ok(Ok(g)) if g == *m => {}
                    x => bail!("close-unread", "{who}: {} had been received before the close; recv gives {:?}", show(m), x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                }
            }
        }
    }
    for _ in 0..2 {
        match block(RECV_END, s.recv()) {
            Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
            x => bail!("close-recv", "{who}: recv on a closed connection: {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
        }
    }
    no_panic("close")
}
/// recv until it fails
fn drain(who: &str, s: &Rc<RaknetSocket>) -> Rz<()> {
    for _ in 0..50 {
        match block(RECV_END, s.recv()) {
            Ok(Ok(m)) => check!(m[0] == 0xfe, "close-recv", "{who}: recv returned {}", show(&m)),
            Ok(Err(_)) => return Ok(()),
            Err(e) => bail!("close-recv-hang", "{who}: recv {} within 15 s of the close", e.text()),
        }
    }
    found("close-recv", format!("{who}: recv returned more than 50 messages"))
}
fn is_open(s: &Rc<RaknetSocket>) -> bool {
    matches!(block(SEC, s.send(&payload(901, 5), rel(U))), Ok(Ok(())))
}
fn wait_closed(s: &Rc<RaknetSocket>, limit: u64) -> bool {
    let d = simrt::now() + limit;
    while simrt::now() < d {
        if !is_open(s) {
            return true;
        }
        simrt::run_for(20 * MS);
    }
    false
}

/// who ends x how x state of the connection x which single disconnect notification gets through
fn notified(name: &str, survivors: usize) -> Space {
    Space::new(name, format!("client or server ends by close() or drop, in 6 states, 4 phases of the tick; of the disconnect notifications only the k-th arrives, k < {survivors}, or all"), move || {
        let p = pair()?;
        let Pair { listener, client, server, saddr, caddr } = p;
        let by_client = pick(2) == 0;
        let drop_it = pick(2) == 1;
        let state = pick(6);
        let phase = [0, 13, 37, 49][pick(4)];
        let k = pick(survivors + 1);
        let (a, b): (Rc<RaknetSocket>, Rc<RaknetSocket>) = if by_client { (client, server) } else { (server, client) };
        let (aa, ba) = if by_client { (caddr, saddr) } else { (saddr, caddr) };
        let mut b_unread = vec![];
        let mut a_unread = vec![];
        let mut blog = None;
        let mut alog = None;
        match state {
            0 => {}
            1 => {
                // unread messages at both ends
                for i in 0..3 {
                    let m = payload(i, 40);
                    must_send(&a, &m, RO)?;
                    b_unread.push(m);
                    let m = payload(50 + i, 40);
                    must_send(&b, &m, RO)?;
                    a_unread.push(m);
                    simrt::run_for(60 * MS);
                }
                simrt::run_for(200 * MS);
            }
            2 => {
                // pending recv at both ends (unless the socket is to be dropped)
                blog = Some(reader(&b).0);
                if !drop_it {
                    alog = Some(reader(&a).0);
                }
            }
            3 | 4 => {
                // unacknowledged data in one direction
                simrt::set_fate_filter(Some(Arc::new(|_, _, d: &[u8]| d[0] != 0x15)));
                simrt::set_fates(vec![Fate::Drop]);
                let x = if state == 3 { &a } else { &b };
                must_send(x, &payload(7, 2000), RO)?;
                must_send(x, &payload(8, 10), R)?;
            }
            _ => {
                // much queued
                for i in 0..8 {
                    let m = payload(i, 1400);
                    must_send(&a, &m, RO)?;
                    must_send(&b, &m, RO)?;
                }
            }
        }
        simrt::run_for(phase * MS);
        // from here on only the k-th notification of the end that closes gets through
        let n = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        {
            let n = n.clone();
            simrt::set_fates(vec![Fate::Drop]);
            let kk = k;
            simrt::set_fate_filter(Some(Arc::new(move |s: &SocketAddr, _: &SocketAddr, d: &[u8]| {
                *s == aa && d == [0x15] && kk < survivors && n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) != kk
            })));
        }
        simrt::log(|| format!("{} ends the connection by {}", if by_client { "client" } else { "server" }, if drop_it { "drop" } else { "close" }));
        if drop_it {
            check!(Rc::strong_count(&a) == 1, "harness", "still referenced");
            drop(a);
        } else {
            match block(SEC, a.close()) {
                Ok(Ok(())) => {}
                x => bail!("close", "close: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
            }
            if state >= 3 {
                drain("the end that closed", &a)?;
            }
            closed_end("the end that closed", &a, alog.as_ref(), &a_unread)?;
        }
        simrt::run_for(300 * MS);
        let sent_n = n.load(std::sync::atomic::Ordering::SeqCst);
        if k < survivors && sent_n <= k {
            return ok("fewer notifications than that");
        }
        check!(wait_closed(&b, FEW), "close-unnoticed", "{} ended the connection; notification {k} (of {sent_n}) arrived, and the other end was still open 3 s later", aa);
        if state >= 3 {
            drain("the other end", &b)?;
        }
        closed_end("the other end", &b, blog.as_ref(), &b_unread)?;
        no_panic("close")?;
        drop(listener);
        ok(format!("{by_client} {drop_it} {state} notifications {sent_n} {ba}"))
    })
}

/// the peer's disconnect notification in every form
fn peer_says(name: &str) -> Space {
    Space::new(name, "a raw peer ends the connection: raw, in a frame of each reliability, followed or preceded by messages in the same datagram or at the same instant, or after a gap that is filled; recv pending or called later; both sides", move || {
        let side = pick(2);
        let (c, s, l) = either_side(side)?;
        let pending = pick(2) == 0;
        let how = pick(9);
        let before = pick(3) as u32;
        let log = pending.then(|| reader(&s).0);
        let mut unread: Vec<Vec<u8>> = vec![];
        for i in 0..before {
            let m = payload(i, 30);
            c.msg(RO, &m);
            unread.push(m);
            c.pump(15 * MS);
        }
        c.pump(30 * MS);
        match how {
            0 => c.bytes(&[0x15]),
            1..=4 => {
                c.msg([U, R, RO, RS][how - 1], &[0x15]);
            }
            5 => {
                // message, disconnect, message in one datagram
                let m = payload(70, 20);
                let d = c.datagram(&[c.frame(RO, &m), c.frame(RO, &[0x15]), c.frame(RO, &payload(71, 20))]);
                c.bytes(&d);
                unread.push(m);
            }
            6 => {
                // at the same instant, separately
                let m = payload(70, 20);
                c.msg(RO, &m);
                c.bytes(&[0x15]);
                unread.push(m);
            }
            7 => {
                // ordered: disconnect arrives before the message it follows
                let m = payload(70, 20);
                let d1 = c.datagram(&[c.frame(RO, &m)]);
                let d2 = c.datagram(&[c.frame(RO, &[0x15])]);
                c.bytes(&d2);
                c.pump(20 * MS);
                check!(is_open(&s), "close-early", "an ordered disconnect was obeyed before the message it follows");
                c.bytes(&d1);
                unread.push(m);
            }
            _ => {
                // many times
                for _ in 0..12 {
                    c.bytes(&[0x15]);
                }
            }
        }
        simrt::run_for(100 * MS);
        check!(!is_open(&s), "close-ignored", "the connection was still open 100 ms after the peer's disconnect arrived");
        closed_end("the end that was told", &s, log.as_ref(), &unread)?;
        if let Some(l) = &log {
            check!(l.msgs() == unread, "close-unread", "received before the close: {}; recv returned {}", shows(&unread), shows(&l.msgs()));
        }
        drop(l);
        ok(format!("{side} {how} {}", unread.len()))
    })
}

/// close among concurrent calls
fn race(name: &str, kinds: &'static [Kind], total: u32, what: usize) -> Space {
    let desc = ["send", "recv", "flush", "close", "send, with data queued"][what];
    let mask = kinds.iter().fold(0, |a, k| a | k.bit());
    Space::new(name, format!("close (here or at the peer) concurrent with {desc}, preempted at up to {total} points of {kinds:?}"), move || {
        let p = pair()?;
        let far = pick(2);
        let target = if pick(2) == 0 { p.client.clone() } else { p.server.clone() };
        let closer = if far == 0 {
            target.clone()
        } else if Rc::ptr_eq(&target, &p.client) {
            p.server.clone()
        } else {
            p.client.clone()
        };
        if what == 4 {
            for i in 0..3 {
                must_send(&target, &payload(i, 20), RO)?;
            }
        }
        let off = if far == 1 { [0, 40, 55, 58][pick(4)] } else { [0, 5, 50][pick(3)] };
        let done: Rc<RefCell<Vec<(u64, String)>>> = Default::default();
        simrt::explore(mask | Kind::App.bit());
        let mut js = vec![];
        {
            let c2 = closer.clone();
            js.push(go("closer", async move {
                let _ = c2.close().await;
            }));
        }
        let d2 = done.clone();
        let t2 = target.clone();
        js.push(go("caller", async move {
            simrt::sleep(off * MS).await;
            for i in 0..3u32 {
                let r = match what {
                    0 | 4 => t2.send(&payload(100 + i, 10), rel([RO, U, R][i as usize % 3])).await.map_err(|e| format!("{e:?}")),
                    1 => t2.recv().await.map(|_| ()).map_err(|e| format!("{e:?}")),
                    2 => t2.flush().await.map_err(|e| format!("{e:?}")),
                    _ => t2.close().await.map_err(|e| format!("{e:?}")),
                };
                d2.borrow_mut().push((simrt::now(), r.err().unwrap_or("Ok".into())));
            }
        }));
        simrt::run_for(120 * MS);
        simrt::explore(0);
        let d = simrt::now() + RECV_END;
        simrt::run_until(d, || js.iter().all(|j| j.done() || j.dead()));
        for j in &js {
            check!(j.done(), if j.dead() { "close-panic" } else { "close-hang" }, "{} did not finish; panics {:?}", j.name, simrt::panics().iter().map(|p| p.msg.clone()).collect::<Vec<_>>());
        }
        for (_, r) in done.borrow().iter() {
            check!(r == "ConnectionClosed" || (what != 1 && r == "Ok"), "close-result", "{desc} concurrent with close returned {r}");
        }
        check!(wait_closed(&p.client, FEW) && wait_closed(&p.server, FEW), "close-unnoticed", "an end was still open 3 s after the close");
        drain("client", &p.client)?;
        drain("server", &p.server)?;
        closed_end("client", &p.client, None, &[])?;
        closed_end("server", &p.server, None, &[])?;
        let o: Vec<_> = done.borrow().iter().map(|x| x.1.clone()).collect();
        ok(format!("{far} {o:?}"))
    })
    .kinds(kinds)
    .total(total)
}
/// both ends close, or drop, at about the same time, over a network that loses and delays
fn both(name: &str, total: u32) -> Space {
    Space::new(name, format!("both ends close or are dropped 0-60 ms apart with traffic in flight, up to {total} datagrams lost, delayed, duplicated"), move || {
        let p = pair()?;
        let Pair { listener, client, server, .. } = p;
        let gap = [0, 3, 9, 30, 55][pick(5)];
        let d1 = pick(2) == 1;
        let d2 = pick(2) == 1;
        simrt::explore(Kind::Fate.bit() | Kind::App.bit());
        must_send(&client, &payload(1, 10), RO)?;
        must_send(&server, &payload(2, 10), RO)?;
        let (mut c, mut s) = (Some(client), Some(server));
        let end = |x: &mut Sock, d: bool| -> Rz<()> {
            if d {
                *x = None;
            } else {
                match block(SEC, x.as_ref().unwrap().close()) {
                    Ok(Ok(())) => {}
                    _ => bail!("close", "close failed"),
                }
            }
            Ok(())
        };
        end(&mut c, d1)?;
        simrt::run_for(gap * MS);
        end(&mut s, d2)?;
        simrt::run_for(90 * MS);
        simrt::explore(0);
        simrt::run_for(300 * MS);
        for (n, x) in [("client", &c), ("server", &s)] {
            if let Some(x) = x {
                let d = simrt::now() + RECV_END;
                while let Ok(Ok(_)) = block(d - simrt::now(), x.recv()) {}
                closed_end(n, x, None, &[])?;
            }
        }
        no_panic("close")?;
        drop(listener);
        ok(format!("{gap} {d1} {d2}"))
    })
    .kinds(&[Kind::Fate])
    .total(total)
    .cfg(|c| c.fates = FATES_3())
}
/// an end that is busy when it is told: many unread messages, retransmissions pending
fn lossy(name: &str, kinds: &'static [Kind], total: u32) -> Space {
    let mask = kinds.iter().fold(Kind::App.bit(), |m, k| m | k.bit());
    Space::new(name, format!("one end closes while messages flow both ways; up to {total} datagrams lost, delayed or refused by the local network, notifications included (one per tick burst always arrives)"), move || {
        let p = pair()?;
        let (cl, _j) = reader(&p.client);
        let (sl, _k) = reader(&p.server);
        simrt::explore(mask);
        let by_client = pick(2) == 0;
        let when = [5, 15, 60][pick(3)];
        must_send(&p.client, &payload(1, 1500), RO)?;
        must_send(&p.server, &payload(2, 20), R)?;
        simrt::run_for(when * MS);
        let a = if by_client { &p.client } else { &p.server };
        let b = if by_client { &p.server } else { &p.client };
        match block(SEC, a.close()) {
            Ok(Ok(())) => {}
            _ => bail!("close", "close failed"),
        }
        simrt::run_for(120 * MS);
        simrt::explore(0);
        check!(wait_closed(b, FEW), "close-unnoticed", "the other end was still open 3 s later");
        closed_end("client", &p.client, Some(&cl), &[])?;
        closed_end("server", &p.server, Some(&sl), &[])?;
        ok(format!("{by_client} {when} {} {}", cl.len(), sl.len()))
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = FATES_3())
}
/// recv from several tasks, all of which must end
fn waiters(name: &str) -> Space {
    Space::new(name, "1-3 tasks wait in recv, 0-2 in flush, when the connection ends in one of 5 ways, both sides", move || {
        let side = pick(2);
        let (c, s, mut l) = either_side(side)?;
        c.auto_ack.set(false);
        let nr = 1 + pick(3);
        let nf = pick(3);
        if nf > 0 {
            must_send(&s, &payload(1, 30), RO)?;
        }
        let out: Rc<RefCell<Vec<String>>> = Default::default();
        let mut js = vec![];
        for i in 0..nr + nf {
            let (s, o) = (s.clone(), out.clone());
            js.push(go("waiter", async move {
                let r = if i < nr { s.recv().await.map(|_| ()) } else { s.flush().await };
                o.borrow_mut().push(format!("{:?}", r.map_err(|e| format!("{e:?}"))));
            }));
        }
        simrt::run_for(20 * MS);
        match pick(5) {
            0 => {
                let _ = block(SEC, s.close());
            }
            1 => c.bytes(&[0x15]),
            2 => {
                c.msg(RO, &[0x15]);
            }
            3 => match &mut l {
                Some(l) => {
                    let _ = block(20 * SEC, l.close());
                }
                None => return ok("n/a"),
            },
            _ => {
                simrt::run_for(61 * SEC);
            }
        }
        let d = simrt::now() + RECV_END;
        simrt::run_until(d, || js.iter().all(|j| j.done() || j.dead()));
        let o = out.borrow();
        check!(o.len() == nr + nf && o.iter().all(|x| x == "Err(\"ConnectionClosed\")"), "close-waiters", "{nr} recv and {nf} flush calls waited; results within 15 s of the end: {o:?}");
        no_panic("close")?;
        ok(format!("{side} {nr} {nf}"))
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    const P: &[Kind] = &[Kind::Sched, Kind::Yield, Kind::Sync, Kind::Select];
    let mut v = vec![
        notified("notified", 12),
        peer_says("peer-says"),
        waiters("waiters"),
        both("both-end", if q { 2 } else { 3 }),
        lossy("lossy", &[Kind::Fate], if q { 2 } else { 3 }),
        lossy("send-errors", &[Kind::Env], if q { 2 } else { 3 }),
    ];
    for (i, n) in ["send", "recv", "flush", "close", "queued-send"].iter().enumerate() {
        v.push(race(&format!("race/{n}"), P, if q { 2 } else { 3 }, i));
    }
    let v = with_uptime(v, &["notified", "lossy"], &[10, 120]);
    let v = with_stalls(v, &["both-end", "lossy", "race/send", "race/recv", "race/flush", "race/close", "race/queued-send"], 1, STALLS);
    let v = with_pauses(v, &["both-end", "lossy", "race/send", "race/recv", "race/flush", "race/close", "race/queued-send"], 2, &[60, 400, 3000]);
    if q {
        v
    } else {
        with_stalls_n(v, &["race/send", "race/queued-send"], 2)
    }
}
