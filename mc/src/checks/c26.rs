//! C26: a call that its caller gives up (select!, timeout) harms nothing else.

use super::*;
use crate::traffic;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::task::Poll;

/// how a call is given up
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// it is not
    Never,
    /// as soon as its n-th poll left it waiting
    AtPoll(u32),
    /// n polls left it waiting, then something wakes it, but it is dropped instead of polled
    AtWake(u32),
    /// after so many milliseconds
    After(u64),
}
use How::*;

/// Ok: the call completed, Err: it was given up
async fn given_up<T>(how: How, fut: impl Future<Output = T>) -> Result<T, ()> {
    let mut fut = Box::pin(fut);
    let mut timer: Option<Pin<Box<dyn Future<Output = ()>>>> = match how {
        After(ms) => Some(Box::pin(simrt::sleep(ms * MS))),
        _ => None,
    };
    let mut polls = 0;
    std::future::poll_fn(move |cx| {
        if how == AtWake(polls) && polls > 0 {
            return Poll::Ready(Err(()));
        }
        if let Some(t) = &mut timer {
            // as select! does when the timer is looked at first
            if t.as_mut().poll(cx).is_ready() {
                return Poll::Ready(Err(()));
            }
        }
        match fut.as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Ok(v)),
            Poll::Pending => {
                polls += 1;
                if how == AtPoll(polls) {
                    return Poll::Ready(Err(()));
                }
                Poll::Pending
            }
        }
    })
    .await
}
fn all(kinds: &[Kind]) -> u32 {
    kinds.iter().fold(Kind::App.bit(), |a, k| a | k.bit())
}

/// recv given up again and again, with another reader or without
fn recv(name: &str, calls: usize, menu: Vec<How>, readers: usize, kinds: &'static [Kind], total: u32) -> Space {
    Space::new(
        name,
        format!("{readers} readers of one connection; the first {calls} calls of recv of one of them end in every combination of {menu:?}; the peer sends messages of every reliability; both sides; up to {total} deviations of {kinds:?}"),
        move || {
            let p = pair()?;
            let side = pick(2);
            let (here, there) = if side == 0 { (p.client.clone(), p.server.clone()) } else { (p.server.clone(), p.client.clone()) };
            let pattern: Vec<How> = (0..calls).map(|_| menu[pick(menu.len())]).collect();
            let what = format!("{} recv {pattern:?}", ["client", "server"][side]);
            simrt::explore(all(kinds));
            let got: Rc<RefCell<Vec<Vec<u8>>>> = Default::default();
            let gone = Rc::new(Cell::new(0));
            let mut jobs = vec![];
            for r in 0..readers {
                let (here, got, gone) = (here.clone(), got.clone(), gone.clone());
                let pattern = if r == 0 { pattern.clone() } else { vec![] };
                jobs.push(go("reader", async move {
                    let mut i = 0;
                    loop {
                        match given_up(pattern.get(i).copied().unwrap_or(Never), here.recv()).await {
                            Ok(Ok(m)) => got.borrow_mut().push(m),
                            Ok(Err(_)) => break,
                            Err(()) => gone.set(gone.get() + 1),
                        }
                        i += 1;
                    }
                }));
            }
            let msgs: Vec<(Rel, Vec<u8>)> = [(RO, 10), (U, 11), (R, 12), (RO, 3000), (RS, 13), (RO, 14), (US, 15), (RO, 16)].iter().enumerate().map(|(i, (r, n))| (*r, payload(i as u32, *n))).collect();
            let j = {
                let (there, msgs) = (there.clone(), msgs.clone());
                go("peer", async move {
                    for (i, (r, m)) in msgs.iter().enumerate() {
                        if there.send(m, rel(*r)).await.is_err() {
                            return false;
                        }
                        if i % 3 == 1 {
                            simrt::sleep(30 * MS).await;
                        }
                    }
                    true
                })
            };
            let d = simrt::now() + 10 * SEC;
            simrt::run_until(d, || j.done() && got.borrow().len() >= msgs.len());
            simrt::run_for(500 * MS);
            no_panic("recv")?;
            let lossy = kinds.contains(&Kind::Fate);
            let g = got.borrow().clone();
            for (r, m) in &msgs {
                let n = g.iter().filter(|x| *x == m).count();
                let must = matches!(r, RO | R) || !lossy && *r != RS && *r != US;
                check!(!must || n > 0, "recv-lost", "{what}: the {r:?} message {} was never returned, after {} calls given up; returned: {}", show(m), gone.get(), shows(&g));
                check!(n < 2 || lossy && matches!(r, R | U), "recv-twice", "{what}: the {r:?} message {} was returned {n} times", show(m));
            }
            if readers == 1 {
                let order: Vec<&Vec<u8>> = g.iter().filter(|m| msgs.iter().any(|(r, x)| *r == RO && x == *m)).collect();
                let want: Vec<&Vec<u8>> = msgs.iter().filter(|(r, _)| *r == RO).map(|(_, m)| m).collect();
                check!(order == want, "recv-order", "{what}: ordered messages returned as {}", shows(&g));
            }
            for m in &g {
                check!(msgs.iter().any(|(_, x)| x == m), "recv-invented", "{what}: {} was returned", show(m));
            }
            ok(format!("{} given up; {}", gone.get(), shows(&g)))
        },
    )
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = traffic::FATES_DDD())
}

/// accept given up again and again
fn accepting(name: &str, calls: usize, menu: Vec<How>, kinds: &'static [Kind], total: u32) -> Space {
    Space::new(
        name,
        format!("2 clients connect; the first {calls} calls of accept end in every combination of {menu:?}; up to {total} deviations of {kinds:?}"),
        move || {
            let l = listen_at(server_addr())?;
            let pattern: Vec<How> = (0..calls).map(|_| menu[pick(menu.len())]).collect();
            let what = format!("accept {pattern:?}");
            simrt::explore(all(kinds));
            let got: Rc<RefCell<Vec<Rc<RaknetSocket>>>> = Default::default();
            let g2 = got.clone();
            let mut l = l;
            let j = go("accept", async move {
                for i in 0.. {
                    match given_up(pattern.get(i).copied().unwrap_or(Never), l.accept()).await {
                        Ok(Ok(s)) => g2.borrow_mut().push(Rc::new(s)),
                        Ok(Err(_)) => break,
                        Err(()) => {}
                    }
                }
            });
            let a = connect_to(server_addr(), None);
            simrt::run_for(20 * MS);
            let b = connect_to(server_addr(), None);
            let mut cs = vec![];
            for j in [a, b] {
                match j.wait(15 * SEC) {
                    Some(Ok(c)) => cs.push(c),
                    x => bail!("accept-connect", "{what}: connect: {:?}", x.map(|r| r.map(|_| ()))),
                }
            }
            let d = simrt::now() + 5 * SEC;
            simrt::run_until(d, || got.borrow().len() == 2);
            simrt::explore(Kind::App.bit());
            simrt::run_for(500 * MS);
            let ss = got.borrow().clone();
            check!(ss.len() == 2, "accept-lost", "{what}: 2 clients are connected, accept returned {} sockets", ss.len());
            for c in &cs {
                let at = c.local_addr().unwrap().port();
                let s = match ss.iter().filter(|s| s.peer_addr().unwrap().port() == at).collect::<Vec<_>>()[..] {
                    [s] => s.clone(),
                    ref v => bail!("accept-lost", "{what}: {} sockets for the client at port {at}", v.len()),
                };
                let (x, y) = (payload(1, 20), payload(2, 2000));
                must_send(c, &x, RO)?;
                must_send(&s, &y, RO)?;
                match (block(5 * SEC, s.recv()), block(5 * SEC, c.recv())) {
                    (Ok(Ok(a)), Ok(Ok(b))) if a == x && b == y => {}
                    _ => bail!("accept-dead", "{what}: the accepted connection does not work"),
                }
            }
            no_panic("accept")?;
            j.abort();
            ok("2")
        },
    )
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = traffic::FATES_DROP())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Send(Rel, usize),
    Flush,
    Close,
}

/// A call is given up while more is queued than goes out at once, or while others use the connection.
fn sending(name: &str, calls: Vec<Call>, backlog: Vec<usize>, how: Vec<How>, gaps: Vec<u64>, kinds: &'static [Kind], total: u32, early: bool) -> Space {
    Space::new(
        name,
        format!("one of {calls:?} is given up in one of the ways {how:?}, {gaps:?} ms after {backlog:?} messages of every reliability that had to wait for an acknowledgement; another task sends, too{}; up to {total} deviations of {kinds:?}; both sides", if early { " (a little later); deviations from the first message on" } else { "" }),
        move || {
            let p = pair()?;
            let side = pick(2);
            let (here, there) = if side == 0 { (p.client.clone(), p.server.clone()) } else { (p.server.clone(), p.client.clone()) };
            let (ha, ta) = if side == 0 { (p.caddr, p.saddr) } else { (p.saddr, p.caddr) };
            let call = calls[pick(calls.len())];
            let n = backlog[pick(backlog.len())];
            let how = how[pick(how.len())];
            let gap = gaps[pick(gaps.len())];
            let what = format!("{} {call:?} {how:?} {gap} ms after {n} messages", ["client", "server"][side]);
            let (log, _r) = reader(&there);
            let sent: Rc<RefCell<Vec<(Rel, Vec<u8>, bool)>>> = Default::default();
            // one that waits for its acknowledgement, and those that wait for it
            let mut first = vec![(R, payload(1000, 30))];
            first.extend((0..n).map(|i| ([U, RO, R, U, US, RS][i % 6], payload(i as u32, 10 + i % 5))));
            if early {
                simrt::explore(all(kinds));
            }
            let t0 = simrt::now();
            for (r, m) in first {
                must_send(&here, &m, r)?;
                sent.borrow_mut().push((r, m, true));
            }
            // how much of the gap has passed
            let gap = (gap * MS).saturating_sub(simrt::now() - t0);
            simrt::explore(all(kinds));
            let other = {
                let (here, sent) = (here.clone(), sent.clone());
                go("other", async move {
                    simrt::sleep(gap + if early { 3 * MS } else { 0 }).await;
                    for i in 0..3u32 {
                        let m = payload(600 + i, 25);
                        let r = [U, RO, R][i as usize];
                        let done = here.send(&m, rel(r)).await.is_ok();
                        sent.borrow_mut().push((r, m, done));
                    }
                })
            };
            let j = {
                let here = here.clone();
                go("call", async move {
                    simrt::sleep(gap).await;
                    match call {
                        Call::Send(r, len) => given_up(how, here.send(&payload(777, len), rel(r))).await.map(|r| r.is_ok()),
                        Call::Flush => given_up(how, here.flush()).await.map(|r| r.is_ok()),
                        Call::Close => given_up(how, here.close()).await.map(|r| r.is_ok()),
                    }
                })
            };
            let d = simrt::now() + 3 * SEC;
            simrt::run_until(d, || j.done() && other.done());
            simrt::run_for(300 * MS);
            no_panic("sending")?;
            check!(other.done(), "send-hang", "{what}: a send of another task does not return");
            let gave = match j.take() {
                Some(r) => r.is_err(),
                None => {
                    // nothing woke it
                    check!(matches!(how, AtWake(_)), "call-hang", "{what}: neither completed nor given up");
                    j.abort();
                    true
                }
            };
            if call == Call::Close {
                match block(2 * SEC, here.close()) {
                    Ok(Ok(())) => {}
                    x => bail!("close-again", "{what}: close called again: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                }
                let d = simrt::now() + 5 * SEC;
                simrt::run_until(d, || log.end().is_some());
                check!(log.end().as_deref() == Some("ConnectionClosed"), "close-again", "{what}, then close: the peer's recv ends with {:?}", log.end());
                check!(matches!(block(2 * SEC, here.flush()), Ok(Err(_))), "close-again", "{what}, then close: flush still succeeds");
                return ok(format!("{gave}"));
            }
            // used afterwards
            let after: Vec<(Rel, Vec<u8>)> = vec![(RO, payload(900, 40)), (R, payload(901, 2)), (RO, payload(902, 3000))];
            for (r, m) in &after {
                must_send(&here, m, *r)?;
                sent.borrow_mut().push((*r, m.clone(), true));
            }
            match block(10 * SEC, here.flush()) {
                Ok(Ok(())) => {}
                x => bail!("flush", "{what}: flush afterwards: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
            }
            simrt::run_for(300 * MS);
            no_panic("sending")?;
            let g = log.msgs();
            let tap = tap();
            let tx = data_tx(&tap, ha, ta);
            for (r, m, done) in sent.borrow().iter().filter(|s| s.2) {
                let n = g.iter().filter(|x| *x == m).count();
                let w = tx.iter().flat_map(|(_, _, f)| f).filter(|f| f.data == *m).count();
                check!(*done && (n > 0 || matches!(r, US | RS)), "send-lost", "{what}: the {r:?} message {}, whose send had returned Ok, was transmitted {w} times and never returned", show(m));
                if matches!(r, U | US) {
                    check!(w == 1, "send-count", "{what}: the {r:?} message {} was transmitted {w} times", show(m));
                }
                check!(n <= 1 || *r == R || *r == U, "send-twice", "{what}: the {r:?} message {} was returned {n} times", show(m));
            }
            // each task's ordered messages in order
            let ro: Vec<&Vec<u8>> = g.iter().filter(|m| sent.borrow().iter().any(|(r, x, _)| *r == RO && x == *m)).collect();
            let queued: Vec<Vec<u8>> = sent.borrow().iter().filter(|s| s.0 == RO && s.2).map(|s| s.1.clone()).collect();
            check!(ro.iter().map(|m| (*m).clone()).collect::<Vec<_>>() == queued, "send-order", "{what}: ordered messages returned as {}", shows(&g));
            if let Call::Send(r, len) = call {
                let m = payload(777, len);
                let n = g.iter().filter(|x| **x == m).count();
                check!(n <= 1 || r == R, "send-twice", "{what}: its message was returned {n} times");
                check!(gave || n == 1 || matches!(r, US | RS), "send-lost", "{what}: it completed, but its message was returned {n} times");
            }
            for m in &g {
                check!(*m == payload(777, if let Call::Send(_, l) = call { l } else { 0 }) || sent.borrow().iter().any(|s| s.1 == *m), "send-invented", "{what}: {} was returned", show(m));
            }
            ok(format!("{gave} {}", g.len()))
        },
    )
    .kinds(kinds)
    .total(total)
}

/// close of the listener given up, in various states; then closed again, or dropped
fn listener(name: &str, how: Vec<How>, kinds: &'static [Kind], total: u32) -> Space {
    Space::new(
        name,
        format!("RaknetListener::close given up in one of the ways {how:?}, once or twice, with 0 to 2 connections, accepted or not, or one in the middle of its handshake; then close again or drop; up to {total} deviations of {kinds:?}"),
        move || {
            let mut l = listen_at(server_addr())?;
            let state = pick(5);
            let first = how[pick(how.len())];
            let second = [Never, first][pick(2)];
            let dropped = pick(2) == 1;
            let what = format!("close {first:?}, then {second:?}, then {} with {}", if dropped { "drop" } else { "close" }, ["no connection", "one accepted", "one not accepted", "one accepted and one not", "a handshake under way"][state]);
            let mut socks: Vec<Rc<RaknetSocket>> = vec![];
            let mut js = vec![];
            if matches!(state, 1 | 3) {
                let (c, s) = join(&mut l, server_addr())?;
                socks.extend([c, s]);
            }
            if matches!(state, 2 | 3) {
                match connect_to(server_addr(), None).wait(10 * SEC) {
                    Some(Ok(c)) => socks.push(c),
                    _ => bail!("setup: connect", "connect"),
                }
            }
            if state == 4 {
                js.push(connect_to(server_addr(), None));
                simrt::run_for(15 * MS);
            }
            let logs: Vec<Log> = socks.iter().map(|s| reader(s).0).collect();
            simrt::run_for(100 * MS);
            simrt::explore(all(kinds));
            let mut once = |how: How, limit: u64| block(limit, given_up(how, l.close()));
            let a = once(first, 20 * SEC);
            simrt::run_for(pick(3) as u64 * 60 * MS);
            let b = if second != Never { Some(once(second, 20 * SEC)) } else { None };
            for r in [Some(a), b].into_iter().flatten() {
                match r {
                    Ok(Ok(Ok(()))) | Ok(Err(())) => {}
                    Err(Stuck::Hang) if matches!(first, AtWake(_)) => {}
                    x => bail!("close", "{what}: {:?}", x.map(|r| r.map(|r| r.map_err(|e| format!("{e:?}")))).map_err(|e| e.text())),
                }
            }
            if !dropped {
                match once(Never, 20 * SEC) {
                    Ok(Ok(Ok(()))) => {}
                    x => bail!("close-again", "{what}: {:?}", x.map(|r| r.map(|r| r.map_err(|e| format!("{e:?}")))).map_err(|e| e.text())),
                }
                simrt::explore(Kind::App.bit());
                match block(SEC, bind(&server_addr())) {
                    Ok(Ok(_)) => {}
                    _ => bail!("address", "{what}: close returned Ok, but the address cannot be bound"),
                }
                match block(SEC, l.accept()) {
                    Ok(Err(_)) => {}
                    x => bail!("accept", "{what}: accept afterwards: {:?}", x.map(|r| r.map(|_| ()).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                }
                check!(matches!(block(SEC, l.close()), Ok(Ok(()))), "close-again", "{what}: close after that fails");
            } else {
                std::mem::drop(l);
                let d = simrt::now() + 15 * SEC;
                let mut free = false;
                while !free && simrt::now() < d {
                    free = matches!(block(SEC, bind(&server_addr())), Ok(Ok(_)));
                    simrt::run_for(100 * MS);
                }
                check!(free, "address", "{what}: the address cannot be bound 15 s later");
            }
            let d = simrt::now() + 15 * SEC;
            simrt::run_until(d, || logs.iter().all(|l| l.end().is_some()));
            for (l, s) in logs.iter().zip(&socks) {
                check!(l.end().is_some(), "alive", "{what}: the connection {} - {} is still open 15 s later", s.local_addr().unwrap(), s.peer_addr().unwrap());
            }
            no_panic("listener")?;
            ok("")
        },
    )
    .kinds(kinds)
    .total(total)
}

const P: &[Kind] = &[Kind::Sched, Kind::Yield, Kind::Sync, Kind::Select];

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let few = || vec![Never, AtPoll(1), AtWake(1), After(3)];
    let many = || vec![Never, AtPoll(1), AtPoll(2), AtWake(1), AtWake(2), After(0), After(1), After(10), After(31)];
    let hows = || vec![AtPoll(1), AtPoll(2), AtPoll(3), AtPoll(4), AtPoll(6), AtWake(1), AtWake(2), AtWake(3), AtWake(5), After(0), After(1), After(20)];
    let sends = || vec![Call::Send(U, 50), Call::Send(RO, 50), Call::Send(R, 50), Call::Send(RO, 20000), Call::Send(US, 50), Call::Send(RS, 50)];
    let v = vec![
        recv("recv/one", if q { 3 } else { 5 }, if q { many() } else { many() }, 1, &[], 0),
        recv("recv/two-readers", if q { 3 } else { 4 }, many(), 2, &[], 0),
        recv("recv/faults", 2, few(), 1, &[Kind::Fate], if q { 1 } else { 2 }),
        recv("recv/schedules", 2, few(), 2, P, if q { 1 } else { 2 }),
        accepting("accept", if q { 3 } else { 5 }, vec![Never, AtPoll(1), AtWake(1), After(1), After(11), After(13), After(40)], &[], 0),
        accepting("accept/faults", 2, few(), &[Kind::Fate], if q { 1 } else { 2 }),
        accepting("accept/schedules", 2, few(), P, if q { 1 } else { 2 }),
        sending("send", sends(), vec![0, 3, 12, 40], hows(), vec![0, 5, 11, 12, 21, 25, 30, 40, 49, 50, 51, 60, 100], &[], 0, false),
        sending("send/schedules", if q { vec![Call::Send(RO, 50), Call::Send(U, 50)] } else { sends() }, vec![30], vec![AtPoll(1), AtPoll(2), AtWake(1)], if q { vec![21, 50] } else { vec![0, 21, 50, 100] }, P, 1, false),
        sending("send/full", if q { vec![Call::Send(RO, 50), Call::Send(U, 50)] } else { sends() }, if q { vec![9, 10, 11, 20] } else { (7..=14).chain([20, 21]).collect() }, vec![AtPoll(1), AtPoll(2), AtPoll(3), After(1)], if q { vec![11, 21] } else { vec![6, 11, 21, 45] }, P, 1, true),
        sending("flush-close", vec![Call::Flush, Call::Close], vec![0, 3, 12, 40], hows(), vec![0, 5, 21, 49, 50, 51, 60, 100], &[], 0, false),
        listener("listener", vec![AtPoll(1), AtPoll(2), AtPoll(3), AtWake(1), AtWake(2), AtWake(3), After(0), After(10), After(30), After(60), After(110)], &[], 0),
        listener("listener/schedules", vec![AtPoll(1), AtWake(1), After(30)], P, if q { 1 } else { 2 }),
    ];
    let v = with_std(v, &["listener"]);
    let v = with_stalls(v, &["recv/faults", "accept/faults", "send/schedules", "listener/schedules"], 1, STALLS);
    let v = if q { v } else { with_stalls(v, &["send/full"], 1, &[12, 70]) };
    let v = with_pauses(v, &["recv/faults", "accept/faults", "send/schedules", "listener/schedules"], 1, &[60, 400, 3000]);
    v
}
