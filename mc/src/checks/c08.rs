//! C08: flush returns Ok only once everything sent has been acknowledged.

use super::*;
use crate::traffic::{self, *};
use std::cell::RefCell;
use std::collections::HashSet;
use std::net::SocketAddr;

/// the frames' contents that `m` is sent as
fn chunks(m: &[u8], r: Rel, mtu: u16) -> Vec<Vec<u8>> {
    match r {
        U | US => vec![],
        RO if m.len() >= mtu as usize - 60 => m.chunks(mtu as usize - 60).map(|c| c.to_vec()).collect(),
        _ => vec![m.to_vec()],
    }
}
/// When had all of `msgs` been acknowledged to `me`?  None: not yet.
pub(super) fn acked_at(me: SocketAddr, peer: SocketAddr, msgs: &[(Vec<u8>, Rel)], mtu: u16) -> Option<u64> {
    let tx = data_tx(&tap(), me, peer);
    let acks = acks_rx(&simrt::deliveries_from(0), peer, me);
    let mut last = 0;
    for (m, r) in msgs {
        for c in chunks(m, *r, mtu) {
            let nums: Vec<u32> = tx.iter().filter(|t| t.2.iter().any(|f| f.data == c)).map(|t| t.1).collect();
            let t = acks.iter().filter(|(_, rs)| nums.iter().any(|n| covers(rs, *n))).map(|a| a.0).min()?;
            last = last.max(t);
        }
    }
    Some(last)
}

/// One flush call: what had been accepted when it was made, when it was made, when and how it returned.
struct Call {
    before: Vec<(Vec<u8>, Rel)>,
    at: u64,
    out: Rc<RefCell<Option<(u64, Result<(), String>)>>>,
    job: Job<()>,
}
fn call(s: &Rc<RaknetSocket>, sent: &[(Vec<u8>, Rel)]) -> Call {
    let out = Rc::new(RefCell::new(None));
    let (o, s2) = (out.clone(), s.clone());
    simrt::log(|| "flush called".into());
    let job = go("flush", async move {
        let r = s2.flush().await.map_err(|e| format!("{e:?}"));
        simrt::log(|| format!("flush -> {r:?}"));
        *o.borrow_mut() = Some((simrt::now(), r));
    });
    Call { before: sent.to_vec(), at: simrt::now(), out, job }
}
/// `late`: also everything sent by the end, to bound how long flush may take
fn judge(c: &Call, me: SocketAddr, peer: SocketAddr, all: &[(Vec<u8>, Rel)], mtu: u16, closed: bool) -> Rz<String> {
    check!(!c.job.dead() || c.job.done(), "flush-panic", "flush panicked: {:?}", simrt::panics().last().map(|p| p.msg.clone()));
    match &*c.out.borrow() {
        None => {
            if let Some(t) = acked_at(me, peer, all, mtu) {
                let t = t.max(c.at);
                check!(simrt::now() < t + 250 * MS, "flush-hang", "flush called at {:.0} ms had not returned at {:.0} ms, though everything was acknowledged at {:.0} ms", c.at as f64 / 1e6, simrt::now() as f64 / 1e6, t as f64 / 1e6);
            }
            check!(!closed, "flush-hang", "flush had not returned although the connection was closed");
            Ok("pending".into())
        }
        Some((t, Ok(()))) => {
            match acked_at(me, peer, &c.before, mtu) {
                Some(a) if a <= *t => {}
                a => bail!("flush-early", "flush called at {:.1} ms returned Ok at {:.1} ms; the messages accepted before it ({}) were acknowledged {}", c.at as f64 / 1e6, *t as f64 / 1e6, c.before.iter().map(|m| show(&m.0)).collect::<Vec<_>>().join(" "), a.map(|a| format!("only at {:.1} ms", a as f64 / 1e6)).unwrap_or("never".into())),
            }
            if let Some(a) = acked_at(me, peer, all, mtu) {
                let a = a.max(c.at);
                check!(*t <= a + 200 * MS, "flush-late", "flush returned Ok at {:.1} ms; the last acknowledgement arrived at {:.1} ms", *t as f64 / 1e6, a as f64 / 1e6);
            }
            Ok(format!("ok@{}", t / MS))
        }
        Some((t, Err(e))) => {
            check!(closed && e == "ConnectionClosed", "flush-error", "flush returned {e} at {:.1} ms (connection closed: {closed})", *t as f64 / 1e6);
            Ok(format!("closed@{}", t / MS))
        }
    }
}

/// what the raw peer does with each data datagram for a while
fn react(c: &RawConn, ns: u64, budget: &mut u32, old: &mut Vec<u32>) {
    let d = simrt::now() + ns;
    loop {
        let got = RefCell::new(None);
        if simrt::run_until(d, || {
            *got.borrow_mut() = c.raw.try_recv();
            got.borrow().is_some()
        }) != simrt::Stop::Cond
        {
            simrt::advance_clock_to(d);
            return;
        }
        let Some((b, _)) = got.into_inner() else { return };
        if let Some((n, _)) = frames_of(&b) {
            if *budget == 0 {
                c.bytes(&wire::ack(&[(n, n)]));
                continue;
            }
            match pick(4) {
                0 => c.bytes(&wire::ack(&[(n, n)])),
                1 => {
                    *budget -= 1;
                    old.push(n);
                }
                2 => {
                    *budget -= 1;
                    c.bytes(&wire::nack(&[(n, n)]));
                    old.push(n);
                }
                _ => {
                    *budget -= 1;
                    // twice
                    c.bytes(&wire::ack(&[(n, n)]));
                    c.bytes(&wire::ack(&[(n, n)]));
                }
            }
        }
    }
}

const RELS: [(Rel, usize); 6] = [(RO, 20), (R, 21), (RS, 22), (U, 23), (RO, 1400), (US, 24)];

fn raw_acks(name: &str, n: usize, budget: u32) -> Space {
    Space::new(name, format!("every sequence of {n} messages of 6 kinds, flush called before, between and after them; the peer acknowledges, ignores, reports missing or acknowledges twice each of the first {budget} datagrams; both sides"), move || {
        let side = pick(2);
        let (c, s, _l) = either_side(side)?;
        c.auto_ack.set(false);
        let (me, peer) = (c.peer, c.raw.addr);
        let mut sent = vec![];
        let mut calls = vec![call(&s, &sent)];
        let mut budget = budget;
        let mut old = vec![];
        let first = pick(n + 1);
        for i in 0..n {
            if i == first {
                calls.push(call(&s, &sent));
            }
            let (r, len) = RELS[pick(RELS.len())];
            let m = payload(10 + i as u32, len);
            must_send(&s, &m, r)?;
            sent.push((m, r));
            // part of the waiting time between two messages
            if i + 1 < n {
                react(&c, 8 * MS, &mut budget, &mut old);
            }
        }
        calls.push(call(&s, &sent));
        react(&c, 230 * MS, &mut budget, &mut old);
        for k in &calls {
            judge(k, me, peer, &sent, 1400, false)?;
        }
        // late acknowledgements of early transmissions
        for n in &old {
            c.bytes(&wire::ack(&[(*n, *n)]));
        }
        react(&c, 600 * MS, &mut budget, &mut old);
        calls.push(call(&s, &sent));
        react(&c, 300 * MS, &mut 0, &mut old);
        let mut o = vec![];
        for k in &calls {
            o.push(judge(k, me, peer, &sent, 1400, false)?);
        }
        check!(o.iter().all(|x| x != "pending"), "flush-hang", "flush still pending at the end: {o:?}");
        ok(o.join(" "))
    })
}
/// nothing is acknowledged: flush must not return
fn raw_none(name: &str) -> Space {
    Space::new(name, "no acknowledgement at all, or of all but one frame, or of other numbers only, for 3 s; then all", move || {
        let side = pick(2);
        let (c, s, _l) = either_side(side)?;
        c.auto_ack.set(false);
        let (me, peer) = (c.peer, c.raw.addr);
        let (r, len) = RELS[[0usize, 1, 2, 4][pick(4)]];
        let how = pick(5);
        let mut sent = vec![];
        for i in 0..2 {
            let m = payload(30 + i, len);
            must_send(&s, &m, r)?;
            sent.push((m, r));
        }
        let k = call(&s, &sent);
        let skip = chunks(&sent[1].0, r, 1400).pop().unwrap();
        let mut base = None;
        let until = simrt::now() + 3 * SEC;
        while simrt::now() < until {
            let Some((b, _)) = c.raw.recv(until - simrt::now()) else { break };
            let Some((n, fs)) = frames_of(&b) else { continue };
            base.get_or_insert(n);
            match how {
                0 => {}
                1 => {
                    if !fs.iter().any(|f| f.data == skip) {
                        c.bytes(&wire::ack(&[(n, n)]))
                    }
                }
                2 => c.bytes(&wire::ack(&[(n + 50, n + 60)])),
                3 => c.bytes(&wire::ack(&[(0, base.unwrap() - 1)])),
                _ => c.bytes(&wire::nack(&[(n, n)])),
            }
            judge(&k, me, peer, &sent, 1400, false)?;
        }
        judge(&k, me, peer, &sent, 1400, false)?;
        check!(k.out.borrow().is_none(), "flush-early", "flush returned");
        react(&c, 8 * SEC, &mut 0, &mut vec![]);
        let o = judge(&k, me, peer, &sent, 1400, false)?;
        check!(o.starts_with("ok"), "flush-hang", "after acknowledgement of everything: {o}");
        ok(format!("{how} {o}"))
    })
}

/// flush over a lossy network, called after every message
fn net(name: &str, script: Vec<Act>, kinds: &'static [Kind], total: u32, fates: Vec<Fate>) -> Space {
    let desc = format!("{}, flush called after each message, up to {total} deviations of {kinds:?}", traffic::brief(&script));
    let mask = kinds.iter().fold(0, |a, k| a | k.bit());
    Space::new(name, desc, move || {
        let p = pair()?;
        let (_a, _b) = (reader(&p.client), reader(&p.server));
        let mut sent = [vec![], vec![]];
        let mut calls = vec![];
        simrt::explore(mask | Kind::App.bit());
        let mut tag = 1;
        for a in &script {
            match a {
                Act::Wait(ms) => {
                    simrt::run_for(ms * MS);
                }
                Act::Send(d, r, len) => {
                    let i = if *d == traffic::Side::C { 0 } else { 1 };
                    let sock = if i == 0 { &p.client } else { &p.server };
                    let m = payload(tag + 1000 * i as u32, *len);
                    tag += 1;
                    must_send(sock, &m, *r)?;
                    sent[i].push((m, *r));
                    calls.push((i, call(sock, &sent[i])));
                }
            }
        }
        simrt::run_for(400 * MS);
        simrt::explore(0);
        let addr = [p.caddr, p.saddr];
        let d = simrt::now() + LIMIT;
        simrt::run_until(d, || calls.iter().all(|c| c.1.job.done() || c.1.job.dead()));
        let mut o = vec![];
        for (i, k) in &calls {
            let x = judge(k, addr[*i], addr[1 - *i], &sent[*i], 1400, false)?;
            check!(x != "pending", "flush-hang", "flush did not return within 20 s on a network that works again");
            o.push(x);
        }
        ok(o.join(" "))
    })
    .kinds(kinds)
    .total(total)
    .cfg(|c| c.fates = fates)
}

/// the connection ends while flush waits, or before it is called
fn ends(name: &str) -> Space {
    Space::new(name, "flush pending with unacknowledged data, or called afterwards, when the connection is closed here, by the peer's disconnect (raw or in a frame), by the listener's close, or for being idle", move || {
        let side = pick(2);
        let (c, s, mut l) = either_side(side)?;
        c.auto_ack.set(false);
        let unacked = pick(2) == 0;
        let mut sent = vec![];
        if unacked {
            let m = payload(5, 50);
            must_send(&s, &m, RO)?;
            sent.push((m, RO));
        }
        let pending = unacked.then(|| call(&s, &sent));
        simrt::run_for([0, 20, 50, 120][pick(4)] * MS);
        let how = pick(5);
        let limit = match how {
            0 => {
                check!(matches!(block(5 * SEC, s.close()), Ok(Ok(()))), "close", "close failed");
                100 * MS
            }
            1 => {
                c.bytes(&[0x15]);
                200 * MS
            }
            2 => {
                c.msg(RO, &[0x15]);
                200 * MS
            }
            3 => match &mut l {
                Some(l) => {
                    check!(matches!(block(20 * SEC, l.close()), Ok(Ok(()))), "close", "listener.close failed");
                    SEC
                }
                None => return ok("n/a"),
            },
            _ => 61 * SEC,
        };
        let before = pending.as_ref().map(|k| k.job.done());
        check!(before != Some(true) || how == 0 || how == 3, "flush-early", "flush returned {:?} before the end", pending.as_ref().unwrap().out.borrow());
        simrt::run_for(limit);
        let mut o = vec![format!("{how}")];
        if let Some(k) = &pending {
            let x = judge(k, c.peer, c.raw.addr, &sent, 1400, true)?;
            check!(x.starts_with("closed"), "flush-error", "flush returned Ok on a closed connection with unacknowledged data");
            o.push(x);
        }
        // called afterwards
        match block(SEC, s.flush()) {
            Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
            x => bail!("flush-after-close", "flush on a closed connection: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
        }
        ok(o.join(" "))
    })
}

/// tasks sending and flushing at the same time, and a close among them
fn tasks(name: &str, kinds: &'static [Kind], total: u32, with_close: bool) -> Space {
    let mask = kinds.iter().fold(0, |a, k| a | k.bit());
    Space::new(name, format!("two tasks that each send and flush twice{}, preempted at up to {total} points of {kinds:?}", if with_close { ", and a third that closes" } else { "" }), move || {
        let p = pair()?;
        let (_b, _c) = (reader(&p.server), reader(&p.client));
        simrt::explore(mask | Kind::App.bit());
        let all: Rc<RefCell<Vec<(Vec<u8>, Rel)>>> = Default::default();
        let bad: Rc<RefCell<Vec<(u64, Vec<(Vec<u8>, Rel)>, Result<(), String>)>>> = Default::default();
        let closing = Rc::new(std::cell::Cell::new(false));
        let gap = if with_close { [0, 7, 10, 12, 25][pick(5)] * MS } else { 0 };
        let mut js = vec![];
        for t in 0..2u32 {
            let (s, all, bad, closing) = (p.client.clone(), all.clone(), bad.clone(), closing.clone());
            js.push(go("sender", async move {
                for i in 0..2u32 {
                    let m = payload(100 * t + i, 30);
                    let r = if (t + i) % 2 == 0 { RO } else { R };
                    match s.send(&m, rel(r)).await {
                        Ok(()) => all.borrow_mut().push((m, r)),
                        Err(_) => {
                            assert!(closing.get());
                            return;
                        }
                    }
                    let before = all.borrow().clone();
                    let r = s.flush().await.map_err(|e| format!("{e:?}"));
                    bad.borrow_mut().push((simrt::now(), before, r));
                }
            }));
        }
        if with_close {
            let (s, closing) = (p.client.clone(), closing.clone());
            js.push(go("closer", async move {
                simrt::sleep(gap).await;
                closing.set(true);
                let _ = s.close().await;
            }));
        }
        simrt::run_for(300 * MS);
        simrt::explore(0);
        let d = simrt::now() + 10 * SEC;
        simrt::run_until(d, || js.iter().all(|j| j.done() || j.dead()));
        for j in &js {
            check!(j.done(), if j.dead() { "flush-panic" } else { "flush-hang" }, "{} did not finish; panics {:?}", j.name, simrt::panics().iter().map(|p| p.msg.clone()).collect::<Vec<_>>());
        }
        let seen: HashSet<Vec<u8>> = data_rx(&simrt::deliveries_from(0), p.caddr, p.saddr).into_iter().flat_map(|d| d.2).map(|f| f.data).collect();
        let mut o = vec![];
        for (t, before, r) in bad.borrow().iter() {
            match r {
                Ok(()) => {
                    check!(acked_at(p.caddr, p.saddr, before, 1400).is_some_and(|a| a <= *t), "flush-early", "flush returned Ok at {:.1} ms before the messages accepted earlier were acknowledged (arrived at the peer: {})", *t as f64 / 1e6, before.iter().all(|m| seen.contains(&m.0)));
                    o.push(format!("{}", t / MS));
                }
                Err(e) => {
                    check!(closing.get() && e == "ConnectionClosed", "flush-error", "flush failed with {e}");
                    o.push("closed".into());
                }
            }
        }
        ok(o.join(" "))
    })
    .kinds(kinds)
    .total(total)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        raw_acks("raw/acks", if q { 3 } else { 3 }, if q { 2 } else { 4 }),
        raw_none("raw/withheld"),
        ends("ends"),
        net("net/one-way", vec![c(RO, 10), c(R, 11), w(20), c(RS, 12), c(U, 13)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        net("net/both", vec![c(RO, 10), s(R, 11), c(RO, 1400), s(RO, 12)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        tasks("tasks/send-flush", &[Kind::Sched, Kind::Yield, Kind::Sync, Kind::Select], if q { 2 } else { 3 }, false),
        tasks("tasks/send-flush-close", &[Kind::Sched, Kind::Yield, Kind::Sync, Kind::Select], if q { 2 } else { 3 }, true),
    ];
    v.push(net("scale/queue", (0..if q { 150 } else { 400 }).map(|i| c([RO, R, RS][i % 3], 10 + i)).collect(), &[Kind::Fate], 1, FATES_3()));
    v.push(net("net/send-errors", vec![c(RO, 10), s(RO, 11), c(R, 12), w(60), c(RS, 13)], &[Kind::Env], if q { 3 } else { 4 }, vec![]));
    if !q {
        v.push(net("net/losses", vec![c(RO, 10), c(RO, 11), c(RO, 12)], &[Kind::Fate], 6, FATES_DROP()));
    }
    let v = with_uptime(v, &["raw/withheld", "net/one-way"], &[10, 120]);
    let v = with_counters(v, &["raw/withheld", "net/one-way"]);
    let v = with_stalls(v, &["tasks/send-flush", "tasks/send-flush-close"], 1, STALLS);
    let v = with_pauses(v, &["tasks/send-flush", "tasks/send-flush-close"], 2, &[60, 400, 3000]);
    let v = with_stalls_n(v, &["tasks/send-flush"], 2);
    v
}
