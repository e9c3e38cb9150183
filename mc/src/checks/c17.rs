//! C17: closing a listener completes, ends every session and frees the port.

use super::*;
use crate::traffic::{self, *};

/// "within a bounded time"; sessions end within a tick or two
const BOUND: u64 = 5 * SEC;
/// a socket on the listener's end has closed
const FEW: u64 = 3 * SEC;

const STATES: [&str; 21] = [
    "bound, not listening",
    "listening",
    "a request 1 answered",
    "a request 2 answered",
    "a request 2 in flight",
    "a connection request in flight",
    "a raw client connected, not accepted",
    "a raw client connected and accepted",
    "a client connected, not accepted",
    "a client connected and accepted",
    "an accepted socket just closed",
    "an accepted socket just dropped",
    "a client just closed",
    "a client just dropped",
    "a disconnect datagram in flight",
    "12 raw clients, half of them accepted",
    "12 raw clients that disconnect",
    "messages unread and unacknowledged",
    "a client connecting",
    "two clients connecting",
    "an accepted socket closed a second ago",
];

#[derive(Default)]
struct World {
    raws: Vec<RawConn>,
    clients: Vec<Rc<RaknetSocket>>,
    accepted: Vec<Rc<RaknetSocket>>,
    connecting: Vec<Job<Result<Rc<RaknetSocket>, String>>>,
}
fn raw_at(p: u16) -> Raw {
    Raw::new(sa(&format!("127.0.0.1:{p}")))
}
fn acc(l: &mut RaknetListener, w: &mut World) -> Rz<()> {
    match accept(l, SEC) {
        Ok(Ok(s)) => w.accepted.push(s),
        _ => bail!("setup: accept", "not accepted"),
    }
    Ok(())
}
/// a library client and its accepted socket, among others
fn own(l: &mut RaknetListener, w: &mut World) -> Rz<(Rc<RaknetSocket>, Rc<RaknetSocket>)> {
    let c = match connect_to(server_addr(), None).wait(5 * SEC) {
        Some(Ok(c)) => c,
        _ => bail!("setup: connect", "connect failed"),
    };
    loop {
        acc(l, w)?;
        if w.accepted.last().unwrap().peer_addr().unwrap().port() == c.local_addr().unwrap().port() {
            return Ok((c, w.accepted.pop().unwrap()));
        }
    }
}
/// bring the listener into a state
fn enter(k: usize, l: &mut RaknetListener, w: &mut World) -> Rz<()> {
    if k == 0 {
        return Ok(());
    }
    let base = 50001 + 100 * w.raws.len() as u16;
    if block(SEC, l.listen()).is_err() {
        bail!("setup: listen", "listen hangs");
    }
    let raw_conn = |p| RawConn::new(raw_at(p), server_addr(), 1400);
    match k {
        2 | 3 | 4 | 5 => {
            let x = raw_conn(base);
            x.bytes(&wire::req1(10, 1371));
            x.pump(20 * MS);
            if k == 3 || k == 5 {
                x.bytes(&wire::req2(&server_addr(), 1400, 1));
                x.pump(20 * MS);
            }
            match k {
                4 => x.raw.send(server_addr(), &wire::req2(&server_addr(), 1400, 1)),
                5 => {
                    x.msg(RO, &wire::m_conn_request(1, 1));
                }
                _ => {}
            }
            w.raws.push(x);
        }
        6 | 7 => {
            w.raws.push(raw_client(sa(&format!("127.0.0.1:{base}")), server_addr(), 1400)?);
            if k == 7 {
                acc(l, w)?;
            }
        }
        8 => {
            let j = connect_to(server_addr(), None);
            match j.wait(5 * SEC) {
                Some(Ok(c)) => w.clients.push(c),
                _ => bail!("setup: connect", "connect failed"),
            }
        }
        9..=14 | 17 | 20 => {
            let (c, s) = own(l, w)?;
            simrt::run_for(100 * MS);
            match k {
                10 | 20 => {
                    let s = s.clone();
                    go("close", async move { s.close().await });
                    if k == 20 {
                        simrt::run_for(SEC);
                    }
                }
                12 => {
                    let c = c.clone();
                    go("close", async move { c.close().await });
                }
                14 => {
                    let a = s.peer_addr().unwrap();
                    simrt::inject(a, server_addr(), &[0x15], 5 * MS);
                }
                17 => {
                    for i in 0..120 {
                        must_send(&c, &payload(i, 20), RO)?;
                    }
                    simrt::run_for(200 * MS);
                    simrt::set_fates(vec![Fate::Drop]);
                    simrt::set_fate_filter(Some(std::sync::Arc::new(|_, _, d: &[u8]| d[0] != 0x15)));
                    for i in 0..5 {
                        must_send(&c, &payload(200 + i, 1500), RO)?;
                        must_send(&s, &payload(300 + i, 1500), RO)?;
                    }
                }
                _ => {}
            }
            if k == 11 {
                drop(s);
            } else {
                w.accepted.push(s);
            }
            if k == 13 {
                drop(c);
            } else {
                w.clients.push(c);
            }
        }
        15 | 16 => {
            for i in 0..12 {
                w.raws.push(raw_client(sa(&format!("127.0.0.1:{}", base + i)), server_addr(), 1400)?);
                if i % 2 == 0 {
                    acc(l, w)?;
                }
            }
            if k == 16 {
                for r in &w.raws {
                    r.bytes(&[0x15]);
                }
            }
        }
        18 | 19 => {
            for _ in 18..=k {
                w.connecting.push(connect_to(server_addr(), None));
            }
        }
        _ => {}
    }
    Ok(())
}
/// what must be true once the listener is closed or gone
fn aftermath(w: &mut World, what: &str) -> Rz<()> {
    let d = simrt::now() + FEW;
    // both ends of every connection
    for (who, v) in [("accepted socket", &w.accepted), ("client", &w.clients)] {
        for s in v {
            closed(who, s, d, what)?;
        }
    }
    for r in &w.raws {
        let told = r.pump_until(FEW, || r.got.borrow().iter().any(|(_, b)| b == &[0x15]));
        // a peer that has a connection, as it sees it, is told
        let has = r.pkts().iter().any(|p| matches!(p.1, Pkt::Rep2 { .. } | Pkt::Frames { .. }));
        check!(told || !has, "listener-silent", "{what}: a connected peer was not told");
    }
    no_panic("listener")?;
    Ok(())
}
fn closed(who: &str, s: &Rc<RaknetSocket>, d: u64, what: &str) -> Rz<()> {
    loop {
        match block(SEC, s.send(&payload(901, 5), rel(U))) {
            Ok(Err(e)) => {
                check!(format!("{e:?}") == "ConnectionClosed", "listener-send", "{what}: send on the {who}: {e:?}");
                break;
            }
            Ok(Ok(())) => {}
            Err(e) => bail!("listener-send", "{what}: send on the {who} {}", e.text()),
        }
        check!(simrt::now() < d, "listener-open", "{what}: the {who} is still open {} s later", FEW / SEC);
        simrt::run_for(20 * MS);
    }
    for _ in 0..200 {
        match block(15 * SEC, s.recv()) {
            Ok(Ok(_)) => {}
            Ok(Err(e)) => {
                check!(format!("{e:?}") == "ConnectionClosed", "listener-recv", "{what}: recv on the {who}: {e:?}");
                return Ok(());
            }
            Err(e) => bail!("listener-recv", "{what}: recv on the {who} {}", e.text()),
        }
    }
    found("listener-recv", format!("{what}: recv on the {who} never ends"))
}
/// the address is free, and what is bound to it works
fn reusable(what: &str) -> Rz<()> {
    let d = simrt::now() + BOUND;
    let mut l2 = loop {
        match block(SEC, bind(&server_addr())) {
            Ok(Ok(l)) => break l,
            Ok(Err(e)) => check!(simrt::now() < d, "listener-rebind", "{what}: the address cannot be bound: {e:?}"),
            Err(e) => bail!("listener-rebind", "{what}: bind {}", e.text()),
        }
        simrt::run_for(20 * MS);
    };
    if block(SEC, l2.listen()).is_err() {
        bail!("listener-rebind", "{what}: listen hangs");
    }
    simrt::set_next_port(61000);
    simrt::set_fates(vec![Fate::Deliver]);
    simrt::set_fate_filter(None);
    let c = match connect_to(server_addr(), None).wait(5 * SEC) {
        Some(Ok(c)) => c,
        x => bail!("listener-rebind", "{what}: a client of a new listener: {:?}", x.map(|r| r.map(|_| ()))),
    };
    // clients of the old listener may have connected to this one
    let s = loop {
        match accept(&mut l2, SEC) {
            Ok(Ok(s)) if s.peer_addr().unwrap().port() == c.local_addr().unwrap().port() => break s,
            Ok(Ok(_)) => {}
            _ => bail!("listener-rebind", "{what}: a client of a new listener was not accepted"),
        }
    };
    must_send(&c, &payload(1, 2000), RO)?;
    match block(3 * SEC, s.recv()) {
        Ok(Ok(m)) if m == payload(1, 2000) => {}
        x => bail!("listener-rebind", "{what}: no data over a new listener: {:?}", x.map(|r| r.map(|m| show(&m)).map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
    }
    Ok(())
}
/// connects that were under way end, one way or the other, and do not leave anything open on the old listener
fn connects(w: &World, what: &str, lossy: bool) -> Rz<()> {
    for j in &w.connecting {
        if let Some(Ok(c)) = j.take() {
            if !lossy {
                closed("client that was connecting", &c, simrt::now() + FEW, what)?;
            }
        }
    }
    Ok(())
}

/// the listener is closed or dropped `after` ms into a state
fn ends(name: &str, two: bool, states: Vec<usize>, after: &'static [u64], kinds: &'static [Kind], total: u32, fates: fn() -> Vec<Fate>) -> Space {
    let names: Vec<_> = states.iter().map(|k| STATES[*k]).collect();
    Space::new(name, format!("close and drop of a listener that is in one of {} states ({}), {after:?} ms into it; up to {total} deviations", states.len(), names.join("; ")), move || {
        let k = states[pick(states.len())];
        let drop_it = pick(2) == 1;
        let t = after[pick(after.len())];
        let mut l = match block(SEC, bind(&server_addr())) {
            Ok(Ok(l)) => l,
            _ => bail!("setup: bind", "bind failed"),
        };
        let mut w = World::default();
        let mut name = STATES[k].to_string();
        if two {
            let k1 = 1 + pick(STATES.len() - 1);
            if k1 == 17 {
                return ok("same as the other way round");
            }
            enter(k1, &mut l, &mut w)?;
            name = format!("{} and {name}", STATES[k1]);
        }
        enter(k, &mut l, &mut w)?;
        let kinds = kinds.iter().fold(Kind::App.bit(), |m, k| m | k.bit());
        simrt::explore(kinds);
        let lossy = kinds & (Kind::Fate.bit() | Kind::Env.bit()) != 0;
        let what = format!("{} {t} ms into \"{}\"", if drop_it { "drop" } else { "close" }, name);
        let j = go("close", async move {
            simrt::sleep(t * MS).await;
            simrt::log(|| "the listener's end".into());
            if drop_it {
                drop(l);
                (None, Ok(()))
            } else {
                let r = l.close().await;
                (Some(l), r.map_err(|e| format!("{e:?}")))
            }
        });
        let d = simrt::now() + t * MS + BOUND;
        simrt::run_until(d, || j.done() || j.dead());
        if drop_it {
            simrt::run_for(300 * MS);
        }
        simrt::explore(Kind::App.bit());
        let (mut kept, r) = must(&j, MS, "listener-close").map_err(|e| Found { msg: format!("{what}: {}", e.msg), ..e })?;
        check!(r.is_ok(), "listener-close", "{what}: {r:?}");
        simrt::explore(Kind::App.bit());
        if let Some(mut x) = kept.take() {
            for _ in 0..2 {
                match block(SEC, x.close()) {
                    Ok(Ok(())) => {}
                    y => bail!("listener-again", "{what}: close again: {:?}", y.map(|r| r.is_ok()).map_err(|e| e.text())),
                }
                match accept(&mut x, SEC) {
                    Ok(Err(_)) => {}
                    Ok(Ok(_)) => bail!("listener-accept", "{what}: accept on a closed listener returned a connection"),
                    Err(e) => bail!("listener-accept", "{what}: accept on a closed listener {}", e.text()),
                }
            }
            if block(SEC, async { x.local_addr().is_err() || true }).is_err() {
                bail!("listener-after", "{what}: local_addr of the closed listener panicked");
            }
            let _ = block(SEC, x.get_motd());
            if block(SEC, x.listen()).is_err() || block(SEC, x.set_motd("a", 1, "b", "c", "d", 5)).is_err() {
                bail!("listener-after", "{what}: a call on the closed listener panicked or hung");
            }
            // the address is free as soon as close has returned
            match block(SEC, bind(&server_addr())) {
                Ok(Ok(mut l)) => {
                    match block(SEC, l.close()) {
                        Ok(Ok(())) => {}
                        x => bail!("listener-close-hang", "close of a listener that never listened: {:?}", x.map(|r| r.is_ok()).map_err(|e| e.text())),
                    }
                }
                y => bail!("listener-rebind", "{what}: the address cannot be bound: {:?}", y.map(|r| r.is_ok()).map_err(|e| e.text())),
            }
            kept = Some(x);
        }
        aftermath(&mut w, &what)?;
        connects(&w, &what, lossy)?;
        reusable(&what)?;
        drop(kept);
        no_panic("listener")?;
        ok(format!("{k} {drop_it}"))
    })
    .kinds(kinds)
    .total(total)
    .cfg(move |c| c.fates = fates())
}

/// a listener with many connections
fn crowd(name: &str, sizes: &'static [usize]) -> Space {
    Space::new(name, format!("close and drop of a listener with {sizes:?} clients, accepted all, half or none, idle or with messages unread and unacknowledged both ways, closed just before or not"), move || {
        let n = sizes[pick(sizes.len())];
        let drop_it = pick(2) == 1;
        let share = pick(3);
        let busy = pick(3);
        let mut l = match block(SEC, bind(&server_addr())) {
            Ok(Ok(l)) => l,
            _ => bail!("setup: bind", "bind failed"),
        };
        if block(SEC, l.listen()).is_err() {
            bail!("setup: listen", "listen hangs");
        }
        let mut w = World::default();
        let js: Vec<_> = (0..n).map(|_| connect_to(server_addr(), None)).collect();
        for j in &js {
            match j.wait(10 * SEC) {
                Some(Ok(c)) => w.clients.push(c),
                _ => bail!("setup: connect", "connect failed"),
            }
        }
        for _ in 0..[n, n / 2, 0][share] {
            acc(&mut l, &mut w)?;
        }
        simrt::run_for(150 * MS);
        if busy > 0 {
            for (i, s) in w.clients.iter().chain(&w.accepted).enumerate() {
                for k in 0..3 {
                    must_send(s, &payload(10 * i as u32 + k, 2000), RO)?;
                }
            }
            if busy == 2 {
                for s in w.clients.iter().chain(&w.accepted).step_by(2) {
                    let s = s.clone();
                    go("close", async move {
                        let _ = s.close().await;
                    });
                }
            }
            simrt::run_for(7 * MS);
        }
        let what = format!("{} with {n} clients, {} accepted, busy {busy}", if drop_it { "drop" } else { "close" }, w.accepted.len());
        let mut kept = None;
        if drop_it {
            drop(l);
        } else {
            match block(BOUND, l.close()) {
                Ok(Ok(())) => {}
                x => bail!("listener-close", "{what}: {:?}", x.map(|r| r.is_ok()).map_err(|e| e.text())),
            }
            kept = Some(l);
        }
        aftermath(&mut w, &what)?;
        reusable(&what)?;
        drop(kept);
        no_panic("listener")?;
        ok(format!("{n} {drop_it} {share} {busy}"))
    })
    .cfg(|c| c.steps = 1_000_000)
}

/// the listener is made, perhaps started, and given up without anything else having run meanwhile
fn at_once(name: &str, kinds: &'static [Kind], total: u32) -> Space {
    Space::new(name, "bind, perhaps listen, and drop or close within one turn of the runtime, once or three times at the same address; no task or socket is left, and the address is free", move || {
        let listen = pick(2) == 1;
        let how = pick(3);
        let times = 1 + 2 * pick(2);
        let what = format!("bind{} and {} at once", if listen { ", listen" } else { "" }, ["drop", "close", "close and drop"][how]);
        let base = simrt::live_lib_tasks();
        simrt::explore(kinds.iter().fold(0, |a, k| a | k.bit()));
        for k in 0..times {
            let kept = match block(BOUND, async {
                let mut l = bind(&server_addr()).await.ok()?;
                if listen {
                    l.listen().await;
                }
                match how {
                    0 => drop(l),
                    1 => return Some((l.close().await.is_ok(), Some(l))),
                    _ => {
                        let ok = l.close().await.is_ok();
                        drop(l);
                        return Some((ok, None));
                    }
                }
                Some((true, None))
            }) {
                Ok(Some((true, l))) => l,
                Ok(Some((false, _))) => bail!("listener-close", "{what}: close fails"),
                Ok(None) => bail!("setup: bind", "{what}: bind {k} failed"),
                Err(e) => bail!("listener-close", "{what}: {}", e.text()),
            };
            if how != 1 {
                let d = simrt::now() + BOUND;
                while simrt::live_lib_tasks() > base || simrt::live_sockets().contains(&server_addr()) {
                    check!(simrt::now() < d, "listener-port", "{what}, time {k}: {} s later the tasks {:?} and sockets {:?} are left", BOUND / SEC, simrt::live_lib_task_names(), simrt::live_sockets());
                    simrt::run_for(100 * MS);
                }
            }
            if k + 1 == times {
                simrt::explore(Kind::App.bit());
                reusable(&what)?;
            }
            drop(kept);
        }
        no_panic("listener")?;
        ok(format!("{listen} {how} {times}"))
    })
    .kinds(kinds)
    .total(total)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let n = |k: u32| if q { k } else { k + 1 };
    let all: Vec<usize> = (0..STATES.len()).collect();
    let few = vec![4, 5, 9, 10, 12, 14, 18, 19];
    let light: Vec<usize> = all[1..].iter().cloned().filter(|k| ![15, 16, 17].contains(k)).collect();
    let mut v = vec![
        ends("two", true, all[1..].to_vec(), if q { &[0, 5, 40] } else { &[0, 1, 3, 5, 7, 10, 15, 25, 40, 49, 50, 55, 110] }, &[], 0, FATES_DROP),
        ends("states", false, all.clone(), if q { &[0, 1, 3, 5, 7, 10, 13, 17, 25, 40, 49, 55, 110] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 28, 31, 35, 40, 45, 48, 49, 50, 51, 52, 55, 60, 75, 90, 99, 100, 101, 110, 150, 300, 1000, 2500] }, &[], 0, FATES_DROP),
        ends("schedules/all", false, all[1..].to_vec(), &[0, 5, 10], &[Kind::Sched, Kind::Yield, Kind::Select, Kind::Tie], 1, FATES_DROP),
        ends("schedules", false, few.clone(), &[0, 5, 10], &[Kind::Sched, Kind::Yield, Kind::Select, Kind::Tie], n(2), FATES_DROP),
        ends("threads", false, few.clone(), &[0, 5], &[Kind::Sync, Kind::Sched, Kind::Select, Kind::Tie], n(2), FATES_DROP),
        ends("send-errors", false, few.clone(), &[0, 5, 30], &[Kind::Env], n(2), FATES_DROP),
        ends("faults", false, few, &[0, 5, 30], &[Kind::Fate], n(2), traffic::FATES_3),
    ];
    v.push(at_once("at-once", &[Kind::Sched, Kind::Yield, Kind::Sync, Kind::Select, Kind::Tie], n(2)));
    v.push(crowd("crowd", if q { &[40, 130] } else { &[11, 40, 130, 300] }));
    if !q {
        v.push(ends("two/schedules", true, light.clone(), &[0, 5, 40], &[Kind::Sched, Kind::Tie], 1, FATES_DROP));
        v.push(ends("schedules/light", false, light, &[0, 5, 10], &[Kind::Sched, Kind::Yield, Kind::Select, Kind::Tie], 2, FATES_DROP));
    }
    let v = with_std(v, &["two", "states", "send-errors", "at-once"]);
    let v = with_stalls(v, &["threads", "send-errors"], 1, STALLS);
    let v = with_pauses(v, &["threads", "send-errors"], 2, &[60, 400, 3000]);
    let v = with_batch(v, &["crowd"]);
    v
}
