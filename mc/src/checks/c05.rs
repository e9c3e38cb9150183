//! C05: unreliable messages go out once, are delivered per arrival, and never hold anything up.

use super::*;
use crate::traffic::{self, *};
use std::net::SocketAddr;

/// (number of datagrams on the wire carrying m, number of arrivals)
fn wire_counts(tap: &[Tap], del: &[simrt::Delivery], a: SocketAddr, b: SocketAddr, m: &[u8]) -> (usize, usize) {
    let n = data_tx(tap, a, b).iter().map(|(_, _, f)| f.iter().filter(|f| f.data == m).count()).sum();
    let r = data_rx(del, a, b).iter().map(|(_, _, f)| f.iter().filter(|f| f.data == m).count()).sum();
    (n, r)
}

pub fn oracle(t: &Traffic) -> Res {
    let tap = t.tap();
    let del = simrt::deliveries_from(t.del0);
    for d in [Side::C, Side::S] {
        let (a, b) = t.addrs(d);
        let got = t.got(d);
        for m in t.sent(d).iter().filter(|m| matches!(m.rel, U | US)) {
            let (tx, rx) = wire_counts(&tap, &del, a, b, &m.data);
            check!(tx <= 1, "unreliable-retransmitted", "{:?} message {} was put on the wire {tx} times", m.rel, show(&m.data));
            check!(tx == 1, "unreliable-not-sent", "{:?} message {} was never put on the wire although everything else was acknowledged", m.rel, show(&m.data));
            if m.rel == U {
                let n = got.iter().filter(|g| **g == m.data).count();
                check!(n == rx, "unreliable-count", "Unreliable message {} arrived {rx} times and was returned {n} times", show(&m.data));
            }
        }
        for g in &got {
            check!(t.sent(d).iter().any(|m| m.data == *g), "unreliable-invented", "recv returned {} which was never sent", show(g));
        }
    }
    if let Some(e) = t.slog.end().or(t.clog.end()) {
        bail!("unreliable-closed", "a connection that nobody closed ended: {e}");
    }
    ok(t.fingerprint())
}
/// Only unreliable datagrams are faulted; the others must not notice.
fn unaffected(t: &Traffic) -> Res {
    oracle(t)?;
    for d in [Side::C, Side::S] {
        let log = match d {
            Side::C => &t.slog,
            Side::S => &t.clog,
        };
        for m in t.sent(d).iter().filter(|m| matches!(m.rel, RO | R)) {
            let at = log.v.borrow().iter().find(|g| g.1 == m.data).map(|g| g.0);
            match at {
                None => bail!("unreliable-blocks", "{:?} message {} never arrived although only unreliable datagrams were lost", m.rel, show(&m.data)),
                Some(at) => check!(at <= m.at + 130 * MS, "unreliable-delays", "{:?} message {} took {} ms although only unreliable datagrams were lost or delayed", m.rel, show(&m.data), (at - m.at) / MS),
            }
        }
        let want: Vec<_> = t.sent(d).iter().filter(|m| m.rel == RO).map(|m| m.data.clone()).collect();
        let got: Vec<_> = t.got(d).into_iter().filter(|m| want.contains(m)).collect();
        check!(got == want, "unreliable-disturbs-order", "ordered messages [{}] arrived as [{}]", shows(&want), shows(&got));
    }
    ok(t.fingerprint())
}

fn sp(name: &str, script: Vec<Act>, kinds: &'static [Kind], total: u32, fates: Vec<Fate>) -> Space {
    traffic_space(name, script, kinds, total, 300, fates, oracle)
}
fn only_unreliable(name: &str, script: Vec<Act>, total: u32) -> Space {
    let desc = format!("{}; up to {total} faults, on unreliable data only", traffic::brief(&script));
    Space::new(name, desc, move || {
        simrt::set_fate_filter(Some(std::sync::Arc::new(|_, _, b| match frames_of(b) {
            Some((_, f)) => f.iter().all(|f| matches!(f.rel, U | US)),
            None => false,
        })));
        let t = traffic::run(&script, Kind::Fate.bit(), 200, LIMIT)?;
        unaffected(&t)
    })
    .kinds(&[Kind::Fate])
    .total(total)
    .cfg(|c| c.fates = FATES_DDD())
}

/// A raw peer acknowledges, NACKs or ignores everything in every combination.
fn raw_acks(name: &str, depth: usize) -> Space {
    Space::new(name, format!("raw receiver on either side; {depth} transmissions each answered with one of: ACK, NACK, nothing, ACK of the next number, NACK of everything so far"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        c.auto_ack.set(false);
        let t0 = simrt::tap_len();
        let script = [(U, 10), (RO, 11), (US, 12), (U, 13), (R, 14), (U, 15)];
        let mut decided = 0;
        let mut done = c.got.borrow().len();
        let answer = |c: &RawConn, decided: &mut usize, done: &mut usize| {
            loop {
                let next = c.got.borrow().get(*done).map(|x| x.1.clone());
                let Some(b) = next else { break };
                *done += 1;
                if let Some((num, _)) = frames_of(&b) {
                    let a = if *decided < depth { pick(5) } else { 0 };
                    *decided += 1;
                    match a {
                        0 => c.bytes(&wire::ack(&[(num, num)])),
                        1 => c.bytes(&wire::nack(&[(num, num)])),
                        2 => {}
                        3 => c.bytes(&wire::ack(&[(num + 1, num + 1)])),
                        _ => c.bytes(&wire::nack(&[(num.saturating_sub(6), num)])),
                    }
                }
            }
        };
        let mut want = vec![];
        for (i, (r, l)) in script.iter().enumerate() {
            let m = payload(i as u32, *l);
            must_send(&sock, &m, *r)?;
            want.push((m, *r));
            for _ in 0..4 {
                c.pump(7 * MS);
                answer(&c, &mut decided, &mut done);
            }
        }
        for _ in 0..60 {
            c.pump(50 * MS);
            answer(&c, &mut decided, &mut done);
        }
        let tap = simrt::tap_from(t0);
        let me = c.peer;
        for (m, r) in &want {
            let tx: usize = data_tx(&tap, me, c.raw.addr).iter().map(|(_, _, f)| f.iter().filter(|f| f.data == *m).count()).sum();
            if matches!(r, U | US) {
                check!(tx <= 1, "unreliable-retransmitted", "{r:?} message {} was put on the wire {tx} times", show(m));
                check!(tx == 1, "unreliable-not-sent", "{r:?} message {} was never put on the wire", show(m));
            }
        }
        ok(format!("{}", simrt::tap_len()))
    })
}
/// raw arrivals of unreliable frames
fn arrivals(name: &str, n: usize, len: usize) -> Space {
    Space::new(name, format!("{n} unreliable messages; every sequence of {len} arrivals: same datagram again, fresh datagram, together with a second frame"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let ms: Vec<Vec<u8>> = (0..n).map(|i| payload(i as u32, 9 + i)).collect();
        let dg: Vec<Vec<u8>> = ms.iter().map(|m| c.datagram(&[Frame::new(U, m)])).collect();
        let mut want: Vec<Vec<u8>> = vec![];
        let mut seq = vec![];
        for _ in 0..len {
            let a = pick(3 * n);
            let i = a % n;
            seq.push(a);
            match a / n {
                0 => {
                    c.bytes(&dg[i]);
                    want.push(ms[i].clone());
                }
                1 => {
                    c.bytes(&c.datagram(&[Frame::new(U, &ms[i])]));
                    want.push(ms[i].clone());
                }
                _ => {
                    let j = (i + 1) % n;
                    c.bytes(&c.datagram(&[Frame::new(U, &ms[i]), Frame::new(U, &ms[j])]));
                    want.push(ms[i].clone());
                    want.push(ms[j].clone());
                }
            }
            c.pump(6 * MS);
            let (mut g, mut w) = (log.msgs(), want.clone());
            g.sort();
            w.sort();
            check!(g == w, "unreliable-arrivals", "after arrivals {seq:?}: expected [{}], returned [{}]", shows(&want), shows(&log.msgs()));
        }
        ok(format!("{}", want.len()))
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        sp("net/alone", vec![c(U, 10), c(U, 11), s(U, 12), w(60), c(U, 13)], &[Kind::Fate], if q { 3 } else { 5 }, FATES_DDD()),
        sp("net/mixed", vec![c(U, 10), c(RO, 11), c(U, 12), c(US, 13), w(20), c(R, 14), c(U, 15), w(60), c(US, 16)], &[Kind::Fate], 2, if q { FATES_3() } else { FATES_DDD() }),
        sp("net/both", vec![c(RO, 10), s(U, 11), c(U, 12), s(RO, 13), w(60), s(US, 14), c(U, 1340)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_3()),
        only_unreliable("net/only-unreliable-faulted", vec![c(U, 10), c(RO, 11), w(60), c(US, 12), c(U, 13), c(RO, 14), s(U, 20), s(RO, 21), w(60), c(U, 15), w(10), c(R, 16), w(60), c(RO, 17)], if q { 3 } else { 4 }),
        only_unreliable("net/only-unreliable-faulted-tight", vec![c(RO, 10), c(U, 11), c(U, 12), w(70), c(RO, 14), w(5), c(U, 15), w(70), c(RO, 16), s(US, 17), w(70), s(RO, 18)], if q { 3 } else { 4 }),
        raw_acks("acks/any", if q { 4 } else { 6 }),
        arrivals("recv/arrivals", 3, if q { 4 } else { 5 }),
        sp("sched/order", vec![c(U, 10), c(RO, 11), c(U, 12), s(U, 13)], &[Kind::Sched, Kind::Select, Kind::Tie], if q { 2 } else { 3 }, vec![]),
        sp("sched/preempt", vec![c(U, 10), c(RO, 11), s(U, 12), c(US, 13)], &[Kind::Yield, Kind::Sync], if q { 2 } else { 3 }, vec![]),
        sp("sched/with-fault", vec![c(U, 10), c(RO, 11), c(U, 12)], &[Kind::Sched, Kind::Yield, Kind::Fate], 2, FATES_3()),
    ];
    v.push(scale::peer("scale/peer", "unreliable", U, if q { &[40, 150, 600] } else { &[40, 300, 900, 3000] }, if q { 40 } else { 150 }, scale::nothing_else));
    v.push(sp("scale/queue", (0..if q { 150 } else { 400 }).map(|i| c([U, RO, US][i % 3], 10 + i)).collect(), &[Kind::Fate], 1, FATES_3()));
    v.push(scale::long("long/many", "unreliable", U, 66_000));
    v.push(sp("net/send-errors", vec![c(U, 10), c(RO, 11), s(US, 12), w(60), c(U, 13), c(US, 14)], &[Kind::Env], if q { 3 } else { 4 }, vec![]));
    v.push(sp("net/send-errors-and-faults", vec![c(U, 10), c(RO, 11), s(US, 12), w(60), c(U, 13), c(US, 14)], &[Kind::Env, Kind::Fate], 2, FATES_3()));
    if !q {
        v.push(sp("net/drops", vec![c(U, 10), c(RO, 11), c(U, 12), w(60), c(U, 13), c(RO, 14), c(U, 15)], &[Kind::Fate], 6, FATES_DROP()));
    }
    let v = with_uptime(v, &["net/mixed"], &[10, 120]);
    let v = with_counters(v, &["net/mixed", "net/both"]);
    let v = with_stalls(v, &["net/alone", "net/mixed", "net/both"], 1, STALLS);
    let v = with_pauses(v, &["net/alone", "net/mixed", "net/both"], 2, &[60, 400, 3000]);
    let v = with_stalls_n(v, &["net/alone", "net/both"], 2);
    if q {
        v
    } else {
        with_stalls_n(v, &["net/alone"], 3)
    }
}
