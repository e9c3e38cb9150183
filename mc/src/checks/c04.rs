//! C04: sequenced messages: never stale, never twice, the newest gets through.

use super::*;
use crate::traffic::{self, *};

/// Exact reference: a sequenced message is returned when it arrives iff it is newer than every
/// sequenced message that arrived before it.
pub fn oracle(t: &Traffic) -> Res {
    let del = simrt::deliveries_from(t.del0);
    for d in [Side::C, Side::S] {
        let (from, to) = t.addrs(d);
        let seq: Vec<&Sent> = t.sent(d).iter().filter(|m| m.rel.sequenced()).collect();
        let log = match d {
            Side::C => &t.slog,
            Side::S => &t.clog,
        };
        let got: Vec<(u64, Vec<u8>)> = log.v.borrow().iter().filter(|g| seq.iter().any(|m| m.data == g.1)).cloned().collect();
        // what should have been returned, and when
        let mut newest: Option<usize> = None;
        let mut want: Vec<(u64, Vec<u8>)> = vec![];
        for (at, _, fs) in data_rx(&del, from, to) {
            for f in fs {
                if let Some(k) = seq.iter().position(|m| m.data == f.data) {
                    if newest.map_or(true, |n| k > n) {
                        newest = Some(k);
                        want.push((at, f.data.clone()));
                    }
                }
            }
        }
        let (g, w): (Vec<_>, Vec<_>) = (got.iter().map(|x| x.1.clone()).collect(), want.iter().map(|x| x.1.clone()).collect());
        if g != w {
            let ks: Vec<_> = g.iter().map(|m| seq.iter().position(|s| s.data == *m).unwrap()).collect();
            let kind = if ks.windows(2).any(|x| x[1] == x[0]) {
                "twice"
            } else if ks.windows(2).any(|x| x[1] < x[0]) {
                "stale"
            } else {
                "lost"
            };
            bail!(format!("sequenced-{kind}"), "sent by {d:?}: [{}]; newest-so-far arrivals: [{}]; returned: [{}]", seq.iter().map(|m| show(&m.data)).collect::<Vec<_>>().join(" "), shows(&w), shows(&g));
        }
        for (a, b) in got.iter().zip(&want) {
            check!(a.0 <= b.0 + 20 * MS, "sequenced-late", "{} arrived at {} ms but was returned at {} ms", show(&a.1), b.0 / MS, a.0 / MS);
        }
        // the last ReliableSequenced one, unless overtaken by a newer one
        if let Some(k) = seq.iter().rposition(|m| m.rel == RS) {
            check!(newest.is_some_and(|n| n >= k), "sequenced-last-lost", "the last ReliableSequenced message {} never arrived, {} ms after the last fault", show(&seq[k].data), (simrt::now() - t.calm) / MS);
        }
    }
    if let Some(e) = t.slog.end().or(t.clog.end()) {
        bail!("sequenced-closed", "a connection that nobody closed ended: {e}");
    }
    ok(t.fingerprint())
}

fn sp(name: &str, script: Vec<Act>, kinds: &'static [Kind], total: u32, fates: Vec<Fate>) -> Space {
    traffic_space(name, script, kinds, total, 300, fates, oracle)
}

/// raw arrivals: every sequence of sequenced frames (both kinds), with other kinds between
fn arrivals(name: &str, n: usize, len: usize, others: bool) -> Space {
    Space::new(name, format!("sequenced messages 0..{n} of both kinds; every sequence of {len} arrivals{}, server and client side", if others { " mixed with ordered, reliable and unreliable ones" } else { "" }), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let mut seq = vec![];
        let mut want = vec![];
        let mut newest: i64 = -1;
        let base = 0;
        for step in 0..len {
            let a = pick(2 * n + if others { 3 } else { 0 });
            let (f, sidx) = if a < n {
                (Frame::new(US, &payload(a as u32, 10)).s(base + a as u32).o(c.oidx.get()), Some(a as i64))
            } else if a < 2 * n {
                let mut f = Frame::new(RS, &payload(100 + a as u32 - n as u32, 11)).s(base + (a - n) as u32).o(c.oidx.get());
                f.ridx = c.ridx.get();
                c.ridx.set(f.ridx + 1);
                (f, Some((a - n) as i64))
            } else {
                (c.frame([U, R, RO][a - 2 * n], &payload(200 + step as u32, 12)), None)
            };
            seq.push((f.rel, f.sidx));
            match sidx {
                Some(k) if k > newest => {
                    newest = k;
                    want.push(f.data.clone());
                }
                Some(_) => {}
                None => want.push(f.data.clone()),
            }
            c.bytes(&c.datagram(&[f]));
            c.pump(6 * MS);
            let got = log.msgs();
            check!(got == want, "sequenced-arrivals", "after arrivals {seq:?}: expected [{}], returned [{}]", shows(&want), shows(&got));
        }
        ok(format!("{}", want.len()))
    })
}
/// several sequenced frames per datagram and repeated datagrams
fn bundles(name: &str, len: usize) -> Space {
    Space::new(name, format!("datagrams of one to three sequenced frames; every sequence of {len}, with whole-datagram repeats"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let sets: Vec<Vec<u32>> = vec![vec![0], vec![1], vec![2, 3], vec![3, 2], vec![1, 4], vec![0, 1, 2]];
        let dg: Vec<Vec<u8>> = sets
            .iter()
            .map(|s| {
                let fs: Vec<Frame> = s.iter().map(|&k| Frame::new(US, &payload(k, 10)).s(k)).collect();
                c.datagram(&fs)
            })
            .collect();
        let mut newest: i64 = -1;
        let mut want = vec![];
        let mut seq = vec![];
        for _ in 0..len {
            let a = pick(sets.len());
            seq.push(a);
            for &k in &sets[a] {
                if k as i64 > newest {
                    newest = k as i64;
                    want.push(payload(k, 10));
                }
            }
            c.bytes(&dg[a]);
            c.pump(6 * MS);
            let got = log.msgs();
            check!(got == want, "sequenced-bundles", "after datagrams {seq:?} of {sets:?}: expected [{}], returned [{}]", shows(&want), shows(&got));
        }
        ok(format!("{newest}"))
    })
}
fn spacing(name: &str, n: usize, gaps: &'static [u64], faults: u32) -> Space {
    Space::new(name, format!("{n} messages, alternating kinds, every combination of pauses {gaps:?} ms between them, {faults} network faults"), move || {
        let mut script = vec![];
        for i in 0..n {
            script.push(c(if i % 2 == 0 { RS } else { US }, 10 + i));
            script.push(w(gaps[pick(gaps.len())]));
        }
        script.push(c(RS, 30));
        let t = traffic::run(&script, Kind::Fate.bit(), 200, LIMIT)?;
        oracle(&t)
    })
    .kinds(&[Kind::Fate])
    .total(faults)
    .cfg(|c| c.fates = FATES_DDD())
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        sp("net/reliable", vec![c(RS, 10), c(RS, 11), c(RS, 12)], &[Kind::Fate], if q { 3 } else { 4 }, FATES_DDD()),
        sp("net/unreliable", vec![c(US, 10), c(US, 11), w(20), c(US, 12), w(60), c(US, 13)], &[Kind::Fate], if q { 3 } else { 5 }, FATES_DDD()),
        sp("net/both-kinds", vec![c(RS, 10), c(US, 11), w(10), c(RS, 12), s(RS, 13), w(60), c(US, 14), s(US, 15), c(RS, 16)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        sp("net/mixed", vec![c(RS, 10), c(RO, 11), c(US, 12), c(R, 13), w(30), c(RS, 14), c(U, 15), c(RO, 3000), c(RS, 16)], &[Kind::Fate], 2, if q { FATES_3() } else { FATES_DDD() }),
        spacing("net/spacing", if q { 3 } else { 4 }, &[0, 20, 51, 70], if q { 1 } else { 2 }),
        arrivals("recv/arrivals", 4, if q { 4 } else { 6 }, false),
        arrivals("recv/mixed", 3, if q { 4 } else { 5 }, true),
        bundles("recv/bundles", if q { 4 } else { 5 }),
        sp("sched/order", vec![c(RS, 10), c(US, 11), s(RS, 12), c(RS, 13)], &[Kind::Sched, Kind::Select, Kind::Tie], if q { 2 } else { 3 }, vec![]),
        sp("sched/preempt", vec![c(RS, 10), s(US, 11), c(US, 12), c(RS, 13)], &[Kind::Yield, Kind::Sync], if q { 2 } else { 3 }, vec![]),
        sp("sched/with-fault", vec![c(RS, 10), c(US, 11), c(RS, 12)], &[Kind::Sched, Kind::Yield, Kind::Fate], 2, FATES_3()),
    ];
    v.push(scale::peer("scale/peer-reliable", "sequenced", RS, if q { &[40, 150, 600] } else { &[40, 300, 900, 3000] }, if q { 40 } else { 150 }, scale::nothing_else));
    v.push(scale::peer("scale/peer-unreliable", "sequenced", US, if q { &[40, 150, 600] } else { &[40, 300, 900, 3000] }, if q { 40 } else { 150 }, scale::nothing_else));
    v.push(sp("scale/queue", (0..if q { 150 } else { 400 }).map(|i| c(if i % 3 == 0 { US } else { RS }, 10 + i)).collect(), &[Kind::Fate], 1, FATES_3()));
    v.push(scale::long("long/reliable", "sequenced", RS, 66_000));
    v.push(scale::long("long/unreliable", "sequenced", US, 66_000));
    v.push(sp("net/send-errors", vec![c(RS, 10), s(US, 11), c(US, 12), w(60), c(RS, 13), s(RS, 14)], &[Kind::Env], if q { 3 } else { 4 }, vec![]));
    v.push(sp("net/send-errors-and-faults", vec![c(RS, 10), s(US, 11), c(US, 12), w(60), c(RS, 13), s(RS, 14)], &[Kind::Env, Kind::Fate], 2, FATES_3()));
    if !q {
        v.push(sp("net/reliable-drops", vec![c(RS, 10), c(RS, 11), w(60), c(RS, 12), c(RS, 13)], &[Kind::Fate], 7, FATES_DROP()));
    }
    let v = with_uptime(v, &["net/mixed"], &[10, 120]);
    let v = with_pauses(v, &["net/reliable", "net/unreliable", "net/both-kinds", "net/mixed"], 2, &[60, 400, 3000]);
    let v = with_batch(v, &["net/both-kinds", "scale/queue"]);
    with_counters(v, &["net/mixed", "net/both-kinds"])
}
