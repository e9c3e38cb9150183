//! C01: ReliableOrdered is exactly once, in order, intact, eventually.

use super::*;
use crate::traffic::{self, *};
use std::collections::BTreeMap;

pub fn oracle(t: &Traffic) -> Res {
    for d in [Side::C, Side::S] {
        let want: Vec<Vec<u8>> = t.sent(d).iter().filter(|m| m.rel == RO).map(|m| m.data.clone()).collect();
        let others: Vec<&[u8]> = t.sent(d).iter().filter(|m| m.rel != RO).map(|m| &m.data[..]).collect();
        let got: Vec<Vec<u8>> = t.got(d).into_iter().filter(|m| !others.contains(&&m[..])).collect();
        if got != want {
            let n = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let kind = if got.len() < want.len() && got[..] == want[..got.len()] {
                "missing"
            } else if got.iter().any(|m| !want.contains(m)) {
                "corrupt"
            } else if got.iter().enumerate().any(|(i, m)| got[..i].contains(m)) {
                "duplicate"
            } else {
                "order"
            };
            bail!(
                format!("ordered-{kind}"),
                "messages sent ReliableOrdered by {d:?}: [{}]; received: [{}] (first {} agree), {} ms after the last fault",
                shows(&want),
                shows(&got),
                n,
                (simrt::now() - t.calm) / MS
            );
        }
        if let Some(e) = t.slog.end().or(t.clog.end()) {
            bail!("ordered-closed", "a connection that nobody closed ended: {e}");
        }
    }
    ok(t.fingerprint())
}

fn sp(name: &str, script: Vec<Act>, kinds: &'static [Kind], total: u32, fates: Vec<Fate>) -> Space {
    traffic_space(name, script, kinds, total, 300, fates, oracle)
}

/// Everything sent in one or both directions is lost for a while.
fn outage(name: &str, lens: &'static [u64], starts: &'static [u64]) -> Space {
    Space::new(name, format!("a network outage of {lens:?} ms beginning {starts:?} ms after the first message, in either or both directions"), move || {
        let p = pair()?;
        let (len, start, dir) = (lens[pick(lens.len())], starts[pick(starts.len())], pick(3));
        let (clog, _a) = reader(&p.client);
        let (slog, _b) = reader(&p.server);
        let (from, to) = (simrt::now() + start * MS, simrt::now() + (start + len) * MS);
        let saddr = p.saddr;
        simrt::set_fates(vec![Fate::Drop]);
        simrt::set_fate_filter(Some(std::sync::Arc::new(move |_s, d, _b| {
            let n = simrt::vnow();
            n >= from && n < to && (dir == 2 || (dir == 0) == (*d == saddr))
        })));
        // the filter above selects what is lost: make losing the default there
        let mut want_s = vec![];
        let mut want_c = vec![];
        for i in 0..4u32 {
            let m = payload(i, if i == 2 { 3000 } else { 20 });
            must_send(&p.client, &m, RO)?;
            want_s.push(m);
            let m = payload(100 + i, 30);
            must_send(&p.server, &m, RO)?;
            want_c.push(m);
            simrt::run_for(40 * MS);
        }
        let bound = to + len * MS * 6 / 10 + 5 * SEC;
        simrt::run_until(bound, || slog.len() >= 4 && clog.len() >= 4);
        simrt::run_for(200 * MS);
        if slog.msgs() != want_s || clog.msgs() != want_c {
            bail!(
                "ordered-outage",
                "outage of {len} ms starting {start} ms in, direction {dir}: server received [{}], client received [{}], {} ms after the outage",
                shows(&slog.msgs()),
                shows(&clog.msgs()),
                simrt::now().saturating_sub(to) / MS
            );
        }
        ok(format!("{len} {start} {dir} {}", simrt::tap_len()))
    })
    .cfg(|c| c.fates = vec![Fate::Deliver])
}

/// All arrival sequences of numbered datagrams from a raw peer.
fn arrivals(name: &str, n: usize, len: usize, multi: bool) -> Space {
    Space::new(
        name,
        format!("a raw peer sends {n} ordered messages; every sequence of {len} arrivals{}", if multi { ", several frames per datagram" } else { "" }),
        move || {
            let side = pick(2);
            let (c, sock, _l) = either_side(side)?;
            let (log, _j) = reader(&sock);
            let base = c.oidx.get();
            let rbase = c.ridx.get();
            let frame = |i: usize| Frame::new(RO, &payload(i as u32, 8 + i)).r(rbase + i as u32).o(base + i as u32);
            let mut seen = vec![false; n];
            let mut seq = vec![];
            for _ in 0..len {
                let a = pick(if multi { n * 2 } else { n });
                let fs: Vec<usize> = if a < n { vec![a] } else { vec![(a - n + 1) % n, a - n] };
                for &i in &fs {
                    seen[i] = true;
                }
                seq.push(fs.clone());
                let v: Vec<Frame> = fs.iter().map(|&i| frame(i)).collect();
                c.bytes(&c.datagram(&v));
                c.pump(6 * MS);
                let k = seen.iter().take_while(|x| **x).count();
                let want: Vec<_> = (0..k).map(|i| payload(i as u32, 8 + i)).collect();
                let got = log.msgs();
                check!(got == want, "ordered-arrivals", "after arrivals {seq:?}: expected [{}], received [{}]", shows(&want), shows(&got));
            }
            ok(format!("{:?}", seen))
        },
    )
}

/// Client and server application tasks racing with the library's tasks, without network faults.
fn sched(name: &str, kinds: &'static [Kind], total: u32, script: Vec<Act>) -> Space {
    sp(name, script, kinds, total, vec![Fate::Deliver, Fate::Drop, Fate::Delay(65 * MS)])
}

/// The times between the sends are enumerated.
fn spacing(name: &str, n: usize, gaps: &'static [u64], faults: u32) -> Space {
    Space::new(name, format!("{n} messages each way, every combination of pauses {gaps:?} ms between them, {faults} network faults"), move || {
        let mut script = vec![];
        for i in 0..n {
            script.push(c(RO, 10 + i));
            if i % 2 == 1 {
                script.push(s(RO, 40 + i));
            }
            script.push(w(gaps[pick(gaps.len())]));
        }
        let t = traffic::run(&script, Kind::Fate.bit(), 200, LIMIT)?;
        oracle(&t)
    })
    .kinds(&[Kind::Fate])
    .total(faults)
    .cfg(|c| c.fates = FATES_3())
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let _unused: BTreeMap<u8, u8> = BTreeMap::new();
    let three = vec![c(RO, 10), c(RO, 11), c(RO, 12)];
    let mut v = vec![
        sp("net/one-way-3", three.clone(), &[Kind::Fate], if q { 3 } else { 4 }, FATES_DDD()),
        sp("net/both-ways", vec![c(RO, 10), s(RO, 11), c(RO, 12), s(RO, 13)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        sp("net/spaced", vec![c(RO, 10), w(30), c(RO, 11), w(60), c(RO, 12), w(20), c(RO, 13)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        sp(
            "net/mixed",
            vec![c(RO, 10), c(U, 11), c(RO, 12), c(R, 13), c(RS, 14), c(US, 15), c(RO, 16)],
            &[Kind::Fate],
            2,
            if q { FATES_3() } else { FATES_DDD() },
        ),
        sp("net/fragmented", vec![c(RO, 3000), c(RO, 20), s(RO, 1340)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_3()),
        sp(
            "net/losses",
            vec![c(RO, 10), w(20), s(RO, 11), c(RO, 12), w(70), c(RO, 13), s(RO, 14), w(40), c(RO, 15)],
            &[Kind::Fate],
            if q { 3 } else { 4 },
            FATES_DROP(),
        ),
        spacing("net/spacing", if q { 3 } else { 4 }, &[0, 20, 49, 51], if q { 1 } else { 2 }),
        arrivals("recv/arrivals", 4, if q { 5 } else { 7 }, false),
        arrivals("recv/multi-frame", 3, if q { 4 } else { 5 }, true),
        outage("net/outage", if q { &[60, 400, 3000, 20000] } else { &[30, 60, 90, 200, 400, 1000, 3000, 10000, 20000, 40000] }, if q { &[0, 7, 35, 90] } else { &[0, 3, 7, 12, 20, 35, 50, 70, 90, 110, 140] }),
        sched("sched/order", &[Kind::Sched, Kind::Select, Kind::Tie], if q { 2 } else { 3 }, vec![c(RO, 10), s(RO, 11), c(RO, 12), w(60), c(RO, 13)]),
        sched("sched/preempt", &[Kind::Yield, Kind::Sync], if q { 2 } else { 3 }, vec![c(RO, 10), s(RO, 11), c(RO, 12)]),
        sched("sched/with-fault", &[Kind::Sched, Kind::Yield, Kind::Fate], 2, vec![c(RO, 10), s(RO, 11), c(RO, 12)]),
    ];
    v.push(scale::peer("scale/peer", "ordered", RO, if q { &[40, 150, 600] } else { &[40, 300, 900, 3000] }, if q { 40 } else { 150 }, scale::nothing_else));
    v.push(sp("scale/queue", (0..if q { 150 } else { 400 }).map(|i| c(RO, 10 + i)).collect(), &[Kind::Fate], 1, FATES_3()));
    v.push(scale::long("long/many", "ordered", RO, 66_000));
    v.push(sp("net/send-errors", vec![c(RO, 10), s(RO, 11), c(RO, 3000), w(60), c(RO, 12), s(RO, 13)], &[Kind::Env], if q { 3 } else { 4 }, vec![]));
    v.push(sp("net/send-errors-and-faults", vec![c(RO, 10), s(RO, 11), c(RO, 3000), w(60), c(RO, 12), s(RO, 13)], &[Kind::Env, Kind::Fate], 2, FATES_3()));
    if !q {
        v.push(sp("net/one-way-drops", three, &[Kind::Fate], 7, FATES_DROP()));
        v.push(sp("net/many", (0..10).map(|i| c(RO, 10 + i)).collect(), &[Kind::Fate], 3, FATES_3()));
    }
    let v = with_uptime(v, &["net/mixed", "net/both-ways"], &[10, 120]);
    let v = with_counters(v, &["net/mixed", "net/fragmented", "net/both-ways", "recv/arrivals"]);
    let v = with_stalls(v, &["net/one-way-3", "net/both-ways", "net/spaced", "net/mixed", "net/fragmented", "net/losses", "scale/queue"], 1, STALLS);
    let v = with_pauses(v, &["net/one-way-3", "net/both-ways", "net/spaced", "net/mixed", "net/fragmented", "net/losses", "scale/queue"], 2, &[60, 400, 3000]);
    let v = with_batch(v, &["scale/peer", "scale/queue", "net/both-ways"]);
    let v = with_stalls_n(v, &["net/one-way-3", "net/both-ways", "net/fragmented"], 2);
    if q {
        v
    } else {
        with_stalls_n(v, &["net/one-way-3", "net/both-ways"], 3)
    }
}
