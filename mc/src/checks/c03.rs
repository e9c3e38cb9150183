//! C03: Reliable messages arrive eventually, intact, and are never invented.

use super::*;
use crate::traffic::{self, *};

/// how often datagrams carrying exactly this message arrived at `to`
fn carried(del: &[simrt::Delivery], from: std::net::SocketAddr, to: std::net::SocketAddr, m: &[u8]) -> usize {
    data_rx(del, from, to).iter().map(|(_, _, fs)| fs.iter().filter(|f| f.split.is_none() && f.data == m).count()).sum()
}

pub fn oracle(t: &Traffic) -> Res {
    let del = simrt::deliveries_from(t.del0);
    for d in [Side::C, Side::S] {
        let got = t.got(d);
        let (from, to) = t.addrs(d);
        for g in &got {
            check!(t.sent(d).iter().any(|m| m.data == *g), "reliable-invented", "recv returned {} which was never sent by {d:?}", show(g));
        }
        for m in t.sent(d).iter().filter(|m| m.rel == R) {
            let n = got.iter().filter(|g| **g == m.data).count();
            check!(n >= 1, "reliable-missing", "the Reliable message {} sent by {d:?} was never returned; {} ms after the last fault", show(&m.data), (simrt::now() - t.calm) / MS);
            let c = carried(&del, from, to, &m.data);
            check!(n <= c, "reliable-multiplied", "{} returned {n} times, but only {c} datagrams carrying it arrived", show(&m.data));
        }
    }
    if let Some(e) = t.slog.end().or(t.clog.end()) {
        bail!("reliable-closed", "a connection that nobody closed ended: {e}");
    }
    ok(t.fingerprint())
}

fn sp(name: &str, script: Vec<Act>, kinds: &'static [Kind], total: u32, fates: Vec<Fate>) -> Space {
    traffic_space(name, script, kinds, total, 300, fates, oracle)
}

/// sequences of arrivals of reliable frames with distinct or repeated datagram numbers
fn arrivals(name: &str, n: usize, len: usize) -> Space {
    Space::new(name, format!("a raw peer sends {n} Reliable messages; every sequence of {len} arrivals, in the same or a new datagram, alone or two in one, on server and client side"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let (log, _j) = reader(&sock);
        let fs: Vec<Frame> = (0..n).map(|i| c.frame(R, &payload(i as u32, 9 + i))).collect();
        let dg: Vec<Vec<u8>> = fs.iter().map(|f| c.datagram(&[f.clone()])).collect();
        let mut arrived = vec![0usize; n];
        let mut seq = vec![];
        for _ in 0..len {
            let a = pick(3 * n);
            let i = a % n;
            seq.push(a);
            match a / n {
                0 => {
                    c.bytes(&dg[i]);
                    arrived[i] += 1;
                }
                1 => {
                    c.bytes(&c.datagram(&[fs[i].clone()]));
                    arrived[i] += 1;
                }
                _ => {
                    let j = (i + 1) % n;
                    c.bytes(&c.datagram(&[fs[i].clone(), fs[j].clone()]));
                    arrived[i] += 1;
                    arrived[j] += 1;
                }
            }
            c.pump(6 * MS);
            let got = log.msgs();
            for g in &got {
                check!(fs.iter().any(|f| f.data == *g), "reliable-invented", "after arrivals {seq:?} recv returned {}", show(g));
            }
            for k in 0..n {
                let cnt = got.iter().filter(|g| **g == fs[k].data).count();
                check!(arrived[k] == 0 || cnt >= 1, "reliable-missing", "after arrivals {seq:?} message {k} was not returned");
                check!(cnt <= arrived[k], "reliable-multiplied", "after arrivals {seq:?} message {k} was returned {cnt} times");
            }
        }
        ok(format!("{arrived:?}"))
    })
}

fn outage(name: &str, lens: &'static [u64], starts: &'static [u64]) -> Space {
    Space::new(name, format!("a network outage of {lens:?} ms beginning {starts:?} ms after the first message, in either or both directions"), move || {
        let p = pair()?;
        let (len, start, dir) = (lens[pick(lens.len())], starts[pick(starts.len())], pick(3));
        let (clog, _a) = reader(&p.client);
        let (slog, _b) = reader(&p.server);
        let (from, to) = (simrt::now() + start * MS, simrt::now() + (start + len) * MS);
        let saddr = p.saddr;
        simrt::set_fates(vec![Fate::Drop]);
        simrt::set_fate_filter(Some(std::sync::Arc::new(move |_s, d, _b| {
            let n = simrt::vnow();
            n >= from && n < to && (dir == 2 || (dir == 0) == (*d == saddr))
        })));
        let mut ws = vec![];
        let mut wc = vec![];
        for i in 0..4u32 {
            let m = payload(i, 20 + i as usize);
            must_send(&p.client, &m, R)?;
            ws.push(m);
            let m = payload(100 + i, 30);
            must_send(&p.server, &m, R)?;
            wc.push(m);
            simrt::run_for(40 * MS);
        }
        let bound = to + len * MS * 6 / 10 + 5 * SEC;
        simrt::run_until(bound, || ws.iter().all(|m| slog.msgs().contains(m)) && wc.iter().all(|m| clog.msgs().contains(m)));
        check!(ws.iter().all(|m| slog.msgs().contains(m)) && wc.iter().all(|m| clog.msgs().contains(m)), "reliable-outage",
            "outage of {len} ms starting {start} ms in, direction {dir}: server received [{}], client received [{}]", shows(&slog.msgs()), shows(&clog.msgs()));
        ok(format!("{len} {start} {dir} {}", simrt::tap_len()))
    })
}

fn spacing(name: &str, n: usize, gaps: &'static [u64], faults: u32) -> Space {
    Space::new(name, format!("{n} messages each way, every combination of pauses {gaps:?} ms between them, {faults} network faults"), move || {
        let mut script = vec![];
        for i in 0..n {
            script.push(c(R, 10 + i));
            if i % 2 == 1 {
                script.push(s(R, 40 + i));
            }
            script.push(w(gaps[pick(gaps.len())]));
        }
        let t = traffic::run(&script, Kind::Fate.bit(), 200, LIMIT)?;
        oracle(&t)
    })
    .kinds(&[Kind::Fate])
    .total(faults)
    .cfg(|c| c.fates = FATES_3())
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![
        sp("net/one-way-3", vec![c(R, 10), c(R, 11), c(R, 12)], &[Kind::Fate], if q { 3 } else { 4 }, FATES_DDD()),
        sp("net/both-ways", vec![c(R, 10), s(R, 11), c(R, 12), s(R, 13)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        sp("net/spaced", vec![c(R, 10), w(30), c(R, 11), w(60), c(R, 12), w(20), c(R, 13)], &[Kind::Fate], if q { 2 } else { 3 }, FATES_DDD()),
        sp("net/mixed", vec![c(R, 10), c(U, 11), c(RO, 12), c(R, 13), c(RS, 14), c(US, 15), c(R, 1340)], &[Kind::Fate], 2, if q { FATES_3() } else { FATES_DDD() }),
        sp("net/losses", vec![c(R, 10), w(20), s(R, 11), c(R, 12), w(70), c(R, 13), s(R, 14), w(40), c(R, 15)], &[Kind::Fate], if q { 3 } else { 5 }, FATES_DROP()),
        spacing("net/spacing", if q { 3 } else { 4 }, &[0, 20, 49, 51], if q { 1 } else { 2 }),
        arrivals("recv/arrivals", 3, if q { 4 } else { 5 }),
        outage("net/outage", if q { &[60, 400, 3000, 20000] } else { &[30, 60, 90, 200, 400, 1000, 3000, 10000, 20000, 40000] }, if q { &[0, 7, 35, 90] } else { &[0, 3, 7, 12, 20, 35, 50, 70, 90, 110, 140] }),
        sp("sched/order", vec![c(R, 10), s(R, 11), c(R, 12), w(60), c(R, 13)], &[Kind::Sched, Kind::Select, Kind::Tie], if q { 2 } else { 3 }, vec![]),
        sp("sched/preempt", vec![c(R, 10), s(R, 11), c(R, 12)], &[Kind::Yield, Kind::Sync], if q { 2 } else { 3 }, vec![]),
        sp("sched/with-fault", vec![c(R, 10), s(R, 11), c(R, 12)], &[Kind::Sched, Kind::Yield, Kind::Fate], 2, FATES_3()),
    ];
    v.push(scale::peer("scale/peer", "reliable", R, if q { &[40, 150, 600] } else { &[40, 300, 900, 3000] }, if q { 40 } else { 150 }, scale::nothing_else));
    v.push(sp("scale/queue", (0..if q { 150 } else { 400 }).map(|i| c(R, 10 + i)).collect(), &[Kind::Fate], 1, FATES_3()));
    v.push(scale::long("long/many", "reliable", R, 66_000));
    v.push(sp("net/send-errors", vec![c(R, 10), s(R, 11), c(R, 12), w(60), c(R, 13), s(R, 14)], &[Kind::Env], if q { 3 } else { 4 }, vec![]));
    v.push(sp("net/send-errors-and-faults", vec![c(R, 10), s(R, 11), c(R, 12), w(60), c(R, 13), s(R, 14)], &[Kind::Env, Kind::Fate], 2, FATES_3()));
    if !q {
        v.push(sp("net/one-way-drops", vec![c(R, 10), c(R, 11), c(R, 12)], &[Kind::Fate], 7, FATES_DROP()));
        v.push(sp("net/many", (0..10).map(|i| c(R, 10 + i)).collect(), &[Kind::Fate], 3, FATES_3()));
    }
    let v = with_uptime(v, &["net/mixed"], &[10, 120]);
    let v = with_counters(v, &["net/mixed", "net/both-ways"]);
    let v = with_stalls(v, &["net/one-way-3", "net/both-ways", "net/mixed", "net/losses"], 1, STALLS);
    let v = with_pauses(v, &["net/one-way-3", "net/both-ways", "net/mixed", "net/losses"], 2, &[60, 400, 3000]);
    let v = with_batch(v, &["scale/queue"]);
    let v = with_stalls_n(v, &["net/one-way-3", "net/both-ways"], 2);
    if q {
        v
    } else {
        with_stalls_n(v, &["net/one-way-3", "net/both-ways"], 3)
    }
}
