//! C20: send validates its argument, and a rejected send has no effect.

use super::*;
use crate::traffic::{self, *};

const HEAD: &str = "PacketHeaderError";
const SIZE: &str = "PacketSizeExceedMTU";

fn due(m: &[u8], r: Rel, mtu: u16) -> Result<(), &'static str> {
    if m.first() != Some(&0xfe) {
        Err(HEAD)
    } else if r != RO && m.len() > mtu as usize - 60 {
        Err(SIZE)
    } else {
        Ok(())
    }
}
fn tell(m: &[u8], r: Rel, mtu: u16) -> String {
    format!("{} bytes starting with {:?} as {r:?} with an MTU of {mtu}", m.len(), m.first())
}
/// the outcome of one send call
fn outcome(x: Result<Result<(), String>, Stuck>, m: &[u8], r: Rel, mtu: u16) -> Rz<bool> {
    let d = due(m, r, mtu);
    match (x, d) {
        (Ok(Ok(())), Ok(())) => Ok(true),
        (Ok(Err(e)), Err(w)) if e == w => Ok(false),
        (Ok(Ok(())), Err(w)) => found("accepted", format!("send of {} was accepted, {w} was due", tell(m, r, mtu))),
        (Ok(Err(e)), Ok(())) => found("rejected", format!("send of {} failed with {e}", tell(m, r, mtu))),
        (Ok(Err(e)), Err(w)) => found("wrong-error", format!("send of {} failed with {e}, {w} was due", tell(m, r, mtu))),
        (Err(s), _) => found("send-stuck", format!("send of {} {}", tell(m, r, mtu), s.text())),
    }
}
fn call(sock: &Rc<RaknetSocket>, m: &[u8], r: Rel, mtu: u16, sent: &mut Vec<(Rel, Vec<u8>)>) -> Rz<()> {
    // A rejected send has nothing to wait for and puts nothing on the wire.
    let n0 = simrt::tap_len();
    let t0 = simrt::now();
    if outcome(send(sock, m, r), m, r, mtu)? {
        sent.push((r, m.to_vec()));
    } else if simrt::now() == t0 {
        let put: Vec<Tap> = simrt::tap_from(n0).into_iter().filter(|t| t.lib && frames_of(&t.data).is_some_and(|f| f.1.iter().any(|f| f.data == m))).collect();
        check!(put.is_empty() || m.is_empty(), "rejected-sent", "{} was rejected and sent", tell(m, r, mtu));
    }
    Ok(())
}
fn messages_as_sent(c: &RawConn, sent: &[(Rel, Vec<u8>)], mtu: u16, what: &str) -> Res {
    let n = c19::judge(&[(c.raw.addr, mtu)], true, true, what)?;
    c19::in_order(&tap(), c.peer, c.raw.addr, sent, what)?;
    no_panic("send")?;
    Ok(Outcome { note: format!("{} sent, {n} datagrams", sent.len()), inner: n })
}

fn bytes(name: &str, lens: &'static [usize], before: &'static [usize]) -> Space {
    Space::new(name, format!("all 256 first bytes and the empty message, {lens:?} bytes, every reliability, with {before:?} messages unacknowledged, between accepted messages; both sides"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let first = pick(257);
        let mut m = payload(50, lens[if first == 256 { 0 } else { pick(lens.len()) }]);
        if first < 256 {
            m[0] = first as u8;
        } else {
            m.clear();
        }
        let r = Rel::ALL[pick(5)];
        let n = before[pick(before.len())];
        let mut sent = vec![];
        c.auto_ack.set(n == 0);
        for i in 0..n.max(1) {
            call(&sock, &payload(i as u32, 4 + i), [RO, R][i % 2], 1400, &mut sent)?;
        }
        c.pump(10 * MS);
        call(&sock, &m, r, 1400, &mut sent)?;
        call(&sock, &payload(60, 9), RO, 1400, &mut sent)?;
        call(&sock, &m, r, 1400, &mut sent)?;
        c.auto_ack.set(true);
        c.pump(20 * MS);
        call(&sock, &payload(61, 9), US, 1400, &mut sent)?;
        call(&sock, &payload(62, 9), RO, 1400, &mut sent)?;
        c.pump(SEC);
        messages_as_sent(&c, &sent, 1400, &tell(&m, r, 1400))
    })
}
fn lengths(name: &str, mtus: Vec<u16>, offs: &'static [isize], huge: &'static [usize]) -> Space {
    Space::new(name, format!("{} MTUs {}..={}, lengths MTU-60 + {offs:?} and {huge:?}, every reliability, between small messages of it; both sides", mtus.len(), mtus[0], mtus.last().unwrap()), move || {
        let side = pick(2);
        let mtu = mtus[pick(mtus.len())];
        let (c, sock, _l) = either_side_mtu(side, mtu)?;
        let k = pick(offs.len() + huge.len());
        let len = if k < offs.len() { (mtu as isize - 60 + offs[k]) as usize } else { huge[k - offs.len()] };
        let r = Rel::ALL[pick(5)];
        let mut sent = vec![];
        for (i, l) in [3, len, 4, len, 5].into_iter().enumerate() {
            call(&sock, &payload(i as u32, l), r, mtu, &mut sent)?;
            c.pump([0, 0, 30 * MS, 0, 0][i]);
        }
        c.pump(3 * SEC);
        messages_as_sent(&c, &sent, mtu, &tell(&payload(1, len), r, mtu))
    })
}
const CALLS: usize = 13;
fn nth(k: usize, tag: u32) -> (Rel, Vec<u8>) {
    let bad = |mut m: Vec<u8>| {
        m[0] = 0x15;
        m
    };
    match k {
        0 => (U, payload(tag, 8)),
        1 => (US, payload(tag, 8)),
        2 => (R, payload(tag, 8)),
        3 => (RO, payload(tag, 8)),
        4 => (RS, payload(tag, 8)),
        5 => (RO, payload(tag, 3000)),
        6 => (RO, vec![]),
        7 => (RO, bad(payload(tag, 8))),
        8 => (RO, bad(payload(tag, 3000))),
        9 => (U, payload(tag, 1341)),
        10 => (US, payload(tag, 1341)),
        11 => (R, payload(tag, 1341)),
        _ => (RS, payload(tag, 1341)),
    }
}
fn sequences(name: &str, n: usize) -> Space {
    Space::new(name, format!("every sequence of {n} send calls out of {CALLS} accepted and rejected ones, all at once or 60 ms apart, acknowledged or not; both sides"), move || {
        let side = pick(2);
        let (c, sock, _l) = either_side(side)?;
        let gap = [0, 60][pick(2)];
        c.auto_ack.set(pick(2) == 0);
        let mut sent = vec![];
        let mut ks = vec![];
        for i in 0..n {
            let k = pick(CALLS);
            ks.push(k);
            let (r, m) = nth(k, i as u32);
            call(&sock, &m, r, 1400, &mut sent)?;
            c.pump(gap * MS);
        }
        call(&sock, &payload(99, 7), RO, 1400, &mut sent)?;
        c.pump(120 * MS);
        c.auto_ack.set(true);
        c.pump(3 * SEC);
        messages_as_sent(&c, &sent, 1400, &format!("calls {ks:?}"))
    })
}
/// several tasks at once, some of whose calls must be rejected
fn tasks(name: &str, who: &'static [usize], kinds: &'static [Kind], total: u32) -> Space {
    Space::new(name, format!("three tasks that each make two of the calls {who:?}, at most {total} deviations of {kinds:?}; both ends are the library's"), move || {
        let p = pair()?;
        let (log, _j) = reader(&p.server);
        let t = [who[pick(who.len())], who[pick(who.len())], who[pick(who.len())]];
        let m = kinds.iter().fold(0, |a, k| a | k.bit()) | Kind::App.bit();
        simrt::explore(m);
        let jobs: Vec<_> = t
            .into_iter()
            .enumerate()
            .map(|(i, k)| {
                let s = p.client.clone();
                go("sender", async move {
                    let mut v = vec![];
                    for j in 0..2 {
                        let (r, m) = nth(k, (10 * i + j) as u32);
                        let x = s.send(&m, rel(r)).await.map_err(|e| format!("{e:?}"));
                        v.push((r, m, x));
                    }
                    v
                })
            })
            .collect();
        simrt::run_for(120 * MS);
        simrt::explore(0);
        let mut want = vec![];
        for j in &jobs {
            for (r, m, x) in must(j, 5 * SEC, "send")? {
                if outcome(Ok(x), &m, r, 1400)? {
                    want.push(m);
                }
            }
        }
        simrt::run_for(5 * SEC);
        let got = log.msgs();
        for m in &want {
            check!(got.contains(m), "message-lost", "calls {t:?}: {} was accepted and did not arrive", show(m));
        }
        check!(got.iter().all(|g| want.contains(g)), "rejected-sent", "calls {t:?}: arrived {}, accepted {}", shows(&got), shows(&want));
        let n = c19::judge(&[], false, true, &format!("calls {t:?}"))?;
        Ok(Outcome { note: format!("{t:?}"), inner: n })
    })
    .kinds(kinds)
    .total(total)
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let every = |step: usize| (400u16..=1400).step_by(step).collect::<Vec<u16>>();
    let mut v = vec![
        bytes("first-bytes", if q { &[1, 40] } else { &[1, 2, 40, 1340, 1341, 5000] }, if q { &[0, 2] } else { &[0, 1, 2, 5] }),
        lengths("lengths", vec![400, 576, 1399, 1400], &[-2, -1, 0, 1, 2, 60], &[1, 2, 2000, 8191, 8192, 65535, 65536, 70000]),
        lengths("lengths/all-mtus", every(if q { 25 } else { 1 }), &[-1, 0, 1], &[]),
        sequences("sequences", if q { 3 } else { 4 }),
        tasks("tasks", &[2, 3, 7, 11], &[Kind::Sched, Kind::Yield], if q { 1 } else { 2 }),
    ];
    if !q {
        v.push(lengths("lengths/every", vec![400], &[], {
            static L: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
            L.get_or_init(|| (1..=1400).collect())
        }));
        v.push(tasks("tasks/threads", &[2, 3, 7, 11], &[Kind::Sync, Kind::Yield], 2));
    }
    let v = with_stalls(v, &["tasks"], 1, STALLS);
    let v = with_pauses(v, &["tasks"], 2, &[60, 400, 3000]);
    v
}
