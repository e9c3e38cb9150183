//! C18: one connection can be used from many tasks at once.

use super::*;
use crate::traffic;
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// send with a reliability, this many bytes
    S(Rel, usize),
    /// a send that must be refused
    Bad,
    Recv,
    Flush,
    Close,
}
use Op::*;

/// what one task does
fn scripts() -> Vec<Vec<Op>> {
    vec![
        vec![S(RO, 10), S(RO, 11)],
        vec![S(RO, 3000), S(RO, 12)],
        vec![S(R, 10), S(RO, 10), S(U, 10)],
        vec![S(RS, 10), S(RS, 11)],
        vec![S(US, 10), S(U, 1340)],
        vec![Bad, S(RO, 20), Bad],
        vec![Recv, Recv],
        vec![Recv, S(RO, 30)],
        vec![Flush],
        vec![S(RO, 10), Flush],
        vec![Close],
        vec![S(RO, 2000), Close],
        vec![Recv, Recv, Recv, Recv],
    ]
}
#[derive(Default)]
struct Hist {
    /// calls in the order in which they returned
    done: RefCell<Vec<Done>>,
    running: Cell<usize>,
    step: Cell<u32>,
}
#[derive(Clone)]
struct Done {
    task: usize,
    op: Op,
    msg: Vec<u8>,
    res: String,
    /// position among all calls' starts and ends
    start: u32,
    end: u32,
    end_at: u64,
}

fn programs(name: &str, side: usize, tasks: usize, menu: Vec<usize>, kinds: &'static [Kind], total: u32, fates: fn() -> Vec<Fate>) -> Space {
    stalled(name, side, tasks, menu, kinds, total, fates, &[])
}

/// As before; a task may also stop for so many ms anywhere.
#[allow(clippy::too_many_arguments)]
fn stalled(name: &str, side: usize, tasks: usize, menu: Vec<usize>, kinds: &'static [Kind], total: u32, fates: fn() -> Vec<Fate>, stalls: &'static [u64]) -> Space {
    let scr = scripts();
    let who = ["client", "server"][side];
    let names: Vec<String> = menu.iter().map(|k| format!("{:?}", scr[*k])).collect();
    Space::new(
        name,
        format!("{tasks} tasks on one {who}'s connection, each running one of {} scripts ({}), while the peer sends three messages; up to {total} deviations of {kinds:?}{}", menu.len(), names.join(" "), if stalls.is_empty() { String::new() } else { format!("; a task may stop for {stalls:?} ms at any lock, channel or send") }),
        move || {
            let p = pair()?;
            let (s, o) = if side == 0 { (p.client.clone(), p.server.clone()) } else { (p.server.clone(), p.client.clone()) };
            let mut prog: Vec<usize> = vec![];
            for i in 0..tasks {
                // tasks are interchangeable: only sorted combinations
                let from = if i == 0 { 0 } else { prog[i - 1] };
                prog.push(from + pick(menu.len() - from));
            }
            let prog: Vec<Vec<Op>> = prog.iter().map(|k| scr[menu[*k]].clone()).collect();
            let closes = prog.iter().flatten().any(|o| *o == Close);
            let recvs = prog.iter().flatten().filter(|o| **o == Recv).count();
            let (olog, _oj) = reader(&o);
            // what the peer sends
            let peer: Vec<Vec<u8>> = (0..3.max(recvs) as u32).map(|i| payload(900 + i, [10, 2000, 30][i as usize % 3])).collect();
            let oj = {
                let (o, ms) = (o.clone(), peer.clone());
                go("peer", async move {
                    for m in ms {
                        if o.send(&m, rel(RO)).await.is_err() {
                            return false;
                        }
                    }
                    true
                })
            };
            simrt::explore(kinds.iter().fold(Kind::App.bit(), |m, k| m | k.bit()));
            let h: Rc<Hist> = Default::default();
            let mut jobs = vec![];
            for (t, sc) in prog.iter().enumerate() {
                let (s, sc, h) = (s.clone(), sc.clone(), h.clone());
                h.running.set(h.running.get() + 1);
                jobs.push(go("user", async move {
                    for (i, op) in sc.iter().enumerate() {
                        let mut msg = vec![];
                        h.step.set(h.step.get() + 1);
                        let start = h.step.get();
                        let r: Result<(), String> = match op {
                            S(r, n) => {
                                msg = payload((100 * t + i) as u32, *n);
                                s.send(&msg, rel(*r)).await.map_err(|e| format!("{e:?}"))
                            }
                            Bad => {
                                msg = if i == 0 { payload((100 * t + i) as u32, 1341) } else { vec![] };
                                s.send(&msg, rel(R)).await.map_err(|e| format!("{e:?}"))
                            }
                            Recv => match s.recv().await {
                                Ok(m) => {
                                    msg = m;
                                    Ok(())
                                }
                                Err(e) => Err(format!("{e:?}")),
                            },
                            Flush => s.flush().await.map_err(|e| format!("{e:?}")),
                            Close => s.close().await.map_err(|e| format!("{e:?}")),
                        };
                        simrt::log(|| format!("task {t}: {op:?} {} -> {r:?}", show(&msg)));
                        h.step.set(h.step.get() + 1);
                        h.done.borrow_mut().push(Done { task: t, op: *op, msg, res: r.err().unwrap_or_else(|| "Ok".into()), start, end: h.step.get(), end_at: simrt::now() });
                    }
                    h.running.set(h.running.get() - 1);
                }));
            }
            simrt::run_for(180 * MS);
            simrt::explore(Kind::App.bit());
            let what = format!("{prog:?}");
            let lossy = kinds.contains(&Kind::Fate) || !stalls.is_empty() || simrt::exploring() & Kind::Pause.bit() != 0;
            let d = simrt::now() + 20 * SEC;
            simrt::run_until(d, || h.running.get() == 0 || jobs.iter().any(|j| j.dead() && !j.done()));
            no_panic("tasks")?;
            check!(h.running.get() == 0, "tasks-hang", "{what}: after 20 s, only {:?} have returned", h.done.borrow().iter().map(|d| (d.task, d.op)).collect::<Vec<_>>());
            let done = h.done.borrow().clone();
            let sent = |want: fn(Rel) -> bool, t: usize| -> Vec<Vec<u8>> { done.iter().filter(|d| d.task == t && d.res == "Ok" && matches!(d.op, S(r, _) if want(r))).map(|d| d.msg.clone()).collect() };
            let complete = || {
                (0..tasks).all(|t| sent(|r| matches!(r, RO | R), t).iter().all(|m| olog.msgs().contains(m)))
            };
            if !closes {
                let d = simrt::now() + 10 * SEC;
                simrt::run_until(d, || complete() && oj.done());
                // what is left for this end to receive
                let got = done.iter().filter(|d| d.op == Recv).count();
                let mut rest = vec![];
                for _ in got..peer.len() {
                    match block(10 * SEC, s.recv()) {
                        Ok(Ok(m)) => rest.push(m),
                        x => bail!("tasks-recv", "{what}: recv afterwards: {:?}", x.map(|r| r.map_err(|e| format!("{e:?}"))).map_err(|e| e.text())),
                    }
                }
                let mut all: Vec<Vec<u8>> = done.iter().filter(|d| d.op == Recv).map(|d| d.msg.clone()).collect();
                // messages are handed out in order; the calls may return in another
                for t in 0..tasks {
                    let mine: Vec<_> = done.iter().filter(|d| d.op == Recv && d.task == t).map(|d| peer.iter().position(|p| *p == d.msg)).collect();
                    check!(mine.iter().all(|p| p.is_some()) && mine.windows(2).all(|w| w[0] < w[1]), "tasks-recv", "{what}: task {t} received the messages {mine:?}");
                }
                all.extend(rest);
                let mut a = all.clone();
                let mut b = peer.clone();
                a.sort();
                b.sort();
                check!(a == b, "tasks-recv", "{what}: the peer sent {}, recv returned {}", shows(&peer), shows(&all));
                simrt::run_for(300 * MS);
            } else {
                simrt::run_for(2 * SEC);
            }
            no_panic("tasks")?;
            let got = olog.msgs();
            for t in 0..tasks {
                let ro = sent(|r| r == RO, t);
                let back: Vec<_> = got.iter().filter(|m| ro.contains(m)).cloned().collect();
                if closes {
                    check!(back.len() <= ro.len() && back == ro[..back.len()], "tasks-order", "{what}: task {t} sent {}, the peer received {}", shows(&ro), shows(&back));
                } else {
                    check!(back == ro, "tasks-order", "{what}: task {t} sent {}, the peer received {}", shows(&ro), shows(&back));
                    for m in sent(if lossy { |r| r == R } else { |r| matches!(r, R | U) }, t) {
                        let n = got.iter().filter(|x| **x == m).count();
                        check!(n == 1 || lossy && n > 1, "tasks-reliable", "{what}: {} was received {n} times", show(&m));
                    }
                    // the network neither loses nor reorders: of each task's sequenced messages the last arrives, unless another task's newer one did
                    let sq = sent(|r| r.sequenced(), t);
                    let sb: Vec<_> = got.iter().filter(|m| sq.contains(m)).cloned().collect();
                    check!(sb.len() <= sq.len() && sb.iter().zip(sq.iter().filter(|m| sb.contains(m))).all(|(a, b)| a == b), "tasks-sequenced", "{what}: task {t}'s sequenced messages {} arrived as {}", shows(&sq), shows(&sb));
                }
            }
            let known: Vec<&Vec<u8>> = done.iter().filter(|d| matches!(d.op, S(..))).map(|d| &d.msg).collect();
            check!(got.iter().all(|m| known.contains(&m)), "tasks-invented", "{what}: the peer received {}", shows(&got));
            let (me, peer_a) = if side == 0 { (p.caddr, p.saddr) } else { (p.saddr, p.caddr) };
            for d in &done {
                let (t, r) = (d.task, &d.res);
                // another task's close had returned when this call was made
                let over = done.iter().any(|c| c.op == Close && c.end < d.start);
                let want = if over { "ConnectionClosed" } else { "Ok" };
                match d.op {
                    S(..) => check!(r == want || closes && r == "ConnectionClosed", "tasks-send", "{what}: task {t}'s send returned {r}"),
                    Bad => check!(r == "PacketSizeExceedMTU" || r == "PacketHeaderError" || closes && r == "ConnectionClosed", "tasks-bad", "{what}: task {t}'s invalid send returned {r}"),
                    Recv => check!(r == "Ok" || closes && r == "ConnectionClosed", "tasks-recv", "{what}: task {t}'s recv returned {r}"),
                    Flush => {
                        check!(r == want || closes && r == "ConnectionClosed", "tasks-flush", "{what}: task {t}'s flush returned {r}");
                        if r == "Ok" {
                            let before: Vec<_> = done.iter().filter(|x| x.res == "Ok" && x.end < d.start).filter_map(|x| if let S(r, _) = x.op { Some((x.msg.clone(), r)) } else { None }).collect();
                            let acked = super::c08::acked_at(me, peer_a, &before, 1400);
                            check!(acked.map_or(false, |a| a <= d.end_at), "tasks-flush", "{what}: task {t}'s flush returned Ok before {} were acknowledged", before.len());
                        }
                    }
                    Close => check!(r == "Ok", "tasks-close", "{what}: task {t}'s close returned {r}"),
                }
            }
            if closes {
                // final for every task
                match block(SEC, s.send(&payload(990, 5), rel(RO))) {
                    Ok(Err(e)) if format!("{e:?}") == "ConnectionClosed" => {}
                    x => bail!("tasks-close", "{what}: send after close: {:?}", x.map(|r| r.is_ok()).map_err(|e| e.text())),
                }
                let d = simrt::now() + 3 * SEC;
                while !matches!(block(SEC, o.send(&payload(991, 5), rel(U))), Ok(Err(_))) {
                    check!(simrt::now() < d, "tasks-close", "{what}: the peer is still open");
                    simrt::run_for(50 * MS);
                }
            } else {
                check!(matches!(block(5 * SEC, s.flush()), Ok(Ok(()))), "tasks-flush", "{what}: flush afterwards does not return Ok");
                must_send(&s, &payload(992, 2000), RO)?;
                let d = simrt::now() + 3 * SEC;
                simrt::run_until(d, || olog.msgs().last() == Some(&payload(992, 2000)));
                check!(olog.msgs().last() == Some(&payload(992, 2000)), "tasks-after", "{what}: the connection does not work afterwards");
            }
            no_panic("tasks")?;
            ok(format!("{what}{:?}", done.iter().map(|d| d.task).collect::<Vec<_>>()))
        },
    )
    .kinds(kinds)
    .total(total)
    .cfg(move |c| {
        c.fates = fates();
        c.stalls = stalls.iter().map(|s| s * MS).collect();
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let all: Vec<usize> = (0..scripts().len()).collect();
    let core = vec![0, 1, 2, 6, 9, 11];
    let none = traffic::FATES_DROP;
    let mut v = vec![
        programs("client/two", 0, 2, all.clone(), &[Kind::Sched, Kind::Yield, Kind::Select], 1, none),
        programs("server/two", 1, 2, all.clone(), &[Kind::Sched, Kind::Yield, Kind::Select], 1, none),
        programs("client/two/threads", 0, 2, all.clone(), &[Kind::Sync, Kind::Select], 1, none),
        programs("server/two/threads", 1, 2, all.clone(), &[Kind::Sync, Kind::Select], 1, none),
        programs("client/three", 0, 3, core.clone(), &[Kind::Sched, Kind::Sync], 1, none),
        programs("client/two/drops", 0, 2, core.clone(), &[Kind::Fate], 1, none),
    ];
    v.push(programs("server/three", 1, 3, if q { core.clone() } else { all.clone() }, &[Kind::Sched, Kind::Sync, Kind::Yield], 1, none));
    v.push(programs("client/two2", 0, 2, core.clone(), &[Kind::Sched, Kind::Sync, Kind::Select, Kind::Tie], 2, none));
    for (side, who) in ["client", "server"].iter().enumerate() {
        v.push(stalled(&format!("{who}/two/stalls"), side, 2, if q { core.clone() } else { all.clone() }, &[Kind::Yield], 1, none, &[1, 12, 40, 70, 300]));
        v.push(stalled(&format!("{who}/one/stalls"), side, 1, all.clone(), &[Kind::Yield], if q { 1 } else { 2 }, none, &[1, 5, 12, 20, 30, 40, 55, 70, 120, 300]));
    }
    v = with_pauses(v, &["client/two", "server/two", "client/three"], 1, &[60, 400]);
    v = with_batch(v, &["client/two", "server/two"]);
    if !q {
        v.push(programs("server/two2", 1, 2, all.clone(), &[Kind::Sched, Kind::Yield, Kind::Sync, Kind::Select, Kind::Tie], 2, none));
        v.push(programs("client/three2", 0, 3, core.clone(), &[Kind::Sched, Kind::Sync, Kind::Select], 2, none));
        v.push(programs("client/two/threads3", 0, 2, core.clone(), &[Kind::Sync, Kind::Select], 3, none));
        v.push(programs("server/two/drops2", 1, 2, core, &[Kind::Fate, Kind::Sync], 2, none));
    }
    v
}
