pub(crate) use crate::explore::*;
pub(crate) use crate::kit::*;
pub(crate) use crate::wire::{self, Frame, Msg, Pkt, Rel, Rel::*};
pub(crate) use crate::{bail, check, Tier};
pub(crate) use rust_raknet::{RaknetListener, RaknetSocket};
pub(crate) use simrt::{pick, Fate, Kind, Tap, MS, SEC};
pub(crate) use std::rc::Rc;

pub struct Check {
    pub id: &'static str,
    pub spaces: fn(Tier) -> Vec<Space>,
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod scale;

pub fn all() -> Vec<Check> {
    vec![
        Check { id: "C01", spaces: c01::spaces },
        Check { id: "C02", spaces: c02::spaces },
        Check { id: "C03", spaces: c03::spaces },
        Check { id: "C04", spaces: c04::spaces },
        Check { id: "C05", spaces: c05::spaces },
        Check { id: "C06", spaces: c06::spaces },
        Check { id: "C07", spaces: c07::spaces },
        Check { id: "C08", spaces: c08::spaces },
        Check { id: "C09", spaces: c09::spaces },
        Check { id: "C10", spaces: c10::spaces },
        Check { id: "C11", spaces: c11::spaces },
        Check { id: "C12", spaces: c12::spaces },
        Check { id: "C13", spaces: c13::spaces },
        Check { id: "C14", spaces: c14::spaces },
        Check { id: "C15", spaces: c15::spaces },
        Check { id: "C16", spaces: c16::spaces },
        Check { id: "C17", spaces: c17::spaces },
        Check { id: "C18", spaces: c18::spaces },
        Check { id: "C19", spaces: c19::spaces },
        Check { id: "C20", spaces: c20::spaces },
        Check { id: "C21", spaces: c21::spaces },
        Check { id: "C22", spaces: c22::spaces },
        Check { id: "C23", spaces: c23::spaces },
        Check { id: "C24", spaces: c24::spaces },
        Check { id: "C25", spaces: c25::spaces },
        Check { id: "C26", spaces: c26::spaces },
        Check { id: "C27", spaces: c27::spaces },
    ]
}

/// Adds the executions of some of the spaces again, with a task that stops, holding what it holds, for one of
/// so many ms at a lock, channel or send, instead of the other deviations; `total` such stops.
pub fn with_stalls(mut v: Vec<Space>, names: &[&str], total: u32, ms: &[u64]) -> Vec<Space> {
    let some: Vec<Space> = v.iter().filter(|s| names.contains(&s.name.as_str())).cloned().collect();
    assert_eq!(some.len(), names.len(), "{names:?}");
    for mut s in some {
        s.kinds = Kind::App.bit() | Kind::Yield.bit();
        s.desc = format!("{total} times a task stops for one of {ms:?} ms at a lock, channel or send, instead of the other deviations of: {}", s.desc);
        s.name = format!("stalls/{}", s.name);
        s.total = total;
        s.cfg.extra = Kind::Yield.bit();
        s.cfg.stalls = ms.iter().map(|m| m * MS).collect();
        v.push(s);
    }
    v
}
/// Adds the executions of some of the spaces again, with a whole process that stops for one of so many ms between any
/// two events, instead of the other deviations; all that became due meanwhile happens at once.  `total` such stops.
pub fn with_pauses(mut v: Vec<Space>, names: &[&str], total: u32, ms: &[u64]) -> Vec<Space> {
    let some: Vec<Space> = v.iter().filter(|s| names.contains(&s.name.as_str())).cloned().collect();
    assert_eq!(some.len(), names.len(), "{names:?}");
    for mut s in some {
        s.kinds = Kind::App.bit() | Kind::Pause.bit();
        s.desc = format!("{total} times the whole process stops for one of {ms:?} ms between two events, then all that is due happens at once, instead of the other deviations of: {}", s.desc);
        s.name = format!("pauses/{}", s.name);
        s.total = total;
        s.cfg.extra = Kind::Pause.bit();
        s.cfg.pauses = ms.iter().map(|m| m * MS).collect();
        s.cfg.batch = true;
        v.push(s);
    }
    v
}
/// Adds some of the spaces again, where all that is due at one instant happens before the tasks it wakes run.
pub fn with_batch(mut v: Vec<Space>, names: &[&str]) -> Vec<Space> {
    let some: Vec<Space> = v.iter().filter(|s| names.contains(&s.name.as_str())).cloned().collect();
    assert_eq!(some.len(), names.len(), "{names:?}");
    for mut s in some {
        s.desc = format!("all that is due at one instant happens before the tasks it wakes run; {}", s.desc);
        s.name = format!("batch/{}", s.name);
        let cfg = s.cfg.clone();
        s.cfg = simrt::Config { batch: true, ..cfg };
        v.push(s);
    }
    v
}
/// More of them, of fewer lengths.
pub fn with_stalls_n(v: Vec<Space>, names: &[&str], total: u32) -> Vec<Space> {
    let n = v.len();
    let mut v = with_stalls(v, names, total, &[12, 70]);
    for s in &mut v[n..] {
        s.name = s.name.replacen("stalls/", &format!("stalls-{total}/"), 1);
    }
    v
}
/// Adds the executions of some of the spaces again, with the counters of every connection just before a power of two.
pub fn with_counters(mut v: Vec<Space>, names: &[&str]) -> Vec<Space> {
    let some: Vec<Space> = v.iter().filter(|s| names.contains(&s.name.as_str())).cloned().collect();
    assert_eq!(some.len(), names.len(), "{names:?}");
    for mut s in some {
        const BITS: [u32; 7] = [7, 8, 12, 15, 16, 23, 24];
        const LEFT: [u32; 2] = [1, 4];
        s.total = s.total.min(2);
        s.desc = format!("the numbers and indexes of both ends begin {LEFT:?} before 2 to the power of one of {BITS:?}; at most {} deviations; {}", s.total, s.desc);
        s.name = format!("counters/{}", s.name);
        let run = s.run.clone();
        s.run = std::sync::Arc::new(move || {
            let at = (1 << BITS[pick(BITS.len())]) - LEFT[pick(LEFT.len())];
            begin_at([at; 4], at as u16);
            run().map_err(|mut f| {
                f.msg = format!("with counters that begin at {at}: {}", f.msg);
                f
            })
        });
        v.push(s);
    }
    v
}
/// Adds the executions of some of the spaces again, in a process that has been running for so long, or at such a
/// time, that a clock in ms or s is about to outgrow 31 or 32 bits: `lefts` ms before that.
pub fn with_uptime(mut v: Vec<Space>, names: &[&str], lefts: &'static [u64]) -> Vec<Space> {
    let some: Vec<Space> = v.iter().filter(|s| names.contains(&s.name.as_str())).cloned().collect();
    assert_eq!(some.len(), names.len(), "{names:?}");
    for mut s in some {
        s.total = s.total.min(1);
        s.desc = format!("begins {lefts:?} ms before the time since the process began, or since the epoch, outgrows 31 or 32 bits of ms or s; at most {} deviations; {}", s.total, s.desc);
        s.name = format!("uptime/{}", s.name);
        let run = s.run.clone();
        s.run = std::sync::Arc::new(move || {
            const E: u64 = simrt::EPOCH_S * 1000;
            let next = |m: u64| m - E % m;
            let ends: [u64; 5] = [1 << 31, 1 << 32, next(1 << 31), next(1 << 32), (1000 << 31) - E];
            let end = ends[pick(ends.len())];
            let at = end - lefts[pick(lefts.len())];
            simrt::advance_clock_to(at * MS);
            run().map_err(|mut f| {
                f.msg = format!("begun after the process ran for {at} ms: {}", f.msg);
                f
            })
        });
        v.push(s);
    }
    v
}
/// Adds the executions of some of the spaces again, with listeners that come from a socket of the standard library.
pub fn with_std(mut v: Vec<Space>, names: &[&str]) -> Vec<Space> {
    let some: Vec<Space> = v.iter().filter(|s| names.contains(&s.name.as_str())).cloned().collect();
    assert_eq!(some.len(), names.len(), "{names:?}");
    for mut s in some {
        s.total = s.total.min(1);
        s.desc = format!("with listeners made by from_std; at most {} deviations; {}", s.total, s.desc);
        s.name = format!("from-std/{}", s.name);
        let run = s.run.clone();
        s.run = std::sync::Arc::new(move || {
            listen_from_std();
            run()
        });
        v.push(s);
    }
    v
}
pub const STALLS: &[u64] = &[1, 12, 40, 70, 300];

/// A raw peer facing the library's server (0) or the library's client (1).
pub fn either_side(side: usize) -> Rz<(RawConn, Rc<RaknetSocket>, Option<RaknetListener>)> {
    either_side_mtu(side, 1400)
}
pub fn either_side_mtu(side: usize, mtu: u16) -> Rz<(RawConn, Rc<RaknetSocket>, Option<RaknetListener>)> {
    if side == 0 {
        let m = simrt::exploring();
        simrt::explore(0);
        let mut l = listen_at(server_addr())?;
        let c = raw_client(sa("127.0.0.1:50001"), server_addr(), mtu)?;
        let s = match accept(&mut l, SEC) {
            Ok(Ok(s)) => s,
            x => return found("setup: accept", format!("a raw client's connection was not accepted: {:?}", x.map(|r| r.map(|_| ())))),
        };
        simrt::explore(m);
        Ok((c, s, Some(l)))
    } else {
        let (c, s) = raw_server(server_addr(), mtu)?;
        Ok((c, s, None))
    }
}
