//! C27: steps of the wall clock do not matter.

use super::*;
use crate::traffic::*;

/// (when, by how much), in ms
type Steps = Vec<(u64, i64)>;

const DELTAS: &[i64] = &[-10 * 365 * 86_400_000, -3_600_000, -61_000, -1000, -60, 60, 1000, 61_000, 3_600_000, 10 * 365 * 86_400_000];

/// one step of every size at every instant, and (if `back`) its reversal so many ms later
fn steps(at: &[u64], back: &[u64]) -> Vec<Steps> {
    let mut v = vec![];
    for t in at {
        for d in DELTAS {
            v.push(vec![(*t, *d)]);
            for b in back {
                v.push(vec![(*t, *d), (*t + b, -*d)]);
            }
        }
    }
    v
}
fn range(from: u64, to: u64, by: usize) -> Vec<u64> {
    (from..to).step_by(by).collect()
}

/// Another check's executions, while the wall clock steps.
fn stepped(id: &str, spaces: Vec<Space>, only: &[&str], total: u32, steps: Vec<Steps>) -> Vec<Space> {
    let steps = std::sync::Arc::new(steps);
    let out: Vec<Space> = spaces
        .into_iter()
        .filter(|s| only.contains(&s.name.as_str()))
        .map(|mut s| {
            s.name = format!("{id}/{}", s.name);
            s.total = s.total.min(total);
            s.desc = format!("the wall clock steps in one of {} ways, forwards or backwards by 60 ms to 10 years, at an instant from {} to {} ms into the execution, back again or not; at most {} deviations; {}", steps.len(), steps.first().unwrap()[0].0, steps.last().unwrap()[0].0, s.total, s.desc);
            let run = s.run.clone();
            let steps = steps.clone();
            s.run = std::sync::Arc::new(move || {
                let st = &steps[pick(steps.len())];
                let ns: Vec<(u64, i64)> = st.iter().map(|(t, d)| (t * MS, d * MS as i64)).collect();
                simrt::wall_steps(&ns);
                let r = run();
                match r {
                    Err(mut f) => {
                        f.msg = format!("the wall clock steps {}: {}", st.iter().map(|(t, d)| format!("by {d} ms at {t} ms")).collect::<Vec<_>>().join(" and "), f.msg);
                        Err(f)
                    }
                    Ok(mut o) => {
                        o.note = format!("{st:?} {}", o.note);
                        Ok(o)
                    }
                }
            });
            s
        })
        .collect();
    assert_eq!(out.len(), only.len(), "{id}");
    out
}

/// Traffic of every kind, everything about it judged.
fn traffic(name: &str, kinds: &'static [Kind], total: u32) -> Space {
    let script = vec![c(RO, 10), s(R, 11), w(30), c(RO, 3000), c(U, 12), s(RS, 13), w(70), c(R, 14), s(RO, 1600), c(US, 15), w(120), c(RO, 16), s(RO, 17)];
    traffic_space(name, script, kinds, total, 500, FATES_DDD(), |t| {
        c01::oracle(t)?;
        c03::oracle(t)?;
        c04::oracle(t)?;
        c05::oracle(t)?;
        c06::oracle(t)?;
        c07::oracle(t)?;
        no_panic("clock")?;
        ok(t.fingerprint())
    })
}

pub fn spaces(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let at = range(340, 800, if q { 40 } else { 10 });
    v.extend(stepped("C27", vec![traffic("traffic", &[], 0)], &["traffic"], 0, steps(&range(0, 1200, 5), &[7, 60, 300])));
    v.extend(stepped("C27", vec![traffic("traffic/faults", &[Kind::Fate], 1)], &["traffic/faults"], if q { 1 } else { 2 }, steps(&if q { at.clone() } else { range(340, 800, 40) }, &[])));
    v.extend(stepped("C08", c08::spaces(Tier::Quick), &["net/both"], 1, steps(&at, &[])));
    v.extend(stepped("C07", c07::spaces(Tier::Quick), &["raw/slow"], 0, steps(&[100, 400, 1000, 3000, 10_000, 20_000], &[1000])));
    v.extend(stepped("C10", c10::spaces(Tier::Quick), &["silent"], 0, steps(&if q { vec![1000, 59_000] } else { vec![50, 1000, 30_000, 59_000, 60_010, 60_100, 60_250] }, if q { &[] } else { &[500, 20_000] })));
    v.extend(stepped("C10", c10::spaces(Tier::Quick), &["kept-alive"], 0, steps(&if q { vec![30_000] } else { vec![1000, 30_000, 59_000, 60_000, 89_000, 100_000] }, if q { &[] } else { &[500] })));
    v.extend(stepped("C11", c11::spaces(Tier::Quick), &["faults/one-client"], 1, steps(&{
        let mut r = range(0, 100, if q { 15 } else { 3 });
        r.extend([1990, 2000, 2010]);
        r
    }, &[])));
    v.extend(stepped("C11", c11::spaces(Tier::Quick), &["server-gone"], 0, steps(&[1, 20, 1000, 9000, 20_000, 29_000, 59_000], &[])));
    v.extend(stepped("C13", c13::spaces(Tier::Quick), &["client/delays"], 0, steps(&[0, 3, 12, 100, 500, 2500], &[2])));
    v
}
