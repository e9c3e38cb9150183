//! A check runs in a process of its own, so that an execution that takes the whole process down
//! (abort, stack overflow, out of memory) is found, reproduced and reported like any other.

use crate::explore::{devs_json, Space};
use serde_json::{json, Value};
use simrt::Dev;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::Command;

extern "C" {
    fn prctl(op: i32, ...) -> i32;
}
const PR_SET_PDEATHSIG: i32 = 1;

/// what a worker is executing, for the case that it does not survive
pub struct Inflight(Option<File>);
impl Inflight {
    pub fn new(worker: usize) -> Inflight {
        let dir = match std::env::var_os("MC_INFLIGHT") {
            Some(d) => PathBuf::from(d),
            None => return Inflight(None),
        };
        Inflight(File::create(dir.join(worker.to_string())).ok())
    }
    pub fn begin(&self, space: &Space, devs: &[Dev]) {
        if let Some(f) = &self.0 {
            let t = json!({"space": space.name, "deviations": devs_json(devs)}).to_string();
            let mut b = format!("{:08}", t.len()).into_bytes();
            b.extend(t.bytes());
            let _ = f.write_all_at(&b, 0);
        }
    }
    pub fn end(&self) {
        if let Some(f) = &self.0 {
            let _ = f.write_all_at(b"00000000", 0);
        }
    }
}

fn read(dir: &Path) -> Vec<Value> {
    let mut out = vec![];
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let b = std::fs::read(e.path()).unwrap_or_default();
        let n: usize = b.get(..8).and_then(|b| std::str::from_utf8(b).ok()).and_then(|s| s.parse().ok()).unwrap_or(0);
        if n > 0 {
            if let Some(v) = b.get(8..8 + n).and_then(|b| serde_json::from_slice(b).ok()) {
                out.push(v);
            }
        }
    }
    out.sort_by_key(|v: &Value| v["deviations"].as_array().map_or(0, |a| a.len()));
    out
}

pub struct Death {
    pub space: String,
    pub devs: Value,
    pub signal: i32,
}

/// Runs `mc` with the same arguments in a child.  Exits with its status, unless a signal ended it:
/// then tells which execution did that, if one does so again, each time it is run.
pub fn run(args: &[String], id: &str, tier: &str) -> Result<Death, String> {
    let dir = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("cannot create {}: {e}", dir.display()))?;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let child = |args: &[String]| {
        let mut c = Command::new(&exe);
        c.args(args);
        // SAFETY: prctl is async-signal-safe
        unsafe {
            c.pre_exec(|| {
                prctl(PR_SET_PDEATHSIG, 9u64);
                Ok(())
            });
        }
        c
    };
    let st = child(args).env("MC_INFLIGHT", &dir).status();
    let found = read(&dir);
    let _ = std::fs::remove_dir_all(&dir);
    let st = st.map_err(|e| format!("cannot run {}: {e}", exe.display()))?;
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    eprintln!("the process that explored died ({st}); {} executions were under way", found.len());
    for v in &found {
        let one = || {
            let a: Vec<String> = ["one", id, tier, v["space"].as_str().unwrap_or(""), &v["deviations"].to_string()].iter().map(|s| s.to_string()).collect();
            child(&a).status().ok().and_then(|s| s.signal())
        };
        if let (Some(a), Some(b)) = (one(), one()) {
            if a == b {
                return Ok(Death { space: v["space"].as_str().unwrap_or("").into(), devs: v["deviations"].clone(), signal: a });
            }
        }
    }
    Err(format!("the process that explored died ({st}), and none of the executions under way does that when run again"))
}
