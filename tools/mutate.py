#!/usr/bin/env python3
"""Mutation campaign: small changes of /repo's source that compile and pass its tests, each given to every check.

  mutate.py list                     the mutants
  mutate.py run LANE LANES OUT [SEED] judge every LANES-th mutant in scratch copies under /tmp/mut/LANE (JSON lines to OUT)
  mutate.py again OUT NAME...        full quick checks of single mutants

Nothing here is read by a check; it is how the checks themselves are tested.
"""
import json, os, random, re, subprocess, sys, shutil, time

FILES = ["arq.rs", "socket.rs", "server.rs", "fragment.rs", "packet.rs", "datatype.rs", "utils.rs"]
CHECKS = "C12 C13 C10 C22 C23 C24 C20 C21 C01 C03 C06 C19 C11 C07 C02 C04 C05 C14 C15 C16 C17 C18 C26 C27 C08 C09 C25".split()

def mutants():
    out = []
    for f in FILES:
        src = open(f"/repo/src/{f}").read().split("\n")
        skip = False
        logging = False
        mc = 0
        depth_mc = None
        for n, line in enumerate(src):
            s = line.strip()
            # unused functions, arguments of log calls
            if re.search(r"\bfn _", line):
                skip = len(line) - len(line.lstrip())
            if skip is not False:
                if line == " " * skip + "}":
                    skip = False
                continue
            if logging or ("raknet_log" in s and "!(" in s):
                logging = not s.endswith(");") and not s.endswith(")")
                continue
            if "#[cfg(test)]" in s or s.startswith("#[tokio::test") or s == "#[test]":
                break
            if "cfg(raknet_mc)" in s:
                mc = 3
            if mc > 0:
                mc -= 1
                continue
            if not s or s.startswith("//") or "raknet_log" in s or s.startswith("use ") or s.startswith("#") or "crate::mc" in s or "start." in s:
                continue
            def add(op, new):
                if new != line:
                    out.append({"file": f, "line": n, "op": op, "old": line, "new": new})
            # comparisons
            for m in re.finditer(r" (<=|>=|==|!=|<|>) ", line):
                if m.group(1) in "<>" and ("fn " in line or "->" in line):
                    continue
                for r in {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]:
                    add("cmp", line[: m.start(1)] + r + line[m.end(1):])
            for m in re.finditer(r" (&&|\|\|) ", line):
                add("bool", line[: m.start(1)] + {"&&": "||", "||": "&&"}[m.group(1)] + line[m.end(1):])
            for m in re.finditer(r" (\+|-|\*|/|<<|>>|&|\|) ", line):
                if m.group(1) == "|" and "=>" in line:
                    continue
                for r in {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"]}[m.group(1)]:
                    add("arith", line[: m.start(1)] + r + line[m.end(1):])
            for m in re.finditer(r"(?<![\w.#\"x])(\d+)(?![\w.\"])", line):
                v = int(m.group(1))
                for r in sorted({v + 1, v - 1 if v else 1, v * 2}):
                    if r != v:
                        add("const", line[: m.start()] + str(r) + line[m.end():])
            for m in re.finditer(r"\b(true|false)\b", line):
                add("lit", line[: m.start()] + {"true": "false", "false": "true"}[m.group(1)] + line[m.end():])
            m = re.search(r"\bif (?!let)(.*) \{$", line)
            if m:
                add("cond", line[: m.start(1)] + "!(" + m.group(1) + ")" + line[m.end(1):])
                add("cond-true", line[: m.start(1)] + "(" + m.group(1) + ") || true" + line[m.end(1):])
                add("cond-false", line[: m.start(1)] + "(" + m.group(1) + ") && false" + line[m.end(1):])
            if re.match(r"(continue|break);$", s):
                add("jump", line.replace("continue", "CONT").replace("break", "continue").replace("CONT", "break"))
                add("jump-del", line.replace(s, ""))
            if s.endswith(";") and not re.match(r"(let|return|continue|break|use|pub|const|static|mod)\b", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}") and s[0] not in ".})":
                add("del", line.replace(s, ""))
            if re.match(r"return .*;$", s) and s.count("(") == s.count(")"):
                add("ret-del", line.replace(s, ""))
            if re.match(r"self\.[\w.]+ = .*;$", s):
                pass
            if ".sort" in s:
                add("rev", line.replace(s, ""))
            if ".rev()" in line:
                add("rev", line.replace(".rev()", ""))
            if ".min(" in line:
                add("minmax", line.replace(".min(", ".max("))
            if ".max(" in line:
                add("minmax", line.replace(".max(", ".min("))
    # unique
    seen, u = set(), []
    for m in out:
        k = (m["file"], m["line"], m["new"])
        if k not in seen:
            seen.add(k)
            m["name"] = f'{m["file"][:-3]}:{m["line"]+1}:{m["op"]}:{len([x for x in u if x["file"]==m["file"] and x["line"]==m["line"]])}'
            u.append(m)
    return u

def sh(cmd, cwd, timeout):
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-f", cwd + "/target/release/mc"])
        return 99, "timeout"

class Lane:
    def __init__(self, lane, workers):
        self.d = f"/tmp/mut/{lane}"
        self.w = workers
        os.makedirs(self.d, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "/repo/", f"{self.d}/repo/"], check=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/verif/mc/", f"{self.d}/mc/"], check=True)
        t = open(f"{self.d}/mc/Cargo.toml").read()
        open(f"{self.d}/mc/Cargo.toml", "w").write(t.replace('"/repo"', f'"{self.d}/repo"'))
        rc, o = self.build()
        assert rc == 0, o[-3000:]
    def build(self):
        return sh("cargo build --release --offline -q", f"{self.d}/mc", 300)
    def apply(self, m):
        p = f"{self.d}/repo/src/{m['file']}"
        L = open(p).read().split("\n")
        assert L[m["line"]] == m["old"], m
        L[m["line"]] = m["new"]
        open(p, "w").write("\n".join(L))
    def undo(self):
        sh("git checkout -- src", f"{self.d}/repo", 30)
    def tests(self):
        rc, o = sh("cargo check --offline -q >/dev/null 2>&1", f"{self.d}/repo", 120)
        if rc:
            return "no compile"
        for _ in range(2):
            rc, o = sh("cargo test --offline -q --lib --no-run 2>/dev/null; timeout -k 1 12 unshare -Urnpf --kill-child sh -c 'ip link set lo up; cargo test --offline -q --lib' >/dev/null 2>&1", f"{self.d}/repo", 120)
            if rc == 0:
                return None
            if rc == 124:
                break
        return "tests"
    def judge(self, checks, budget):
        rc, o = self.build()
        if rc:
            return "no build", ""
        for c in checks:
            rc, o = sh(f"ulimit -v 14000000; ./target/release/mc check {c} --budget {budget} --workers {self.w} --replays /tmp/mut/replays --evidence /tmp/mut/ev.json", f"{self.d}/mc", 900)
            if rc:
                l = [x for x in o.split("\n") if x.startswith("violation of") or "MACHINERY" in x]
                return c + ("" if rc == 1 else f" rc{rc}"), (l or o.split("\n")[-3:])[0][:300]
        return None, ""

def main():
    a = sys.argv[1]
    M = mutants()
    if a == "list":
        for m in M:
            print(m["name"], m["old"].strip(), "=>", m["new"].strip())
        print(len(M))
    elif a == "run":
        lane, lanes, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
        random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1).shuffle(M)
        done = set()
        if os.path.exists(out):
            done = {json.loads(l)["name"] for l in open(out)}
        L = Lane(lane, max(2, 8 // lanes))
        for m in M[lane::lanes]:
            if m["name"] in done:
                continue
            t = time.time()
            L.apply(m)
            r = L.tests()
            why = ""
            if r is None:
                r, why = L.judge(CHECKS, 6)
                r = r or "SURVIVED"
            L.undo()
            m.update(result=r, why=why, s=round(time.time() - t))
            open(out, "a").write(json.dumps(m) + "\n")
    elif a == "again":
        out = sys.argv[2]
        L = Lane("again", 8)
        for m in M:
            if m["name"] in sys.argv[3:]:
                L.apply(m)
                r, why = L.judge(CHECKS, 420)
                L.undo()
                m.update(result=r or "SURVIVED", why=why)
                open(out, "a").write(json.dumps(m) + "\n")
                print(m["name"], m["result"], why, flush=True)
main()
