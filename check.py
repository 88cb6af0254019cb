#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--only SUBSTR] [--scale X]
   check.py --setup            builds every harness
   check.py --replay FILE      runs one recorded case again

Builds the harness of property ID from /repo's working tree, searches, and
prints VIOLATION / KNOWN-FINDING lines.  Exit 0: held on everything explored.
Exit 1: broken.  Anything else is an error of the machinery.
"""
import argparse
import atexit
import fcntl
import json
import os
import shlex
import shutil
import subprocess
import tempfile
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF + "/build_tools")
from checks import CHECKS, VARIANTS  # noqa: E402

BUILD = VERIF + "/build"
BIN = "bazel-out/k8-opt/bin/verif"
JOBS = os.cpu_count() or 8


def has_cpu(flags):
    try:
        have = set()
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                have = set(line.split())
                break
    except OSError:
        return True
    return not have or all(f in have for f in flags)


def runs(spec):
    """the (variant, target) pairs this machine can execute"""
    return [(v, t) for v, t in spec["runs"]
            if has_cpu(VARIANTS[v].get("cpu", []))]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def prep(variant):
    v = VARIANTS[variant]
    env = dict(os.environ, VERIF_VARIANT=v.get("variant", ""),
               CCACHE_DISABLE="1", **v.get("env", {}))
    r = subprocess.run([VERIF + "/build_tools/prep.sh", BUILD + "/" + variant],
                       env=env, capture_output=True, text=True)
    if r.returncode:
        log(r.stdout[-2000:], r.stderr[-4000:])
        return False
    return True


def exe(variant, target):
    return "%s/%s/%s/%s/%s" % (BUILD, variant, BIN, target, target)


def build(variant, targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock." + variant, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(BUILD + "/lock.src", "w") as lk2:
            fcntl.flock(lk2, fcntl.LOCK_EX)
            if not prep(variant):
                return False
        out = BUILD + "/" + variant
        r = subprocess.run(
            ["ninja", "-C", out, "-j", str(JOBS)] +
            ["%s/%s/%s" % (BIN, t, t) for t in targets],
            env=dict(os.environ, CCACHE_DISABLE="1",
                     GIT_CONFIG_COUNT="1",
                     GIT_CONFIG_KEY_0="safe.directory",
                     GIT_CONFIG_VALUE_0="*", PYTHONDONTWRITEBYTECODE="1"),
            capture_output=True, text=True)
        if r.returncode:
            log(r.stdout[-6000:], r.stderr[-2000:])
            return False
    return True


def run_env(variant):
    e = dict(os.environ, GLOG_minloglevel="4", GLOG_logtostderr="1")
    e.update(VARIANTS[variant].get("run_env", {}))
    e.setdefault("OMP_NUM_THREADS", "1")
    # Threads that wait give their core away: the shards share the machine.
    e.setdefault("OMP_WAIT_POLICY", "passive")
    e.setdefault("GOMP_SPINCOUNT", "0")
    return e


class Harness:
    def __init__(self, variant, target, args, tmp):
        self.variant, self.target = variant, target
        self.exe = exe(variant, target)
        self.args, self.tmp = args, tmp
        self.shards = VARIANTS[variant].get("shards", JOBS)

    def cmd_run(self, shard, out, only=None):
        c = [self.exe, "--run", "--seed", str(self.args.seed),
             "--tier", self.args.tier, "--shard", str(shard),
             "--shards", str(self.shards), "--out", out,
             "--scale", str(self.args.scale)]
        if only or self.args.only:
            c += ["--only", only or self.args.only]
        return c

    def search(self):
        """-> (failures, stats); runs all shards"""
        ps, outs = [], []
        for i in range(self.shards):
            out = "%s/%s.%s.%d.jsonl" % (self.tmp, self.variant, self.target, i)
            open(out, "w").close()
            outs.append(out)
            ps.append(subprocess.Popen(
                self.cmd_run(i, out), env=run_env(self.variant),
                cwd=self.tmp, stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL))
        bad = [p.wait() for p in ps]
        if any(bad):
            log("worker of %s ended with %s" % (self.target, bad))
            sys.exit(3)
        failures, stats = [], {}
        for i, out in enumerate(outs):
            for line in open(out, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["kind"] == "failure":
                    d["shard"] = i
                    failures.append(d)
                else:
                    s = stats.setdefault(d["prop"], {
                        "evals": 0, "nontrivial": 0, "labels": {},
                        "samples": []})
                    s["evals"] += d["evals"]
                    s["nontrivial"] += d["nontrivial"]
                    for k, v in d["labels"].items():
                        s["labels"][k] = s["labels"].get(k, 0) + v
                    s["samples"] = (s["samples"] + d["samples"])[:2]
        return failures, stats

    def replay(self, prop, choices):
        r = subprocess.run([self.exe, "--replay", prop, "--choices", choices],
                           env=run_env(self.variant), cwd=self.tmp,
                           capture_output=True, text=True, errors="replace")
        return r.returncode, r.stdout

    def confirm(self, f, dest):
        """-> path of a replay file when the failure is reproducible"""
        seedfile = dest + ".seed"
        with open(seedfile, "w") as g:
            g.write("seed %d\n" % f["seed"])
        rcs = [self.replay(f["prop"], seedfile)[0] for _ in range(3)]
        if all(rc == 1 for rc in rcs):
            ch = dest + ".choices"
            r = subprocess.run(
                [self.exe, "--shrink", f["prop"], "--choices", seedfile,
                 "--out", ch, "--budget", "400"], env=run_env(self.variant),
                cwd=self.tmp, capture_output=True, text=True, errors="replace")
            use = seedfile
            if r.returncode == 0 and os.path.exists(ch) and \
                    self.replay(f["prop"], ch)[0] == 1:
                use = ch
            rc, out = self.replay(f["prop"], use)
            with open(dest, "w") as g:
                json.dump({"variant": self.variant, "target": self.target,
                           "prop": f["prop"], "mode": "choices",
                           "choices": open(use).read().split("\n"),
                           "report": out}, g, indent=1)
            log(out[:3000])
            self.cleanup(seedfile, ch)
            return dest
        if any(rc == 1 for rc in rcs):
            # depends on scheduling: keep the case, say how often it fails
            n = sum(self.replay(f["prop"], seedfile)[0] == 1 for _ in range(20))
            if n + sum(rc == 1 for rc in rcs) >= 2:
                with open(dest, "w") as g:
                    json.dump({"variant": self.variant, "target": self.target,
                               "prop": f["prop"], "mode": "choices",
                               "choices": ["seed %d" % f["seed"]],
                               "report": "fails in %d of 23 runs; %s: %s" % (
                                   n + sum(rc == 1 for rc in rcs),
                                   f["tag"], f["msg"])}, g, indent=1)
                self.cleanup(seedfile)
                return dest
        # depends on the cases before it in its worker: run that worker again
        hits = 0
        for _ in range(3):
            out = dest + ".out"
            open(out, "w").close()
            subprocess.run(self.cmd_run(f["shard"], out, f["prop"]),
                           env=run_env(self.variant), cwd=self.tmp,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
            for line in open(out, errors="replace"):
                d = json.loads(line)
                if d["kind"] == "failure" and d["prop"] == f["prop"]:
                    hits += 1
        self.cleanup(seedfile, dest + ".out")
        if hits >= 2:
            with open(dest, "w") as g:
                json.dump({"variant": self.variant, "target": self.target,
                           "prop": f["prop"], "mode": "worker",
                           "cmd": self.cmd_run(f["shard"], "OUT", f["prop"]),
                           "report": "fails after the cases before it: %s: %s"
                           % (f["tag"], f["msg"])}, g, indent=1)
            return dest
        return None

    @staticmethod
    def cleanup(*files):
        for x in files:
            if os.path.exists(x):
                os.remove(x)


def known_findings(pid):
    """sub-properties whose failure is a recorded finding: name -> text"""
    r = {}
    path = VERIF + "/known-findings.txt"
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                rest = line.split(None, 2)[2].strip()
                name, _, text = rest.partition(" ")
                r[name[len("case="):]] = text
    return r


def check(args):
    pid = args.id
    spec = CHECKS[pid]
    args.scale *= spec["scale"][args.tier]
    t0 = time.time()
    tmp = os.environ.get("VERIF_TMP") or BUILD + "/run." + pid
    os.makedirs(tmp, exist_ok=True)
    replays = VERIF + "/evidence/replays"
    os.makedirs(replays, exist_ok=True)
    known = known_findings(pid)
    failures, stats, found = [], {}, 0
    hs = []
    for variant, target in runs(spec):
        if not build(variant, [target]):
            log("the harness of %s does not build" % pid)
            return 3
        hs.append(Harness(variant, target, args, tmp))
    t_build = time.time() - t0
    for h in hs:
        fs, st = h.search()
        for f in fs:
            failures.append((h, f))
        for k, v in st.items():
            key = "%s[%s]" % (k, h.variant) if k in stats else k
            stats[key] = v
    t_search = time.time() - t0 - t_build
    groups = {}
    for h, f in failures:
        groups.setdefault((h.variant, h.target, f["prop"]), []).append((h, f))
    violations, knowns, unrepro = [], [], []
    ordered = sorted(groups.items(), key=lambda kv: kv[0])
    for n, (key, items) in enumerate(ordered):
        prop = key[2]
        if prop in known:
            knowns.append(prop)
            continue
        if len(violations) >= 3:
            break
        items.sort(key=lambda x: x[1]["index"])
        ok = None
        for h, f in items[:3]:
            dest = "%s/%s-%d.json" % (replays, pid, len(violations) + 1)
            ok = h.confirm(f, dest)
            if ok:
                violations.append((ok, prop, f))
                break
        if not ok:
            unrepro.append("%s: %s" % (prop, items[0][1]["tag"]))
    for prop in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, prop, known[prop]))
    evals = sum(s["evals"] for s in stats.values())
    nontriv = sum(s["nontrivial"] for s in stats.values())
    samples = []
    for k in sorted(stats):
        for s in stats[k]["samples"][:1]:
            samples.append("%s: %s" % (k, s[:600]))
    ev = {
        "property": pid, "tier": args.tier, "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": nontriv,
            "rule": spec["rule"], "samples": samples[:40],
            "sub_properties": {
                k: {"evaluations": s["evals"], "nontrivial": s["nontrivial"],
                    "labels": s["labels"]} for k, s in sorted(stats.items())},
            "build_s": round(t_build, 1), "search_s": round(t_search, 1),
            "unreproducible_failures": unrepro,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    path = "%s/evidence/%s.json" % (VERIF, pid)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    print("%s %s seed=%d: %d cases, %d non-trivial, build %.0f s, search %.0f s"
          % (pid, args.tier, args.seed, evals, nontriv, t_build, t_search))
    for u in unrepro:
        print("not reproducible, not reported: " + u)
    for ok, prop, f in violations:
        print("in %s: %s: %s" % (prop, f["tag"][:200], f["msg"][:300]))
        print("VIOLATION property=%s replay=%s" % (
            pid, os.path.relpath(ok, VERIF)))
    return 1 if violations else 0


def replay(path):
    d = json.load(open(path))
    if not build(d["variant"], [d["target"]]):
        return 3
    if d["mode"] == "worker":
        out = path + ".out"
        open(out, "w").close()
        subprocess.run([out if x == "OUT" else x for x in d["cmd"]],
                       env=run_env(d["variant"]))
        text = open(out).read()
        print(text)
        return 1 if '"failure"' in text else 0
    ch = path + ".choices"
    with open(ch, "w") as f:
        f.write("\n".join(d["choices"]))
    r = subprocess.run([exe(d["variant"], d["target"]), "--replay", d["prop"],
                        "--choices", ch], env=run_env(d["variant"]))
    os.remove(ch)
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    args = ap.parse_args()
    if args.setup:
        per = {}
        for c in CHECKS.values():
            for v, t in runs(c):
                per.setdefault(v, [])
                if t not in per[v]:
                    per[v].append(t)
        ok = all([build(v, ts) for v, ts in per.items()])
        sys.exit(0 if ok else 1)
    # Where harnesses that touch files keep them; gone when the run ends.
    scratch = tempfile.mkdtemp(prefix="verif_run.")
    os.chmod(scratch, 0o755)
    os.environ["VERIF_SCRATCH"] = scratch
    atexit.register(shutil.rmtree, scratch, ignore_errors=True)
    if args.replay:
        sys.exit(replay(os.path.abspath(args.replay)))
    sys.exit(check(args))


if __name__ == "__main__":
    main()
