#!/usr/bin/env python3
"""Runs the deterministic simulation for one property, or replays a failure.

  check.py C06                 quick tier (or $VERIF_TIER)
  check.py C06 --tier thorough
  check.py --replay replays/C06-....json
  check.py --selftest [n]      determinism: same seeds, different processes, same logs
  check.py --build             only build the simulation from /repo's working tree
"""
import concurrent.futures as cf
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 8)

# property -> [(world, share of the budget, race build)]
PLAN = {
    "C01": [("builder", 0.65, False), ("wallet", 0.35, False)],
    "C02": [("builder", 0.65, False), ("wallet", 0.35, False)],
    "C03": [("builder", 0.65, False), ("wallet", 0.35, False)],
    "C04": [("builder", 1.0, False)],
    "C05": [("builder", 0.65, False), ("wallet", 0.35, False)],
    "C06": [("wallet", 1.0, False)],
    "C07": [("wallet", 1.0, False)],
    "C08": [("wallet", 0.6, False), ("cli", 0.4, False)],
    "C09": [("cli", 1.0, False)],
    "C10": [("addr", 1.0, False)],
    "C11": [("threads", 0.3, False), ("threads", 0.7, True)],
    "C12": [("keys", 0.6, False), ("wallet", 0.4, False)],
    "C13": [("proto", 1.0, False)],
    "C15": [("link", 1.0, False)],
    "C16": [("link", 1.0, False)],
    "C17": [("link", 1.0, False)],
    "C18": [("cli", 0.4, False), ("wallet", 0.4, False), ("proto", 0.2, False)],
}
QUICK_S, THOROUGH_S = 90.0, 600.0
MINRUNS = 40  # per worker and world
FRESH = 4  # runs per process in race builds: package state is cold in the first ones
# the simulator itself is compiled without race instrumentation; nothing of the
# library is inlined into it
# (and allocates through the generic allocator, which tells the race oracle that
# the memory is new: code compiled without -race would otherwise skip that)
RACEENV = {"GOEXPERIMENT": "nosizespecializedmalloc"}
NORACE = ["-gcflags=verifsim/worlds=-race=false -l"] + ["-gcflags=verifsim/%s=-race=false" % p for p in ("engine", "ref", "hook")]


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off",
             GOMODCACHE=e.get("GOMODCACHE", "/root/go/pkg/mod"),
             GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"))
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    for k in ("GOARCH", "GOOS", "GODEBUG", "GOEXPERIMENT", "GOWORK", "SIM_JOB"):
        e.pop(k, None)
    return e


class Trouble(Exception):
    pass


class Bench:
    """A scratch directory with the simulation binaries built from REPO."""

    def __init__(self, races):
        self.dir = tempfile.mkdtemp(prefix="verif-sim-")
        self.bins = {}
        self.build(races)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def sh(self, cmd, cwd, timeout=700, **more):
        p = subprocess.run(cmd, cwd=cwd, env=dict(goenv(), **more), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if p.returncode != 0:
            raise Trouble("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))

    def build(self, races):
        d = self.dir
        t0 = time.time()
        inst = os.path.join(d, "instrument")
        self.sh(["go", "build", "-o", inst, "."], os.path.join(VERIF, "tools/instrument"))
        ov = os.path.join(d, "ov")
        os.mkdir(ov)
        self.sh([inst, REPO, ov], d)
        self.sites = os.path.join(ov, "sites.json")
        sums = []
        for f in (os.path.join(REPO, "go.sum"), os.path.join(VERIF, "sim/go.sum")):
            for line in open(f):
                line = line.strip()
                if line and line not in sums:
                    sums.append(line)
        for race in races:
            tag = "race" if race else "norm"
            mod = os.path.join(d, tag + ".mod")
            text = open(os.path.join(VERIF, "sim/go.mod")).read()
            if REPO != "/repo":
                text = text.replace("=> /repo", "=> " + REPO)
            open(mod, "w").write(text)
            open(os.path.join(d, tag + ".sum"), "w").write("\n".join(sums) + "\n")
            out = os.path.join(d, "sim." + tag)
            self.sh(["go", "test", "-c", "-vet=off"] + (["-race"] + NORACE if race else []) +
                    ["-modfile", mod, "-overlay", os.path.join(ov, "overlay.json"), "-o", out, "./worlds"],
                    os.path.join(VERIF, "sim"), **(RACEENV if race else {}))
            self.bins[race] = out
        self.build_s = time.time() - t0

    def run(self, name, race, job, timeout):
        """Runs one worker process; returns (report or None, how it ended, output)."""
        d = os.path.join(self.dir, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "run"))
        job = dict(job, out=os.path.join(d, "out.json"), cur=os.path.join(d, "cur"), scratch=d, sites=self.sites)
        jp = os.path.join(d, "job.json")
        json.dump(job, open(jp, "w"))
        env = goenv()
        env.update(SIM_JOB=jp, GOMAXPROCS="1", TMPDIR=os.path.join(d, "run"), GORACE="halt_on_error=0 atexit_sleep_ms=0 log_path=%s" % os.path.join(d, "race"))
        errp = os.path.join(d, "stderr")
        with open(errp, "wb") as ef:
            p = subprocess.Popen([self.bins[race], "-test.run=TestSim", "-test.timeout=0"], cwd=d, env=env,
                                 stdout=ef, stderr=ef, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        try:
            rep = json.load(open(job["out"]))
        except Exception:
            rep = None
        if rep is not None and not rep.get("done"):
            rep = None
        try:
            cur = int(open(job["cur"]).read().split()[0])
        except Exception:
            cur = None
        with open(errp, "rb") as ef:
            out = ef.read()[-20000:].decode("utf-8", "replace")
        if rep is not None and race:
            rep["race_log"] = []
            for f in sorted(os.listdir(d)):
                if f.startswith("race."):
                    rep["race_log"] += open(os.path.join(d, f), errors="replace").read().splitlines()[:60]
        shutil.rmtree(d, ignore_errors=True)
        return rep, rc, cur, out


def known_findings():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
    except FileNotFoundError:
        return []


def merge(dst, src):
    for k, v in (src or {}).items():
        dst[k] = dst.get(k, 0) + v


def death_text(out):
    """The stable part of a process death: the fatal error line."""
    for line in out.splitlines():
        if line.startswith(("fatal error:", "panic:", "runtime:", "WATCHDOG", "SIG")):
            return line[:200]
    return "process ended abnormally"


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = [k for k in known_findings() if k["property"] == prop]

    def job(self, world, **kw):
        j = dict(mode="batch", world=world, prop=self.prop, seed=self.seed, known=self.known)
        j["from"] = kw.pop("frm", 0)
        j.update(kw)
        return j

    def explore(self):
        plan = PLAN[self.prop]
        total = THOROUGH_S if self.tier == "thorough" else QUICK_S
        total = float(os.environ.get("VERIF_BUDGET_S", total))
        self.tot = dict(runs=0, ops=0, steps=0, hsteps=0, switches=0, sim=0.0, faults={}, probes={}, known={}, worlds={})
        self.sched, self.sites, self.samples, self.bad, self.wall = set(), set(), [], [], 0.0
        self.real, self.stub = set(), set()
        minruns = int(os.environ.get("VERIF_MINRUNS", MINRUNS if self.tier == "quick" else 0))
        for world, share, race in plan:
            wall = total * share
            t0 = time.time()

            def worker(i):
                done = []
                if not race:
                    job = self.job(world, frm=i, step=NPROC, count=10**9, wall=wall, min=minruns, stop=1)
                    return [(self.bench.run("w%d" % i, race, job, 6 * wall + 200), job)]
                chunk = 0
                while time.time() - t0 < wall or (chunk * FRESH < minruns and time.time() - t0 < 6 * wall):
                    job = self.job(world, frm=(chunk * NPROC + i) * FRESH, step=1, count=FRESH, stop=1)
                    done.append((self.bench.run("w%d" % i, race, job, 400), job))
                    rep = done[-1][0][0]
                    if rep is None or rep["error"] or rep["bad"]:
                        break
                    chunk += 1
                return done
            with cf.ThreadPoolExecutor(NPROC) as ex:
                res = [x for l in ex.map(worker, range(NPROC)) for x in l]
            self.wall += time.time() - t0
            runs = 0
            for (rep, rc, cur, out), job in res:
                if rep is None:
                    self.death(world, race, job, rc, cur, out)
                    continue
                if rep["error"]:
                    raise Trouble("%s: %s" % (world, rep["error"]))
                runs += rep["runs"]
                self.real.update(rep["real"] or [])
                self.stub.update(rep["stub"] or [])
                t = self.tot
                t["runs"] += rep["runs"]
                t["ops"] += rep["ops"]
                t["steps"] += rep["steps"]
                t["hsteps"] += rep["hsteps"]
                t["switches"] += rep["switches"]
                t["sim"] += rep["sim_seconds"]
                merge(t["faults"], rep["faults"])
                merge(t["probes"], rep["probes"])
                merge(t["known"], rep["known"])
                self.sched.update(world + str(race) + h for h in rep["sched"] or [])
                self.sites.update(rep["sites"] or [])
                self.samples += rep["samples"] or []
                for b in rep["bad"] or []:
                    self.bad.append((b["idx"], world, race, job, b))
            self.tot["worlds"][world + (" (race build)" if race else "")] = runs
            if self.bad:
                break

    def death(self, world, race, job, rc, cur, out):
        """A worker died: a reproducible death is a violation, anything else trouble."""
        if cur is None:
            raise Trouble("%s worker ended with %s before its first run:\n%s" % (world, rc, out[-3000:]))
        j = self.job(world, frm=cur, step=1, count=1, stop=1)
        again = [self.bench.run("death", race, j, 120) for _ in range(2)]
        if all(r[0] is None and r[1] not in ("timeout",) for r in again) and len({death_text(r[3]) for r in again}) == 1:
            b = dict(idx=cur, violation=dict(props=[self.prop], **{"class": "process-death"}, msg="the process died in run %d: %s" % (cur, death_text(again[0][3]))), death=death_text(again[0][3]))
            self.bad.append((cur, world, race, j, b))
            return
        # maybe it needs the runs before it
        j = dict(job, count=(cur - job["from"]) // job["step"] + 1, wall=0)
        r = self.bench.run("death", race, j, max(60, 840 - (time.time() - self.t0)))
        if r[0] is None and r[2] == cur and r[1] != "timeout":
            b = dict(idx=cur, violation=dict(props=[self.prop], **{"class": "process-death"}, msg="the process died in run %d: %s" % (cur, death_text(r[3]))), death=death_text(r[3]))
            self.bad.append((cur, world, race, j, b))
            return
        raise Trouble("%s worker ended with %s in run %s and did not do so again:\n%s" % (world, rc, cur, out[-3000:]))

    def report(self, item):
        """Minimises and writes the replay file of one violation."""
        idx, world, race, job, b = item
        v = b["violation"]
        rp = dict(property=self.prop, world=world, race=race, run=idx, verif_seed=self.seed, violation=v, how="")
        if "death" in b:
            rp.update(how="batch", job={k: job[k] for k in ("mode", "world", "prop", "seed", "from", "step", "count", "stop", "known")}, death=b["death"])
            return self.save(rp)
        base = self.job(world, mode="replay", **{"class": v["class"]})

        def fresh(choices):
            r = self.bench.run("replay", race, dict(base, choices=choices, verbose=True), 300)[0]
            if r and not r["error"] and r["bad"] and r["bad"][0]["violation"]["class"] == v["class"]:
                return dict(r["bad"][0], race_log=r.get("race_log", []))
            return None

        minw = 30.0 if self.tier == "quick" else 120.0
        m = self.bench.run("min", race, dict(base, mode="min", choices=b["choices"], wall=minw, sub=race), 400)[0]
        cand = []
        if m and not m["error"] and m["bad"]:
            cand.append((m["bad"][0]["choices"] or [], m["bad"][0].get("tries", 0)))
        cand.append((b["choices"], 0))
        for choices, tries in cand:
            one = fresh(choices)
            if one is None:
                continue
            two = fresh(choices)
            rp.update(how="choices", choices=choices, violation=one["violation"], log_hash=one["log_hash"],
                      exact=bool(two and two["log_hash"] == one["log_hash"]), minimise_tries=tries,
                      original_choices=len(b["choices"]), trace=(one["log"] or []) + one["race_log"])
            return self.save(rp)
        # state left by earlier runs of the process matters: replay them too
        j = dict(job, count=(idx - job["from"]) // job["step"] + 1, wall=0)
        r = self.bench.run("prefix", race, j, max(60, 840 - (time.time() - self.t0)))[0]
        ok = bool(r and any(x["violation"]["class"] == v["class"] for x in r["bad"] or []))
        rp.update(how="batch", exact=ok, job={k: j[k] for k in ("mode", "world", "prop", "seed", "from", "step", "count", "stop", "known")})
        return self.save(rp)

    def save(self, rp):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        cls = "".join(c if c.isalnum() else "-" for c in rp["violation"]["class"])[:60]
        path = os.path.join(d, "%s-%s-%d-%d.json" % (rp["property"], cls, rp["verif_seed"], rp["run"]))
        json.dump(rp, open(path, "w"), indent=1)
        return path, rp

    def evidence(self, violations):
        t = self.tot
        hours = max(self.wall, 1e-6) / 3600
        nsites = len(json.load(open(self.bench.sites)))
        cov = dict(
            evaluations=t["runs"],
            distinct_nontrivial=len(self.sched),
            rule="one evaluation = one simulated run decided by one seed (VERIF_SEED, world, run index); distinct = different hash of (event log with simulated times, scheduling decisions); every counted run performed at least one library operation under the run's schedule and fault plan",
            samples=self.samples[:6],
            runs_by_world=t["worlds"],
            seeds_per_hour=int(t["runs"] / hours),
            library_operations=t["ops"],
            simulated_seconds=round(t["sim"], 1),
            faults_injected=t["faults"],
            conditions_reached=t["probes"],
            scheduling_decisions=t["switches"],
            yield_points_passed=t["steps"] + t["hsteps"],
            library_sites_reached="%d of %d instrumented statements" % (len(self.sites), nsites),
            components_real=sorted(self.real),
            components_stubbed=sorted(self.stub),
            workers=NPROC,
        )
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=["the Go toolchain, the reference models in /verif/sim/ref and the simulated environment in /verif/sim/worlds"],
                  wall_s=round(time.time() - self.t0, 2), violations=violations)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)

    def main(self):
        self.t0 = time.time()
        races = sorted({r for _, _, r in PLAN[self.prop]})
        self.bench = Bench(races)
        try:
            self.explore()
            for k in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            if self.bad:
                self.bad.sort(key=lambda x: x[0])
                path, rp = self.report(self.bad[0])
                self.evidence(len(self.bad))
                print("violated: %s" % rp["violation"]["msg"])
                for line in (rp.get("trace") or [])[-40:]:
                    print("  " + line[:300])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                return 1
            self.evidence(0)
            print("ok property=%s runs=%d distinct=%d ops=%d simulated=%.0fs wall=%.1fs (build %.1fs)" % (
                self.prop, self.tot["runs"], len(self.sched), self.tot["ops"], self.tot["sim"], time.time() - self.t0, self.bench.build_s))
            return 0
        finally:
            self.bench.close()


def replay(path):
    rp = json.load(open(path))
    prop = rp["property"]
    bench = Bench([rp["race"]])
    try:
        cls = rp["violation"]["class"]
        if rp["how"] == "choices":
            job = dict(mode="replay", world=rp["world"], prop=prop, seed=0, choices=rp["choices"], verbose=True)
            job["class"] = cls
            r, rc, _, out = bench.run("replay", rp["race"], job, 300)
            if r is None or r["error"]:
                raise Trouble("replay: %s %s" % (rc, (r or {}).get("error") or out[-2000:]))
            b = r["bad"][0]
            for line in b["log"] or []:
                print(line)
            if b["violation"]["class"] == cls:
                print("exact replay: %s" % (b["log_hash"] == rp["log_hash"]))
                print("violated: %s" % b["violation"]["msg"])
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
        else:
            r, rc, cur, out = bench.run("replay", rp["race"], rp["job"], 850)
            if "death" in rp:
                if r is None and death_text(out) == rp["death"]:
                    print(out[-3000:])
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                    return 1
            elif r and any(x["violation"]["class"] == cls for x in r["bad"] or []):
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
        print("not reproduced on this tree")
        return 0
    finally:
        bench.close()


def selftest(n):
    """Every world, n seeds, in several processes with different neighbours."""
    bench = Bench([False, True])
    bad = 0
    try:
        for world, race in sorted({(w, r) for p in PLAN.values() for w, _, r in p}):
            prop = [p for p in PLAN if any(w == world for w, _, _ in PLAN[p])][0]
            seen = {}
            jobs = [(0, 1, n), (0, 2, n // 2), (1, 2, n // 2), (n // 2, 1, n - n // 2), (n // 3, 1, n // 3), (0, 3, n // 3), (1, 3, n // 3), (2, 3, n // 3)]

            def one(a):
                k, (frm, step, cnt) = a
                j = dict(mode="batch", world=world, prop=prop, seed=int(os.environ.get("VERIF_SEED", "1")), step=step, count=cnt, hashes=True)
                j["from"] = frm
                return bench.run("self%d" % k, race, j, 3000)
            with cf.ThreadPoolExecutor(NPROC) as ex:
                for rep, rc, cur, out in ex.map(one, enumerate(jobs)):
                    if rep is None or rep["error"]:
                        raise Trouble("%s: %s %s" % (world, rc, (rep or {}).get("error") or out[-2000:]))
                    for h in rep["log_hashes"] or []:
                        i, rest = h.split(":", 1)
                        seen.setdefault(int(i), set()).add(rest)
            div = [i for i, s in seen.items() if len(s) > 1]
            bad += len(div)
            print("world %-8s race=%-5s seeds=%d divergent=%d %s" % (world, race, len(seen), len(div), div[:10]))
        return 1 if bad else 0
    finally:
        bench.close()


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--replay":
            return replay(a[1])
        if a and a[0] == "--build":
            Bench([False, True]).close()
            return 0
        if a and a[0] == "--selftest":
            return selftest(int(a[1]) if len(a) > 1 else 60)
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return Check(a[0], "thorough" if tier == "thorough" else "quick", seed).main()
    except Trouble as e:
        print("TROUBLE: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
