"""Driver side of the monitors: runs harness programs, attributes crashes and hangs to cases,
matches known findings, prints VIOLATION / KNOWN-FINDING lines and writes evidence."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:malloc_fill_byte=253:"
                    "max_malloc_fill_size=16777216:detect_stack_use_after_return=1:strict_string_checks=1:"
                    "max_allocation_size_mb=4096:handle_abort=1",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_bugs=1:history_size=4:second_deadlock_stack=1:report_thread_leaks=0",
    "QT_QPA_PLATFORM": "offscreen",
    "LC_ALL": "C.UTF-8",
    "QT_LOGGING_RULES": "*.debug=false",
    "OMP_NUM_THREADS": "4",
    "OMP_WAIT_POLICY": "passive",
}


def known_findings():
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


class Check:
    def __init__(self, prop, level="exploration", rule="", tier=None):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evaluations = 0
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.viols = []          # (key, msg, info)
        self.notes = []
        self.extra = {}
        self.scale = 1
        self.scratch = tempfile.mkdtemp(prefix="vchk-%s-" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    thorough = property(lambda self: self.tier == "thorough")

    # -- recording -------------------------------------------------------------------------
    def ev(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def violation(self, key, msg, info=None):
        self.viols.append((key, msg, info or {}))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # -- running ---------------------------------------------------------------------------
    def env(self, extra=None):
        e = dict(os.environ)
        e.update(SAN_ENV)
        e["TMPDIR"] = self.scratch
        e["HOME"] = self.scratch
        e.update(extra or {})
        return e

    def run_harness(self, name, exe, arg="", env=None, case_timeout=120, total_timeout=700, wrap=(), max_restarts=12,
                    log_filter=None, shards=1):
        """Run a harness over all its cases, restarting after a crash; returns the parsed records."""
        if isinstance(shards, int) and shards > 1:
            with cf.ThreadPoolExecutor(shards) as ex:
                fs = [ex.submit(self.run_harness, name, exe, arg, env, case_timeout, total_timeout, wrap, max_restarts, log_filter,
                                (i, shards)) for i in range(shards)]
                return [r for f in fs for r in f.result()]
        shard = "0/1" if shards == 1 else "%d/%d" % shards
        start = 0
        restarts = 0
        records = []
        t_end = time.time() + total_timeout
        while True:
            res = self._one(name, exe, arg, env, start, -1, case_timeout, t_end, wrap, shard)
            records += res["records"]
            self._absorb(res["records"], name, exe, arg)
            if log_filter:
                log_filter(res)
            if res["done"]:
                break
            if res["timeout"]:
                if time.time() >= t_end:
                    self.notes.append("%s: total time bound reached at case %s" % (name, res["case"]))
                    break
                # a hang: judged only if the same case hangs again on its own
                again = self._one(name, exe, arg, env, 0, res["case"], 2 * case_timeout, time.time() + 2 * case_timeout + 30, wrap, "0/1")
                if again["timeout"]:
                    self.violation("hang:" + _norm(res["desc"]), "case does not finish within %d s: %s" % (2 * case_timeout, res["desc"]),
                                   self._info(name, exe, arg, res))
                else:
                    self._absorb(again["records"], name, exe, arg)
                    self.notes.append("case %s timed out once, finished when run alone" % res["case"])
            else:
                self.violation("crash:" + crash_key(res), crash_text(res), self._info(name, exe, arg, res))
            restarts += 1
            if restarts > max_restarts:
                self.notes.append("%s: stopped after %d crashes" % (name, restarts))
                break
            start = res["case"] + 1
        return records

    def _info(self, name, exe, arg, res):
        return {"harness": name, "arg": arg, "case": res["case"], "desc": res["desc"], "stderr": res["stderr"][-3000:]}

    def _one(self, name, exe, arg, env, start, only, case_timeout, t_end, wrap, shard="0/1"):
        out = os.path.join(self.scratch, "out-%s-%s-%d.jsonl" % (name, shard.replace("/", "_"), time.time_ns()))
        cur = out + ".cur"
        err = out + ".err"
        hs = os.path.join(self.scratch, "hs-%s-%s" % (name, shard.replace("/", "_")))
        shutil.rmtree(hs, ignore_errors=True)
        os.makedirs(hs, exist_ok=True)
        cmd = list(wrap) + [exe, "--seed", str(self.seed), "--tier", self.tier, "--start", str(start), "--only", str(only),
                            "--out", out, "--cur", cur, "--scratch", hs, "--arg", arg, "--shard", shard, "--scale", str(self.scale)]
        open(out, "w").close()
        timeout = False
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=self.env(env), cwd=hs,
                                 start_new_session=True)
            last, last_t = None, time.time()
            delay = 0.005
            while True:
                try:
                    p.wait(delay)
                    break
                except subprocess.TimeoutExpired:
                    pass
                delay = min(0.1, delay * 2)
                c = _curcase(cur)
                now = time.time()
                try:
                    osz = os.path.getsize(out)
                except OSError:
                    osz = 0
                if (c, osz) != last:
                    last, last_t = (c, osz), now
                elif now - last_t > case_timeout or now > t_end:
                    timeout = True
                if now > t_end:
                    timeout = True
                if timeout:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        recs = []
        for line in open(out, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
        case, desc = _curcase(cur)
        stderr = open(err, errors="replace").read()
        done = any(r.get("type") == "done" for r in recs) and p.returncode == 0
        shutil.rmtree(hs, ignore_errors=True)
        for f in (out, cur, err):
            try:
                os.unlink(f)
            except OSError:
                pass
        return {"records": recs, "rc": p.returncode, "timeout": timeout, "done": done, "case": case, "desc": desc,
                "stderr": stderr}

    def _absorb(self, recs, name, exe, arg):
        for r in recs:
            t = r.get("type")
            if t == "counters":
                self.evaluations += r["cases"]
                for k, v in r["events"].items():
                    self.ev(k, v)
                self.distinct.update(name + h for h in r["distinct"])
            elif t == "sample":
                self.sample(r["text"])
            elif t == "violation":
                self.violation(r["key"], r["msg"], {"harness": name, "arg": arg, "case": r["case"], "desc": r["desc"]})

    # -- result ----------------------------------------------------------------------------
    def finish(self):
        os.makedirs(self.replay_dir, exist_ok=True)
        known = [(k, t) for (p, k, t) in known_findings() if p == self.prop]
        hit = set()
        bad = []
        for key, msg, info in self.viols:
            m = [k for k, _ in known if k == key]
            if m:
                hit.add(m[0])
            else:
                bad.append((key, msg, info))
        for k, t in known:
            # listed findings are announced whether or not this run's sample met them again
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, t, "" if k in hit else " (not met in this run)"))
        seen = {}
        for key, msg, info in bad:
            seen.setdefault(key, []).append((msg, info))
        n = 0
        for key, lst in seen.items():
            n += 1
            if n > 20:
                break
            msg, info = lst[0]
            path = os.path.join(self.replay_dir, "%s-%02d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "message": msg, "seed": self.seed, "tier": self.tier,
                           "count": len(lst), "replay": "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s --replay %s"
                           % (self.seed, self.tier, self.prop, path), **info}, f, indent=1)
            print("  %s: %s" % (key, msg[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["(none)"], "events": self.events}
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        evd = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(seen)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s" % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(seen), time.time() - self.t0))
        for nt in self.notes:
            print("  note: " + nt)
        return 1 if seen else 0


def _norm(s):
    return re.sub(r"\s+", "_", s)[:80]


def _curcase(path):
    try:
        with open(path, errors="replace") as f:
            a = f.read(8192).split("\n")
        return int(a[0]), a[1]
    except (OSError, ValueError, IndexError):
        return -1, "?"


def crash_key(res):
    e = res["stderr"]
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", e)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", e)
        kind = m.group(1).replace(" ", "-") if m else None
    if not kind:
        m = re.search(r"runtime error: (.*)", e)
        kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"'[^']*'|0x[0-9a-f]+", "", m.group(1).lower()))[:50] if m else None
    if not kind:
        kind = "exit-%s" % res["rc"]
    m = re.findall(r"(?:in|#\d+) ([\w:~<>]+)[^\n]* (/repo/[\w/\.]+):\d+", e)
    where = m[0][0] if m else _norm(re.sub(r"[-+]?\d[\d.e+-]*", "#", res["desc"]))
    return kind + ":" + where


def crash_text(res):
    e = res["stderr"]
    i = max(e.find("ERROR: AddressSanitizer"), e.find("runtime error:"), e.find("WARNING: ThreadSanitizer"))
    t = e[max(0, i - 200):i + 1200] if i >= 0 else e[-800:]
    return "exit status %s in case %s (%s)\n%s" % (res["rc"], res["case"], res["desc"], t)
