"""The simulation program (test/main/main.cpp), built with sanitizers and driven as a user would."""
import concurrent.futures as cf
import os
import random
import shutil
import signal
import struct
import subprocess
import threading
import time

from . import build


def exe():
    return build.program("nbody_simulation", "san", [os.path.join(build.REPO, "test", "main", "main.cpp")])


def args_of(d):
    return ["--%s=%s" % kv for kv in d.items()]


def run(c, args, timeout=120, kill_after=None, env=None):
    """Returns (exit status or None on timeout, output)."""
    p = subprocess.Popen([exe()] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=c.env(env), cwd=c.scratch, start_new_session=True)
    try:
        if kill_after is not None:
            time.sleep(kill_after)
            p.kill()
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


class Stream:
    def __init__(self, base):
        self.base, self.head, self.lines, self.torn = base, {}, [], False
        t = open(base + ".idx", "rb").read()
        if t and not t.endswith(b"\n"):
            self.torn = True
            t = t[:t.rfind(b"\n") + 1]
        for l in t.decode().split("\n")[:-1]:
            if l.startswith("#"):
                k, v = l[1:].split(" ")
                self.head[k] = v
            else:
                s, tm, p, o = l.split("\t")
                self.lines.append((int(s), float(tm), int(p), int(o)))

    def frame(self, i):
        n = int(self.head["body_count"])
        s, t, p, o = self.lines[i]
        with open("%s%d.dat" % (self.base, p), "rb") as f:
            f.seek(o)
            return f.read(48 * n)


def compare(a, b):
    """First difference between two streams, or None."""
    if a.head != b.head:
        return "headers %s and %s" % (a.head, b.head)
    for suffix in (".mass", ".col"):
        if open(a.base + suffix, "rb").read() != open(b.base + suffix, "rb").read():
            return suffix + " files differ"
    if len(a.lines) != len(b.lines):
        return "%d and %d frames" % (len(a.lines), len(b.lines))
    for i in range(len(a.lines)):
        if a.lines[i][0] != b.lines[i][0]:
            return "frame %d has step %d and %d" % (i, a.lines[i][0], b.lines[i][0])
        if abs(a.lines[i][1] - b.lines[i][1]) > 1e-12 * (1 + abs(a.lines[i][1])):
            return "frame %d has time %r and %r" % (i, a.lines[i][1], b.lines[i][1])
        if a.frame(i) != b.frame(i):
            return "frame %d differs" % i
    return None


def resume_campaign(c, n):
    rnd = random.Random(c.seed * 77 + 5)
    solvers = ["euler", "rk4", "midpoint", "rkdp", "rkck", "bs"]
    for k in range(n):
        d = os.path.join(c.scratch, "cli%d" % k)
        os.makedirs(d)
        every = rnd.choice([1, 2, 3])
        # dyadic step sizes: times are exact, so no two runs can disagree about the end
        dt = 1.0 / 128
        p = {"engine": rnd.choice(["simple", "openmp", "block", "simple_bh"]), "solver": rnd.choice(solvers), "max_step": dt,
             "dump_step": dt * every, "check_step": 0.05, "stars_count": rnd.choice([1, 60, 64]), "box_size": rnd.choice([10, 50, 100]),
             "max_part_size": rnd.choice([1, 20000, 1 << 30]), "clamp": rnd.choice(["0", "1"])}
        frames = rnd.randint(4, 10)
        end = dt * every * frames
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        desc = " ".join(args_of(p))
        rc, out = run(c, args_of(dict(p, output=a, max_time=end)))
        c.evaluations += 1
        if rc != 0:
            c.violation("cli-run", "simulation program fails (%s): %s\n%s" % (rc, desc, out[-600:]), {"args": desc})
            continue
        mode = rnd.choice(["cut", "kill"])
        if mode == "cut":
            cut = rnd.randint(1, frames - 1)
            rc, out = run(c, args_of(dict(p, output=b, max_time=dt * every * cut)))
            note = "interrupted after frame %d" % cut
        else:
            t = rnd.uniform(0.0, 1.0)
            rc, out = run(c, args_of(dict(p, output=b, max_time=1e9)), kill_after=t)
            note = "killed after %.2f s" % t
            rc = 0
        if rc != 0:
            c.violation("cli-run", "simulation program fails (%s): %s" % (rc, desc), {"args": desc})
            continue
        try:
            s = Stream(b)
            have = len(s.lines)
        except OSError:
            have = 0
        c.ev("interrupted program runs")
        c.ev("frames before the interruption", have)
        if mode == "kill":
            if have < 2:
                c.ev("killed before the second frame")
                shutil.rmtree(d)
                continue
            # continue to two frames past the point of interruption and redo the reference to there
            end = dt * every * (have + 1)
            rc, out = run(c, args_of(dict(p, output=a, max_time=end)))
        rc, out = run(c, args_of(dict(p, resume=b, max_time=end)))
        if rc != 0:
            c.violation("cli-resume", "resuming fails (%s): %s, %s\n%s" % (rc, desc, note, out[-600:]), {"args": desc})
            continue
        diff = compare(Stream(a), Stream(b))
        c.ev("resumed program runs")
        c.distinct.add("cli %s %s" % (desc, note))
        c.sample("program: %s; %s; %d frames" % (desc, note, len(Stream(b).lines)))
        if diff:
            c.violation("cli-resume-differs", "resumed run differs from the uninterrupted one: %s; %s, %s" % (diff, desc, note), {"args": desc})
        shutil.rmtree(d)


SANITIZER = ("AddressSanitizer", "runtime error:", "LeakSanitizer", "terminate called", "Segmentation")
# masses are stored multiplied by the gravity constant of the unit system
GRAVITY = {"Zeno": 1.0, "G1": 1.0, "SI": 6.67408e-11, "ADK": 6.67408e-11 * 86400.0 ** 2 / 149597870700.0 ** 3}


def config_campaign(c, n):
    """Command lines: valid ones must have the effect they ask for, invalid ones must be refused."""
    rnd = random.Random(c.seed * 131 + 7)
    d = os.path.join(c.scratch, "cfg")
    os.makedirs(d)
    n_good = rnd.randint(2, 9)
    mass = [float("%g" % rnd.uniform(0.5, 2)) for _ in range(n_good)]
    pos = [[float("%g" % rnd.uniform(-5, 5)) for _ in range(3)] for _ in range(n_good)]
    vel = [[float("%g" % rnd.uniform(-5, 5)) for _ in range(3)] for _ in range(n_good)]
    zeno = os.path.join(d, "good.zeno")
    with open(zeno, "w") as f:
        f.write("%d\n3\n0\n" % n_good + "".join("%g\n" % m for m in mass) + "".join("%g %g %g\n" % tuple(x) for x in pos + vel))
    table = os.path.join(d, "good.txt")
    with open(table, "w") as f:
        f.write("".join("%g %g %g %g %g %g %g\n" % tuple(x + v + [m]) for x, v, m in zip(pos, vel, mass)))
    bad = os.path.join(d, "bad.zeno")
    open(bad, "w").write("7\n3\n0\n1\n2\nabc\n")
    dt = 1.0 / 64
    lock = threading.Lock()
    seq = iter(range(1 << 30))

    def base():
        with lock:
            k = next(seq)
        return {"engine": "simple", "solver": "euler", "max_step": dt, "dump_step": dt, "max_time": dt * 3, "stars_count": 64,
                "box_size": 20, "output": os.path.join(d, "i%d" % k)}

    def clean(out, desc):
        for s in SANITIZER:
            if s in out:
                c.violation("cli-" + s.split()[0], "%s on command line %s\n%s" % (s, desc, out[-900:]), {"args": desc})
                return False
        return True

    engines = {"ah": {"full_recompute_rate": "3", "max_dist": "7", "min_force": "1e-3"}, "block": {}, "openmp": {}, "simple": {},
               "simple_bh": {"distance_to_node_radius_ratio": "3", "traverse_type": "nested_tree", "tree_layout": "heap", "tree_build_rate": "4"}}
    solvers = ["adams", "bs", "euler", "midpoint", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12",
               "rkfeagin14", "rkgl", "rklc", "trapeze"]
    jobs = []
    # --- valid command lines
    for k in range(n):
        p = base()
        p["engine"] = rnd.choice(sorted(engines))
        p.update({x: v for x, v in engines[p["engine"]].items() if rnd.random() < .8})
        p["solver"], p["error_threshold"] = rnd.choice(solvers), rnd.choice(["1e30", "1e300"])
        frames, every = rnd.randint(1, 4), rnd.choice([1, 2])
        p["dump_step"], p["max_time"] = dt * every, dt * every * frames
        p["check_step"] = rnd.choice([dt, 0.1, 1])
        p["verbose"] = rnd.choice(["0", "1"])
        p["output"] = os.path.join(d, rnd.choice(["s%d", "s=%d", "s %d=x=", "--s=%d"]) % k)
        stars = rnd.choice([1, 64, 65, 128])
        p["stars_count"], p["box_size"] = stars, rnd.choice([1, 20, 300])
        p["max_part_size"] = rnd.choice([1, 10000, 1 << 30])
        init = None
        if rnd.random() < .4:
            init = rnd.choice(["Zeno", "G1", "SI", "ADK"])
            p["initial_state"], p["initial_type"] = zeno if init == "Zeno" else table, rnd.choice([init, init.lower()])
        if init == "Zeno" and rnd.random() < .5:
            del p["initial_type"]
        if rnd.random() < .2:
            del p["check_step"]
        args = args_of(p)
        rnd.shuffle(args)
        jobs.append((valid_line, (c, clean, p, args, frames, n_good if init else 2 * ((stars + 63) // 64 * 64),
                                  (init, pos, vel, mass) if init else None)))
    # --- invalid command lines
    invalid = [{"engine": "x"}, {"engine": ""}, {"engine": "Simple"}, {"solver": "x"}, {"solver": ""}, {"solver": "RK4"},
               {"solver": "adams", "rank": "0"}, {"solver": "adams", "rank": "6"}, {"solver": "adams", "rank": "-1"},
               {"solver": "adams", "starter_solver": "nope"}, {"solver": "adams", "starter_solver": "rk4", "rank": "x"},
               {"solver": "adams", "correction": "maybe"}, {"solver": "bs", "max_level": "0"}, {"solver": "bs", "error_threshold": "x"},
               {"solver": "rkdp", "max_recursion": "-1"}, {"solver": "rkdp", "substep_subdivisions": "0"}, {"clamp": "no!"},
               {"engine": "simple_bh", "distance_to_node_radius_ratio": "abc"}, {"engine": "simple_bh", "traverse_type": "x"},
               {"engine": "simple_bh", "tree_layout": "x"}, {"engine": "simple_bh", "tree_build_rate": "x"},
               {"engine": "ah", "full_recompute_rate": "x"}, {"engine": "ah", "max_dist": "x"}, {"engine": "ah", "min_force": "x"},
               {"stars_count": "0"}, {"stars_count": "abc"}, {"stars_count": "-5"},
               {"box_size": "0"}, {"box_size": "-5"}, {"box_size": "nan"}, {"box_size": "inf"}, {"box_size": "abc"},
               {"max_step": "0"}, {"max_step": "-1"},
               {"resume": os.path.join(d, "nothing")}, {"initial_state": os.path.join(d, "nothing")}, {"initial_state": bad},
               {"initial_state": table}, {"initial_state": zeno, "initial_type": "SI"},
               {"initial_state": zeno, "initial_type": "Martian"}, {"output": os.path.join(zeno, "s")}, {"output": "/dev/null/s"}]
    invalid += [{k: v} for k in ("max_step", "min_step") for v in ("abc", "", "1x", "nan")]
    for inv in invalid:
        jobs.append((invalid_line, (c, clean, dict(base(), **inv), " ".join(args_of(inv)))))
    # --- numbers the program reads itself
    for k in ("max_time", "dump_step", "check_step", "max_part_size"):
        jobs.append((nonnumeric_line, (c, clean, dict(base(), **{k: "abc"}), k)))
    exe()
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(fn, *a) for fn, a in jobs]:
            f.result()
    shutil.rmtree(d)


def valid_line(c, clean, p, args, frames, bodies, init):
    desc = " ".join(args)
    rc, out = run(c, args)
    c.evaluations += 1
    c.ev("valid command lines")
    c.distinct.add("valid " + desc)
    if not clean(out, desc):
        return
    if rc != 0:
        c.violation("cli-refused", "valid command line fails (%s): %s\n%s" % (rc, desc, out[-600:]), {"args": desc})
        return
    try:
        s = Stream(p["output"])
    except OSError as ex:
        c.violation("cli-output", "no stream where asked for (%s): %s" % (ex, desc), {"args": desc})
        return
    if s.head.get("body_count") != str(bodies):
        c.violation("cli-bodies", "%s bodies instead of %d: %s" % (s.head.get("body_count"), bodies, desc), {"args": desc})
        return
    if len(s.lines) != frames + 1:
        c.violation("cli-frames", "%d frames instead of %d: %s" % (len(s.lines), frames + 1, desc), {"args": desc})
        return
    if not init and float(s.head["box_size"]) != float(p["box_size"]):
        c.violation("cli-box", "box %s: %s" % (s.head, desc), {"args": desc})
    parts = [l[2] for l in s.lines]
    if p["max_part_size"] == 1 and parts != list(range(len(parts))):
        c.violation("cli-parts", "parts %s with part size 1: %s" % (parts, desc), {"args": desc})
    if p["max_part_size"] == 1 << 30 and any(parts):
        c.violation("cli-parts", "parts %s with default part size: %s" % (parts, desc), {"args": desc})
    if init:
        kind, pos, vel, mass = init
        v = struct.unpack("%dd" % (6 * bodies), s.frame(0))
        m = struct.unpack("%dd" % bodies, open(p["output"] + ".mass", "rb").read())
        want = [x for b in pos for x in b], [x for b in vel for x in b]
        got = sorted(v)
        if got != sorted(want[0] + want[1]):
            c.violation("cli-initial", "first frame is not the initial state: %s" % desc, {"args": desc})
        if any(abs(a - b * GRAVITY[kind]) > 1e-3 * abs(b * GRAVITY[kind]) for a, b in zip(m, mass)):
            c.violation("cli-initial", "masses %s of the initial state read as %s: %s" % (mass, m, desc), {"args": desc})
        c.ev("runs from an initial state file")
    c.sample("valid: %s -> %d frames" % (desc, len(s.lines)))


def invalid_line(c, clean, p, desc):
    rc, out = run(c, args_of(p), timeout=100)
    c.evaluations += 1
    c.ev("invalid command lines")
    c.distinct.add("invalid " + desc)
    if not clean(out, desc):
        return
    if rc is None:
        c.violation("cli-hang", "the program does not end: %s" % desc, {"args": desc})
    elif rc < 0:
        c.violation("cli-crash", "the program dies of signal %d: %s" % (-rc, desc), {"args": desc})
    elif rc == 0:
        c.violation("cli-accepted", "invalid command line accepted: %s\n%s" % (desc, out[-300:]), {"args": desc})


def nonnumeric_line(c, clean, p, k):
    rc, out = run(c, args_of(p), timeout=100)
    c.evaluations += 1
    if not clean(out, k + "=abc"):
        return
    if rc is None or rc < 0:
        c.violation("cli-crash", "the program does not survive %s=abc (%s)" % (k, rc), {"args": k})
    elif rc == 0:
        c.violation("cli-nonnumeric:" + k, "non-numeric %s accepted" % k, {"args": k})
