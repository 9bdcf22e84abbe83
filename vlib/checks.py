"""One function per property."""
import json
import os

from . import build, cli
from .core import Check, SAN_ENV

H = os.path.join(build.VERIF, "harness")
REG = {}
LEVELS = {}


def check(prop, level="exploration", rule=""):
    def deco(fn):
        REG[prop] = (fn, level, rule)
        return fn
    return deco


def run(prop, replay=None):
    fn, level, rule = REG[prop]
    c = Check(prop, level, rule)
    if replay:
        info = json.load(open(replay))
        c.seed = info.get("seed", c.seed)
        c.tier = info.get("tier", c.tier)
    fn(c)
    return c.finish()


def setup():
    build.compile_objs(build.lib_jobs("san"))
    print("setup ok")
    return 0


def simple(c, name, variant="san", arg="", scale=1, shards=8, **kw):
    c.scale = scale
    exe = build.program(name, variant, [os.path.join(H, name + ".cpp")])
    return c.run_harness(name, exe, arg, shards=shards, **kw)


@check("C01", rule="random and boundary body counts x 8 configuration kinds x 3 engines, 1-3 evaluations each; "
       "non-trivial: at least two bodies; distinct by (engine, count, kind)")
def c01(c):
    simple(c, "c01_forces", scale=8)


@check("C02", rule="boundary and random body counts x configuration kinds x ratios x 3 layouts x 2 traversals, plus three-body "
       "probes around the opening distance; non-trivial: at least two bodies; distinct by (count, kind, ratio) or probe geometry")
def c02(c):
    simple(c, "c02_bh", scale=16)


@check("C03", rule="histories of 2-8 evaluations with arbitrary moves and step numbers between full builds; non-trivial: at least "
       "two bodies; distinct by (count, ratio, rate, layout, traversal, move, refresh)")
def c03(c):
    simple(c, "c03_refresh", scale=8)


@check("C04", rule="histories of evaluations over steps, rates, limits and moves; non-trivial: at least two bodies; distinct by (count, rate, limits, full or sparse)")
def c04(c):
    simple(c, "c04_ah", scale=8)


@check("C06", rule="random programs of vector operations on 3-8 vectors with aliasing, zero coefficients and all engines; distinct by (engine, operation, length, aliasing, terms)")
def c06(c):
    simple(c, "c06_vecops", scale=16)


@check("C26", rule="coordinates on, next to and beyond the box edges for all engines; non-trivial: at least one coordinate wrapped; distinct by (engine, count, box)")
def c26(c):
    simple(c, "c26_clamp", scale=10)


@check("C27", rule="series with known limits over step sequences, orders, levels and reuse; distinct by (engine, size, order, sequence, level)")
def c27(c):
    simple(c, "c27_extrapolate", scale=10)


@check("C10", rule="every solver and parameter-dependent order on random nonautonomous problems with known solutions over 23 step counts, plus random polynomials; distinct by (solver, problem)")
def c10(c):
    simple(c, "c10_order", scale=2)


@check("C07", rule="long accumulation histories of tiny increments over engines and solvers, with and without correction; distinct by (engine or solver, length, increment scale)")
def c07(c):
    simple(c, "c07_kahan")


@check("C09", rule="every solver with random parameters on an engine that poisons new buffers and audits every buffer operation; distinct by (solver, parameters, history)")
def c09(c):
    simple(c, "c09_buffers", scale=10)


@check("C11", rule="random isolated systems x exact engines x solvers; distinct by (engine, solver, system)")
def c11(c):
    simple(c, "c11_conserve", scale=2)


@check("C12", rule="random solvers, step sizes and step counts; distinct by (solver, step size, steps)")
def c12(c):
    simple(c, "c12_clock", scale=16)


@check("C14", rule="embedded solvers over error thresholds, substep counts, recursion limits and problems; distinct by (solver, threshold, limits, problem)")
def c14(c):
    simple(c, "c14_adaptive", scale=8)


@check("C15", rule="ranks 1-5 x starters x corrections x problems; distinct by (rank, starter, problem)")
def c15(c):
    simple(c, "c15_adams", scale=5)


@check("C16", rule="random solvers, histories before the reset and continuations; distinct by (solver, history)")
def c16(c):
    simple(c, "c16_reset", scale=16)


@check("C13", rule="random solvers, step sizes, intervals, start and end times, wrapping, visitors and failing writes; non-trivial: at least one step; distinct by (solver, intervals, step)")
def c13(c):
    simple(c, "c13_run", scale=16)


@check("C17", rule="sessions of up to three streams with reused writers, appended sessions and overwritten streams, read by reused readers with arbitrary seeks and repeated reads; distinct by (bodies, frames, limit, operation history)")
def c17(c):
    simple(c, "c17_stream", scale=5)


@check("C18", rule="sessions as for C17 with part limits around frame borders; distinct by (bodies, frames, limit)")
def c18(c):
    simple(c, "c17_stream", arg="layout", scale=5)


@check("C19", rule="recording processes killed before, in the middle of and after every system call that touches the stream; distinct by (stream, call, moment)")
def c19(c):
    simple(c, "c19_crash", scale=2)


@check("C20", rule="recordings, runs and saves with one failing, short or permanently failing call, a full device or a file size limit; distinct by (operation, fault)")
def c20(c):
    simple(c, "c20_storage", scale=6)


@check("C21", rule="runs interrupted once to three times after any frame and resumed, by library and by the simulation program (also killed); distinct by (solver, engine, interruptions)")
def c21(c):
    simple(c, "c21_resume", scale=2)
    cli.resume_campaign(c, 60 if c.thorough else 6)


@check("C22", rule="streams with truncated, mutated, missing or random files; distinct by damage")
def c22(c):
    simple(c, "c22_hostile", scale=4)


@check("C23", rule="generated initial-state files of both formats and three unit systems, well-formed and malformed in every field, line and count; distinct by (format, bodies, damage)")
def c23(c):
    simple(c, "c23_load", scale=3)


@check("C24", rule="random states x engines x check lists x 1-4 reports with moves in between, also on cleared data sets; distinct by (engine, bodies, kind, list, report)")
def c24(c):
    simple(c, "c24_stats", scale=4)


@check("C25", rule="star counts around block borders x box shapes x earlier contents; distinct by (stars, box)")
def c25(c):
    simple(c, "c25_universe", scale=10)


@check("C05", rule="random workloads (evaluation histories, vector operations, simulations) of all CPU engines x thread counts x schedules; distinct by (workload, threads, schedule)")
def c05(c):
    src = [os.path.join(H, "c05_threads.cpp")]
    try:
        race = build.program("c05_threads", "tsan", src, link_shim=True)
        sched = build.program("c05_threads", "shim", src, link_shim=True)
    except build.BuildError as e:
        if "undefined reference to `GOMP" not in str(e) and "undefined reference to `omp_" not in str(e):
            raise
        # the code uses a construct the replacement runtime does not know: only the real runtime is observed
        c.notes.append("replacement OpenMP runtime not usable: " + str(e)[-300:])
        race = sched = None
    if race:
        c.run_harness("c05_threads_tsan", race, "race", shards=8)
        c.run_harness("c05_threads_shim", sched, "", shards=8)
    c.run_harness("c05_threads", build.program("c05_threads", "plain", src), "", shards=2)


@check("C30", rule="random parameter maps with valid, missing and invalid values for every factory, random argument vectors, and command lines of the simulation program; distinct by parameters")
def c30(c):
    simple(c, "c30_config", scale=4)
    cli.config_campaign(c, 150 if c.thorough else 15)


@check("C08", rule="random programs of 3-120 operations over engines, solvers, extrapolators, data sets, writers and readers, destroyed in random order; distinct by operation sequence")
def c08(c):
    simple(c, "c08_lifecycle")
    exe = build.program("c08_lifecycle", "plain", [os.path.join(H, "c08_lifecycle.cpp")])
    c.run_harness("c08_lifecycle_valgrind", exe, "", env={"OMP_NUM_THREADS": "2"}, shards=8,
                  wrap=("valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=yes"))


def ocl_wrap(*opts):
    return ("bash", "-c", 'exec oclgrind --log "$PWD/ocl.log" --data-races --max-errors 20000 --num-threads 1 %s "$@"' % " ".join(opts), "oclgrind")


@check("C28", rule="random devices (1-8, one or several contexts), block sizes and body counts: forces, tree forces over build and refresh "
       "histories, vector programs, compensated sums, solver trajectories, re-initialisation, unsupported counts; distinct by configuration")
def c28(c):
    exe = build.program("c28_opencl", "san", [os.path.join(H, "c28_opencl.cpp")])
    env = {"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"] + ":verify_asan_link_order=0", "OMP_NUM_THREADS": "2"}
    c.run_harness("c28_opencl", exe, "", shards=8, wrap=ocl_wrap(), env=env)
    c.run_harness("c28_opencl", exe, "uninit", shards=8, wrap=ocl_wrap("--uninitialized"), env=env)


def recorder(variant):
    player = os.path.join(build.REPO, "player")
    return build.program("c29_recorder", variant, [os.path.join(H, "c29_recorder.cpp")] + [os.path.join(player, f) for f in (
        "nbody_frame_compressor.cpp", "nbody_frame_compressor_image.cpp", "nbody_frame_compressor_opencv.cpp")],
        extra_flags=["-isystem", build.QT + "/QtConcurrent", "-isystem", "/usr/include/opencv4"],
        extra_libs=["-lQt5Concurrent", "-lopencv_core", "-lopencv_videoio"], include_dirs=[player], with_lib=False)


@check("C29", rule="recordings of 0-80 frames of random sizes and formats to 1-2 destinations (special characters, existing, refused), 1-8 writer threads, "
       "with and without storage faults, and videos of 1-12 frames; distinct by description")
def c29(c):
    c.scale = 3
    c.run_harness("c29_recorder", recorder("san"), "", shards=8)


@check("C31", rule="random engines, vector programs, solver runs, error estimates, streams and files of the single and quadruple precision builds; "
       "distinct by precision and configuration")
def c31(c):
    for v in ("san1", "san4"):
        c.run_harness("c31_" + v, build.program("c31_precision", v, [os.path.join(H, "c31_precision.cpp")]), "", shards=8)
    env = {"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"] + ":verify_asan_link_order=0", "OMP_NUM_THREADS": "2"}
    c.run_harness("c31_opencl", build.program("c31_precision", "san1", [os.path.join(H, "c31_precision.cpp")]), "opencl", shards=8, wrap=ocl_wrap(), env=env)


NOT_APPLICABLE = {}
NOTES = {
    "C01": ("runtime monitor: engines under ASan/UBSan vs extended-precision direct sum",
            "Every generated force evaluation is compared, body by body, with a long-double direct sum within a rounding bound."),
    "C02": ("runtime monitor: tree code under ASan/UBSan vs direct sum with a rigorous opening-rule bound",
            "Every evaluation is compared with the direct sum within a bound derived from the opening rule; near-threshold probes require exactness."),
    "C03": ("runtime monitor: refresh histories under ASan/UBSan vs direct sum with the opening-rule bound",
            "Evaluations after arbitrary moves and refreshes are compared with the direct sum at the current positions."),
    "C04": ("runtime monitor: neighbour-list engine under ASan/UBSan vs an independent model of near and far sets",
            "Each evaluation of each history is compared with a model that recomputes near and far sets; pairs within 1e-9 of a limit are left undecided."),
    "C06": ("runtime monitor: random operation programs under ASan/UBSan vs a host model",
            "After every operation all vectors are compared: destination within rounding of the formula, all others bit-identical."),
    "C26": ("runtime monitor: wrapping under ASan/UBSan vs the one-box-length rule",
            "Every coordinate and velocity is compared with the rule."),
    "C27": ("runtime monitor: extrapolators under ASan/UBSan vs extended-precision tableau",
            "Every level is compared with an extended-precision Neville tableau within the amplified rounding bound."),
    "C10": ("runtime monitor: recorded evaluation times and end states under ASan/UBSan vs analytic solutions",
            "Fitted convergence order and polynomial exactness of each solver on generated problems; every derivative evaluation time is checked."),
    "C07": ("runtime monitor: compensated accumulation under ASan/UBSan vs exact extended-precision sums",
            "After every history the accumulated state is compared with the exact sum within a bound that does not grow with the run length."),
    "C09": ("runtime monitor: online buffer audit (exactly-once free, no foreign, freed or undersized buffer) and bit-identity under different poison",
            "An auditing engine observes every create, free and use; the same run is repeated with different initial buffer contents."),
    "C11": ("runtime monitor: conserved quantities of recorded trajectories under ASan/UBSan",
            "Momentum, angular momentum, mass centre and energy of every recorded state are compared with their initial values within bounds from the method order."),
    "C12": ("runtime monitor: clock and step counter observed after every step under ASan/UBSan",
            "Time, step counter and derivative evaluation times are observed after every step."),
    "C14": ("runtime monitor: recorded evaluation trace vs an independent model of the subdivision rule",
            "Every step's evaluation trace is compared with a model that replays the accept/subdivide rule."),
    "C15": ("runtime monitor: recorded end states and increments under ASan/UBSan vs analytic solutions",
            "Order of the started method and exactness of its increments on polynomials are observed."),
    "C16": ("runtime monitor: reset solver vs fresh solver, bit comparison of every later state",
            "The reset solver and a new solver are run from the same state and compared after every step."),
    "C13": ("runtime monitor: recorded log of steps, frames and checks vs a model of the schedule",
            "The order, times and contents of all events of every run are compared with a model of the schedule; instants within rounding of a due time are left undecided."),
    "C17": ("runtime monitor: recorded write and read histories under ASan/UBSan vs the frames written",
            "Every read of every history is compared bit by bit with the frame it has to deliver."),
    "C18": ("runtime monitor: independent parser of the recorded files vs a model of part splitting",
            "All files of every recorded stream are parsed independently and compared with a model of the layout."),
    "C19": ("runtime monitor: process death injected at system calls, survivors checked by reading and appending",
            "Every crash state is loaded, all acknowledged frames are compared, then frames are appended and everything is compared again."),
    "C20": ("runtime monitor: storage faults injected at system calls, reported results vs bytes in the files",
            "Whenever success is reported an independent parser must find the bytes in the files; whenever a fault was injected success is only accepted if they are."),
    "C21": ("runtime monitor: resumed vs uninterrupted recordings, bit comparison",
            "All frames of resumed recordings are compared with the uninterrupted run; the program is also killed at random moments."),
    "C22": ("runtime monitor: damaged streams under ASan/UBSan vs an independent parser",
            "Every successful read must deliver the bytes the independent parser finds at the indexed place; completely stored frames must stay readable."),
    "C23": ("runtime monitor: loader under ASan/UBSan vs an independent reading of the generated file",
            "Every well-formed file must be loaded value by value, every malformed one rejected with an empty data set."),
    "C24": ("runtime monitor: reported quantities and log line under ASan/UBSan vs extended-precision recomputation",
            "Every reported total, initial value, error and log line is compared with a recomputation from the engine's state."),
    "C25": ("runtime monitor: generated universes under ASan/UBSan vs their construction rules",
            "Every body of every generated universe is checked against the construction rules."),
    "C05": ("runtime monitor: ThreadSanitizer race detection and bit comparison over seeded schedules of a replacement OpenMP runtime",
            "Happens-before race detection of every parallel construct executed; every result compared bit by bit over thread counts, controlled and free schedules, and the real runtime."),
    "C30": ("runtime monitor: factory products vs hand-configured objects under ASan/UBSan; simulation program driven by valid and invalid command lines",
            "Objects made from parameters are compared with hand-configured ones by kind, settings and trajectory; every command line's exit status, files and sanitizer output are observed."),
    "C08": ("runtime monitor: random API programs under ASan/UBSan with heap-growth observation, and under valgrind memcheck",
            "Every operation of every program runs under AddressSanitizer and UndefinedBehaviorSanitizer; repeated programs must not grow the heap; under valgrind every value that reaches a result must be defined."),
    "C28": ("runtime monitor: OpenCL engines on the oclgrind device simulator (invalid access, race and uninitialised-value detection) and under ASan/UBSan on the host side, against direct-sum, opening-rule and host-model oracles",
            "Kernels and host code of the OpenCL engines run on simulated devices; results are compared with oracles and the CPU engines, and every report of the simulator is a violation."),
    "C29": ("runtime monitor: frame recorders under ASan/UBSan with injected storage faults; every pushed frame is looked up in the files",
            "Every frame handed to a recorder must be found, pixel for pixel, in its own file (video: frame by frame within coding loss), or its loss must have been reported."),
    "C31": ("runtime monitor: the library rebuilt for single and quadruple precision under ASan/UBSan, against extended-precision oracles",
            "Forces, vector operations, compensated sums, solver convergence, error estimates, streams and text files of the other two builds are judged at the rounding of their type."),
}
