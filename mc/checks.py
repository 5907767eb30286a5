"""What each check consists of."""
import concurrent.futures, glob, os, subprocess, sys, time

CHECKS = {
    "C01": {
        "level": "exploration",
        "technique": "exhaustive small-scope enumeration of operand pairs on the real code against a winding-number reference",
        "note": "Every pair of the enumerated shape families (all voxel sets of a 2x2x2 grid in several alignments and "
                "diagonals, all grid boxes, all grid tetrahedra, prisms over all grid triangles and cocircular polygons, a "
                "zoo of non-manifold / multi-shell / inverted solids) x all 16 operators; nothing outside those families. "
                "Trusts the floating-point winding-number oracle, evaluated with a margin.",
    },
    "C02": {
        "level": "exploration",
        "technique": "exhaustive small-scope enumeration of operand kinds, pairs and operators on the real code against a cell-decomposition reference",
        "note": "Every operator on every ordered pair from the operand families (empty set, universe, solids and complements; "
                "equal, complementary, touching, nested, disjoint); nothing outside those families.",
    },
    "C03": {
        "level": "exploration",
        "technique": "exhaustive small-scope enumeration of pairs of open meshes inside a clip region on the real code against a half-space reference",
        "note": "Clip region is a box; every pair of dividing surfaces of the enumerated families x 16 operators. Curved or "
                "non-box clip regions are not explored.",
    },
    "C04": {
        "level": "exploration",
        "technique": "exhaustive enumeration of call sequences on one real Boolean_operator object, compared call by call with a fresh computation",
        "note": "All operator/preference sequences up to the stated depth per operand pair; deeper sequences and other operands are not explored.",
    },
    "C05": {
        "level": "exploration",
        "technique": "exhaustive small-scope enumeration of operand pairs with uniquely labelled faces on the real code against an exact geometric reference",
        "note": "Every pair of the listed shape families x operators x preference; nothing outside those families.",
    },
    "C06": {
        "level": "exploration",
        "technique": "breadth-first exploration of the reachable regions under composed Boolean operations on the real code, each state checked against the set-algebra reference",
        "note": "All expressions up to the stated depth over the stated generator solids.",
    },
    "C07": {
        "level": "exploration",
        "technique": "exhaustive enumeration of query points on a grid for every enumerated mesh on the real code against an exact integer reference",
        "note": "All points of the stated lattices, for every mesh of the families.",
    },
    "C08": {
        "level": "exploration",
        "technique": "exhaustive enumeration of triangle pairs over integer point grids on the real code against an exact rational reference",
        "note": "All triangle pairs over the stated grids, with vertex relabellings; nothing outside those grids.",
    },
    "C25": {
        "level": "exploration",
        "technique": "exhaustive enumeration of fans of faces around an edge and of solid pairs sharing edges on the real classifiers against an angular-sector reference",
        "note": "All fans over the stated directions up to the stated size, in all input orders.",
    },
    "C10": {
        "level": "exploration",
        "technique": "exhaustive enumeration of small triangle soups and of edits of solids on the real code against brute-force definitions in integer arithmetic",
        "note": "All soups of up to three faces (any, including degenerate) and sets of up to six proper faces over the stated "
                "point configurations, and every single (small shapes: double) edit of a zoo of solids.",
    },
    "C18": {
        "level": "exploration",
        "technique": "exhaustive enumeration of box sequences and queries on the real tree against interval arithmetic on integers",
        "note": "All sequences or multisets of boxes up to the stated length on small grids, and structured families up to the stated number of boxes, built with 1 to 16 threads.",
    },
    "C11": {
        "level": "exploration",
        "technique": "exhaustive enumeration of coordinate values, data values, regions, restore targets, streams and save/restore points of Boolean chains on the real reader and writer, compared exactly",
        "note": "All combinations over the stated alphabets; regions from the shape zoo and exact results of Boolean operations.",
    },
    "C12": {
        "level": "exploration",
        "technique": "exhaustive enumeration of coordinate values, small face lists and conversion chains on the real readers and writers, compared exactly",
        "note": "All pairs of the stated coordinate values, all face lists of up to two faces over up to four vertices through all chains of formats up to the stated length, and meshes of stated sizes.",
    },
    "C13": {
        "level": "exploration",
        "technique": "exhaustive enumeration of the ways of writing small meshes in each format, read by the real readers and compared with the mesh written",
        "note": "Every combination of up to the stated number of deviations from the canonical spelling, for five meshes and three formats; larger meshes are not explored.",
    },
    "C14": {
        "level": "exploration",
        "technique": "exhaustive enumeration of malformations (every truncation, every one-byte edit, every token and line substitution) of valid files on the real readers against a strict reader",
        "note": "All single edits of the stated alphabets at every position of the seed files and pairs of token substitutions. Where the format leaves the reading open, either answer is accepted.",
    },
    "C15": {
        "level": "exploration",
        "technique": "exhaustive fault injection: a device error at every byte of every read and write of the real readers and writers (stream buffers, interposed read()/write(), the kernel's file size limit)",
        "note": "Every byte of two small meshes per format, and the end and a spread of positions of one beyond the buffer's size. Errors reported only by close() are out of scope.",
    },
    "C16": {
        "level": "exploration",
        "technique": "stateless model checking of the real code: dynamic partial-order reduction over all schedules of real threads under a controlled scheduler, with happens-before race detection",
        "note": "All interleavings (no preemption bound) of single calls with up to 6 items and 4 workers and every set of throwing items, state copies and merges of the stated sizes; atomics are explored as sequentially consistent.",
        "parts": [{"variant": "sched"}],
    },
    "C17": {
        "level": "exploration",
        "technique": "stateless model checking of the real code under a controlled scheduler (all traces for two workers, delay-bounded for more) with happens-before race detection, and exhaustive enumeration of sizes x limits x input orders",
        "note": "Bounded: two workers without bound, up to eight within the stated number of delays; input orders are the stated families (block permutations, zero-one blocks, runs), not all sequences.",
        "parts": [{"variant": "sched"}],
    },
    "C19": {
        "level": "exploration",
        "technique": "stateless model checking of the real pipeline under a controlled scheduler (delay-bounded from several base schedules) with happens-before race detection, results compared with a set oracle and the single-threaded answer",
        "note": "Bounded: the stated operand pairs, limits of 2, 3, 4 (some 8) and schedules within the stated number of delays from the stated base schedules.",
        "parts": [{"variant": "sched"}],
    },
    "C20": {
        "level": "exploration",
        "technique": "exhaustive enumeration of call sequences of the real library from fresh (forked) processes, every answer compared with that of a fresh process",
        "note": "All sequences up to the stated length over the stated calls, in one thread and in separate threads, with one processor; run under the address sanitizer.",
        "parts": [{"variant": "asan"}],
        "env": {"ASAN_OPTIONS": "symbolize=0:detect_leaks=0", "UBSAN_OPTIONS": "symbolize=0"},
    },
    "C21": {
        "level": "exploration",
        "technique": "exhaustive enumeration of nested scope histories on one and two threads (all interleavings) against a stack, and of parallel entry points x limits with every thread creation and join observed",
        "note": "All well-nested histories up to the stated length; the listed entry points and limits. The number of threads at work is derived from who creates and joins whom, hence independent of the schedule.",
    },
    "C22": {
        "level": "exploration",
        "technique": "exhaustive enumeration of operation sequences on real objects in lockstep with plain vectors",
        "note": "All sequences up to the stated length over the stated operations and initial contents. Self-move-assignment is not explored.",
    },
    "C23": {
        "level": "exploration",
        "technique": "exhaustive enumeration of argument combinations and sequences, operands, outputs and write-failure points of the real tool run as a process, compared with an independent reading of the arguments",
        "note": "All combinations over the stated operands and outputs and all short argument sequences; contents are judged by the set oracle of C01/C02.",
        "cli": True,
    },
    "C27": {
        "level": "exploration",
        "technique": "stateless model checking of the real code: dynamic partial-order reduction over all schedules of users' threads on shared regions, delay-bounded between all atomic accesses and with parallel workers, with happens-before race detection",
        "note": "All programs of the stated length over eight operations on four pairs of regions; locks and initialisations without bound, other atomics within the stated number of delays.",
        "parts": [{"variant": "sched"}],
    },
}
NOT_APPLICABLE = {}


def build_cli(R, work, pool):
    srcs = sorted(glob.glob(os.path.join(R.REPO, "cli", "*.cc")))
    objs = [os.path.join(work, "cli-" + os.path.basename(f) + ".o") for f in srcs]
    jobs = [pool.submit(R.compile_one, f, o, "plain", link=False) for f, o in zip(srcs, objs)]
    for j in jobs:
        if j.result().returncode != 0:
            return j.result()
    return R.run([R.CXX, *objs, "-o", os.path.join(work, "kigumi-cli"), *R.LIBS, "-lboost_program_options"])


def run_check(R, prop, spec, tier, seed, args, replay, work, t0):
    parts = spec.get("parts", [{}])
    assert len(parts) == 1 or not replay or True
    rc = 0
    part = parts[0]
    src = os.path.join(R.MC, "checks", part.get("src", prop + ".cc"))
    exe = os.path.join(work, prop)
    env = dict(os.environ, **spec.get("env", {}))
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        tool = None
        if spec.get("cli"):
            tool = pool.submit(build_cli, R, work, pool)
            env["KMC_CLI"] = os.path.join(work, "kigumi-cli")
        r = R.compile_one(src, exe, part.get("variant", "plain"), part.get("extra", ()), libs=part.get("libs", ()))
        for x in (r, tool.result() if tool else r):
            if x.returncode != 0:
                R.log(x.stdout[-6000:])
                R.log(f"{prop}: the harness does not build")
                return 2
    tb = time.time() - t0
    cmd = [exe, "--tier", tier, "--seed", seed, "--extra-wall", f"{tb:.2f}",
           "--evidence", os.path.join(R.VERIF, "evidence", prop + ".json"),
           "--known", os.path.join(R.VERIF, "known_findings.txt"),
           "--replay-dir", os.path.join(R.VERIF, "out", "replay"), *args]
    if replay:
        case = [l.split(": ", 1)[1].strip() for l in open(replay) if l.startswith("case: ")][0]
        cmd += ["--one", case]
    os.makedirs(os.path.join(R.VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(R.VERIF, "out", "replay"), exist_ok=True)
    return subprocess.run(cmd, env=env).returncode
