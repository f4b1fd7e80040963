#!/usr/bin/env python3
"""Deterministic-simulation checks for teiacaresdk.

    check.py C01                 one check (VERIF_SEED, VERIF_TIER from the environment; --tier, --seed, --budget override)
    check.py --setup             build every scenario group
    check.py --replay FILE       replay a violation (exit 1 when it is reproduced exactly)
    check.py --selftest [N]      determinism: N runs of every scenario, generated twice and replayed from explicit lists
"""
import collections
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from spec import CHECKS, GROUPS, STUBS, group_of  # noqa: E402

BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or max(2, min(8, os.cpu_count() or 2))
CXX = "g++"
RT_FLAGS = ("-std=c++20 -O2 -g -fno-builtin -fno-stack-protector -fno-tree-loop-distribute-patterns -fno-pie -fcf-protection=none "
            "-fno-omit-frame-pointer -w").split()
SIM_FLAGS = ("-std=c++20 -O1 -g -fsanitize=thread -fsanitize-coverage=trace-pc -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-pie "
             "-fno-omit-frame-pointer -w").split()
ERR = 3


def say(*a):
    print(*a, flush=True)


class BuildError(Exception):
    pass


def files_under(d, pats):
    out = []
    for p in pats:
        out += glob.glob(os.path.join(d, "**", p), recursive=True)
    return sorted(f for f in out if os.path.isfile(f))


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


class Builder:
    """Objects are kept under the hash of everything that goes into them."""

    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.lock = threading.Lock()
        self.cxxv = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
        self.repo_files = files_under(os.path.join(REPO, "sdk/include"), ["*"]) + files_under(os.path.join(REPO, "sdk/src"), ["*"])
        self.repo_key = digest(*[f + "\0" + digest(read(f)) for f in self.repo_files if not f.endswith("src/version.cpp")])
        self.rt_key = digest(read(f"{VERIF}/sim/rt/rt.cpp"), read(f"{VERIF}/sim/rt/sim.h"))
        self.scn_key = digest(read(f"{VERIF}/sim/scn/scn.h"), read(f"{VERIF}/sim/rt/sim.h"))
        self.pending = {}
        self.pool = cf.ThreadPoolExecutor(JOBS)

    def sources(self):
        r = []
        for f in files_under(os.path.join(REPO, "sdk/src"), ["*.cpp", "*.cc", "*.cxx"]):
            rel = os.path.relpath(f, os.path.join(REPO, "sdk/src"))
            if rel != "version.cpp":
                r.append(rel[:rel.rindex(".")])
        return r

    def src_path(self, rel):
        for e in (".cpp", ".cc", ".cxx"):
            p = os.path.join(REPO, "sdk/src", rel + e)
            if os.path.exists(p):
                return p
        return None

    def compile(self, src, flags, key):
        obj = os.path.join(BUILD, "obj", key + ".o")
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.tmp"
        r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            if os.path.exists(tmp):
                os.unlink(tmp)
            raise BuildError(f"cannot compile {src}:\n{r.stderr[:6000]}")
        os.rename(tmp, obj)
        return obj

    def submit(self, src, flags, key):
        with self.lock:
            if key not in self.pending:
                self.pending[key] = self.pool.submit(self.compile, src, flags, key)
            return self.pending[key]

    def rt_obj(self):
        return self.submit(f"{VERIF}/sim/rt/rt.cpp", RT_FLAGS, digest("rt", self.cxxv, " ".join(RT_FLAGS), self.rt_key))

    def inc(self):
        return [f"-I{REPO}/sdk/include", f"-I{REPO}/sdk/src", f"-I{VERIF}/sim/rt", f"-I{VERIF}/sim/scn"]

    def scn_obj(self, name):
        src = f"{VERIF}/sim/scn/{name}.cpp"
        fl = SIM_FLAGS + self.inc()
        return self.submit(src, fl, digest("scn", self.cxxv, " ".join(fl), self.scn_key, self.repo_key, name, read(src)))

    def src_obj(self, rel):
        p = self.src_path(rel)
        fl = SIM_FLAGS + self.inc()
        return self.submit(p, fl, digest("src", self.cxxv, " ".join(fl), self.repo_key, rel))

    def link(self, objs, key):
        exe = os.path.join(BUILD, "exe-" + key)
        if os.path.exists(exe):
            os.utime(exe)
            return exe
        tmp = f"{exe}.{os.getpid()}.tmp"
        r = subprocess.run([CXX, "-no-pie", "-rdynamic", "-o", tmp, *objs, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"cannot link:\n{r.stderr[:4000]}")
        os.rename(tmp, exe)
        return exe

    def group(self, g):
        scns, srcs = GROUPS[g]
        srcs = [s for s in srcs if self.src_path(s)]
        futs = [self.rt_obj()] + [self.scn_obj(s) for s in scns] + [self.src_obj(s) for s in srcs]
        objs = [f.result() for f in futs]
        try:
            return self.link(objs, g + "-" + digest(*objs)[:16])
        except BuildError as e:
            if "undefined reference" not in str(e):
                raise
        # the library's sources were rearranged: take all of them
        futs = [self.rt_obj()] + [self.scn_obj(s) for s in scns] + [self.src_obj(s) for s in self.sources()]
        objs = [f.result() for f in futs]
        return self.link(objs, g + "-" + digest(*objs)[:16])

    def groups(self, names):
        # start every compilation first
        self.rt_obj()
        for g in names:
            for s in GROUPS[g][0]:
                self.scn_obj(s)
        for g in names:
            for s in GROUPS[g][1]:
                if self.src_path(s):
                    self.src_obj(s)
        return {g: self.group(g) for g in names}

    def trim(self, limit=3 << 30):
        fs = []
        for f in glob.glob(os.path.join(BUILD, "obj", "*.o")) + glob.glob(os.path.join(BUILD, "exe-*")):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
        total = sum(s for _, s, _ in fs)
        for m, s, f in sorted(fs):
            if total <= limit or time.time() - m < 3600:
                break
            total -= s
            try:
                os.unlink(f)
            except OSError:
                pass


def known_findings(prop):
    """known: property=C01 scenario=queue.lin.int class=<exact class> | text"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) scenario=(\S+) tag=(\S+) class=(.*?) \| (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append(dict(scenario=m.group(2), tag=m.group(3), cls=m.group(4), text=m.group(5)))
    return out


class Scn:
    def __init__(self, name, weight, tags, exe, own):
        self.name, self.weight, self.tags, self.exe, self.own = name, weight, tags, exe, own
        self.next = 0
        self.spent = 0.0
        self.rate = 0.0
        self.inflight = 0
        self.first = True
        self.exhausted = False


class Totals:
    def __init__(self):
        self.n = collections.Counter()
        self.faults = {}
        self.max_points = 0
        self.per = {}
        self.cov = collections.defaultdict(set)
        self.sync = set()
        self.runs_hash = set()
        self.sched = set()
        self.foreign_notes = collections.Counter()


def parse_batch(text):
    d = {"viol": [], "errors": [], "stats": None, "foreign": []}
    for line in text.splitlines():
        if line.startswith("violation "):
            m = re.match(r"violation run=(\d+) seed=(\d+) tag=(\S+) class=(.*)$", line)
            d["viol"].append((int(m.group(1)), int(m.group(2)), m.group(3), m.group(4)))
        elif line.startswith("error "):
            d["errors"].append(line)
        elif line.startswith("stats "):
            d["stats"] = json.loads(line[6:])
        elif line.startswith("note foreign "):
            d["foreign"].append(line[13:])
    return d


def symbolize(exe, text):
    pcs = sorted(set(re.findall(r"<([0-9a-f]{5,12})>", text)))
    if not pcs:
        return text
    r = subprocess.run(["addr2line", "-Cfse", exe], input="\n".join("0x%x" % max(0, int(p, 16) - 1) for p in pcs), capture_output=True, text=True)
    lines = r.stdout.splitlines()
    names = {}
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(lines):
            fn, loc = lines[2 * i], lines[2 * i + 1]
            if not fn.startswith("??"):
                fn = re.sub(r"\(.*", "", fn)
                names[p] = f"<{fn[-90:]} {loc}>"
    return re.sub(r"<([0-9a-f]{5,12})>", lambda m: names.get(m.group(1), m.group(0)), text)


def run_check(prop, tier, seed, budget):
    t_start = time.time()
    tags, own, more = CHECKS[prop]
    allscn = {**own, **more}
    b = Builder()
    groups = []
    for s in allscn:
        g = group_of(s)
        if g not in groups:
            groups.append(g)
    exes = b.groups(groups)
    b.trim()
    t_built = time.time()
    work = tempfile.mkdtemp(prefix=f"sim-{prop}-", dir=BUILD)
    try:
        return explore(prop, tier, seed, budget, tags, own, more, exes, work, t_start, t_built)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, tier, seed, budget, tags, own, more, exes, work, t_start, t_built):
    own_tags = ",".join(sorted(set([prop] + tags)))
    scns = [Scn(s, w, own_tags, exes[group_of(s)], True) for s, w in own.items()]
    scns += [Scn(s, w * 0.5, prop, exes[group_of(s)], False) for s, w in more.items()]
    T = Totals()
    known = known_findings(prop)
    known_seen = set()
    lock = threading.Lock()
    found = []
    errors = []
    samples = []
    # determinism of this build, on a sample
    nself = 6 if tier == "quick" else 60
    selftest = {"runs": 0, "mismatches": 0}

    def do_self(s):
        n = max(2, nself)
        r = subprocess.run([s.exe, "selftest", "--scn", s.name, "--seed", str(seed), "--from", "0", "--to", str(n)], capture_output=True, text=True)
        m = re.search(r"selftest \S+ runs=(\d+) mismatches=(\d+)", r.stdout)
        with lock:
            if not m:
                selftest["mismatches"] += 1
                selftest["detail"] = (r.stdout + r.stderr)[:500]
            else:
                selftest["runs"] += int(m.group(1))
                selftest["mismatches"] += int(m.group(2))
                if int(m.group(2)):
                    selftest["detail"] = r.stdout[:500]
        if s.own:
            r = subprocess.run([s.exe, "show", "--scn", s.name, "--seed", str(seed), "--from", "0", "--to", "1"], capture_output=True, text=True)
            with lock:
                for line in r.stdout.splitlines():
                    try:
                        samples.append(json.loads(line))
                    except ValueError:
                        pass

    deadline = time.time() + budget
    chunk_no = [0]

    def pick():
        with lock:
            if found or time.time() >= deadline:
                return None
            c = [s for s in scns if not s.exhausted]
            if not c:
                return None
            s = min(c, key=lambda s: (s.spent + s.inflight * 1.5) / s.weight if not s.first else -1)
            if s.first:
                n = 100
                s.first = False
            else:
                rate = s.rate or 300
                n = int(max(20, min(20000, rate * min(1.5, max(0.2, deadline - time.time())))))
            a = s.next
            s.next += n
            s.inflight += 1
            chunk_no[0] += 1
            return s, a, a + n, chunk_no[0]

    def one(s, a, z, no):
        base = os.path.join(work, str(no))
        t0 = time.time()
        cmd = [s.exe, "batch", "--scn", s.name, "--seed", str(seed), "--from", str(a), "--to", str(z), "--tags", s.tags,
               "--out", base + ".case", "--hashes", base + ".hash", "--cov", base + ".cov", "--limit", str(max(1.0, min(30.0, deadline - t0 + 2)))]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=240)
        except subprocess.TimeoutExpired:
            with lock:
                s.inflight -= 1
                errors.append(f"{s.name}: batch {a}..{z} did not end")
            return
        dt = time.time() - t0
        d = parse_batch(r.stdout)
        with lock:
            s.inflight -= 1
            s.spent += dt
            if d["stats"] is None:
                errors.append(f"{s.name}: batch {a}..{z} ended with {r.returncode}: {(r.stdout + r.stderr)[-400:]}")
                return
            st = d["stats"]
            if st["runs"] and st["wall_s"] > 0.05:
                s.rate = st["runs"] / st["wall_s"]
            p = T.per.setdefault(s.name, collections.Counter())
            for k in ("runs", "nontrivial", "discarded", "foreign", "artefacts", "points", "blocks", "threads", "decisions", "sim_us"):
                T.n[k] += st[k]
                p[k] += st[k]
            p["cpu_ms"] += int(st["wall_s"] * 1000)
            T.max_points = max(T.max_points, st["max_points"])
            for k, (x, y) in st["faults"].items():
                f = T.faults.setdefault(k, [0, 0])
                f[0] += x
                f[1] += y
            for f in d["foreign"]:
                T.foreign_notes[s.name + ": " + f] += 1
            try:
                h = read(base + ".hash")
                for i in range(0, len(h) - 23, 24):
                    x = h[i:i + 8]
                    T.runs_hash.add(x)
                    T.sched.add(h[i + 8:i + 16])
                    y = h[i + 16:i + 24]
                    if y != b"\0" * 8:
                        T.sync.add(y)
                T.cov[s.exe].update(read(base + ".cov").split())
            except OSError:
                pass
            for e in d["errors"]:
                errors.append(f"{s.name}: {e}")
            for run, sd, tag, cls in d["viol"]:
                k = next((k for k in known if k["scenario"] == s.name and k["tag"] == tag and k["cls"] == cls), None)
                if k:
                    known_seen.add(k["text"])
                    s.next = min(s.next, run + 1) if s.next == z else s.next
                else:
                    found.append((s, run, sd, tag, cls, base + ".case"))
        for e in (".hash", ".cov"):
            try:
                os.unlink(base + e)
            except OSError:
                pass

    def loop():
        while True:
            c = pick()
            if c is None:
                return
            one(*c)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(do_self, s) for s in scns]:
            f.result()
    deadline = time.time() + budget
    t_explore = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(loop) for _ in range(JOBS)]:
            f.result()
    explore_s = time.time() - t_explore

    status = 0
    violations = 0
    report = None
    if found:
        # prefer verdicts about this very property, then the earliest run
        found.sort(key=lambda v: (v[3] != prop, v[3] == "generic", not v[0].own, v[1]))
        for s, run, sd, tag, cls, case in found[:4]:
            report = confirm(prop, s, run, sd, tag, cls, case, work, tier, seed)
            if report:
                violations = len(found)
                status = 1
                break
        if not report:
            errors.append("a violation was found that does not replay exactly: " + "; ".join(f"{v[0].name} run {v[1]} {v[3]} {v[4]}" for v in found[:4]))
    if status == 0 and T.n["artefacts"]:
        errors.append(f"{T.n['artefacts']} violations did not appear again in a fresh process")
    if status == 0 and selftest["mismatches"]:
        errors.append(f"determinism self test failed: {selftest}")
    if status == 0 and T.n["runs"] and not T.n["nontrivial"]:
        errors.append("no run was non-trivial")
    write_evidence(prop, tier, seed, T, scns, samples, selftest, exes, explore_s, t_start, t_built, violations, errors, report, known_seen)
    for k in sorted(known_seen):
        say(f"KNOWN-FINDING: property={prop} {k}")
    if status:
        say(open(report).read()[:6000])
        say(f"VIOLATION property={prop} replay={report}")
        return 1
    if errors:
        for e in errors[:10]:
            say("ERROR", e)
        return ERR
    say(f"OK property={prop} tier={tier} seed={seed} runs={T.n['runs']} distinct={len(T.sync)} explored {explore_s:.1f}s of {time.time() - t_start:.1f}s")
    for k, v in T.foreign_notes.most_common(5):
        say(f"note: verdict about another property: {k}")
    return 0


def confirm(prop, s, run, sd, tag, cls, case, work, tier, seed):
    """Minimise, then the minimised case must replay exactly in fresh processes. Returns the replay file or None."""
    small = case + ".small"
    r = subprocess.run([s.exe, "shrink", case, "--out", small, "--budget", "10" if tier == "quick" else "60"], capture_output=True, text=True)
    use = small if r.returncode == 0 and os.path.exists(small) else case
    ok = 0
    out = ""
    for _ in range(2):
        q = subprocess.run([s.exe, "replay", use], capture_output=True, text=True)
        ok += q.returncode == 1
        out = q.stdout
    if ok != 2 and use == small:
        use = case
        ok = 0
        for _ in range(2):
            q = subprocess.run([s.exe, "replay", use], capture_output=True, text=True)
            ok += q.returncode == 1
            out = q.stdout
    if ok != 2:
        return None
    tr = subprocess.run([s.exe, "replay", use, "--trace", "--lines", "300"], capture_output=True, text=True).stdout
    body = open(use, errors="replace").read()
    msg = re.search(r"^message (.*?)^endmessage", body, re.S | re.M)
    head = [f"# property {prop}: violated in scenario {s.name} (run {run} of seed {seed}; run seed {sd})",
            f"# verdict: {tag} {cls}",
            f"# replay:  python3 /verif/tools/check.py --replay <this file>   (the library must be built from the same sources)",
            "# " + r.stdout.strip().replace("\n", "\n# ")]
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{s.name}-{sd}.replay")
    text = symbolize(s.exe, (msg.group(1) if msg else "") + "\n\x01" + tr)
    msgtext, trace = text.split("\x01", 1)
    with open(path, "w") as f:
        f.write("\n".join(head) + "\n# " + msgtext.strip().replace("\n", "\n# ") + "\n")
        f.write("BEGIN CASE\n" + body + "\nEND CASE\n")
        f.write(trace)
    return path


def replay(path):
    t = open(path, errors="replace").read()
    m = re.search(r"^BEGIN CASE\n(.*?)^END CASE", t, re.S | re.M)
    body = m.group(1) if m else t
    s = re.search(r"^scenario (\S+)", body, re.M).group(1)
    exe = Builder().groups([group_of(s)])[group_of(s)]
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        c = os.path.join(d, "case")
        open(c, "w").write(body)
        r = subprocess.run([exe, "replay", c, "--trace", "--lines", "300"], capture_output=True, text=True)
        say(symbolize(exe, r.stdout))
        r = subprocess.run([exe, "replay", c], capture_output=True, text=True)
        say(symbolize(exe, r.stdout))
        return r.returncode


def coverage(T, exes):
    """Blocks of the library reached, by source file."""
    per = collections.Counter()
    scn = 0
    for exe, pcs in T.cov.items():
        if not pcs:
            continue
        pl = sorted(pcs)
        r = subprocess.run(["addr2line", "-e", exe], input="\n".join("0x" + p.decode() for p in pl), capture_output=True, text=True)
        seen = set()
        for line in r.stdout.splitlines():
            line = line.split(" ")[0]
            if line in seen:
                continue
            seen.add(line)
            f = line.rsplit(":", 1)[0]
            if f.startswith(REPO + "/"):
                per[os.path.relpath(f, REPO)] += 1
            elif f.startswith(VERIF + "/"):
                scn += 1
    return dict(per.most_common()), scn


def write_evidence(prop, tier, seed, T, scns, samples, selftest, exes, explore_s, t_start, t_built, violations, errors, report, known_seen):
    cov, _ = coverage(T, exes)
    wall = time.time() - t_start
    runs = T.n["runs"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(T.sync),
            "rule": "A run is one simulated execution: a generated program (draws) under a seeded schedule and fault sequence (decisions). Non-trivial: the scenario "
                    "marked it as exercising the property (e.g. overlapping operations, a fault inside an operation, a periodic task with a disturbed phase). Distinct: "
                    "different order of synchronisation operations and threads over the whole run (hash), among the non-trivial runs.",
            "samples": samples[:4] or [{"note": "no sample"}],
            "nontrivial_runs": T.n["nontrivial"],
            "runs_without_verdict": T.n["discarded"],
            "distinct_executions": len(T.runs_hash),
            "distinct_schedules": len(T.sched),
            "seeds_per_hour": int(runs / explore_s * 3600) if explore_s > 0 else 0,
            "simulated_seconds": round(T.n["sim_us"] / 1e6, 3),
            "synchronisation_points": T.n["points"],
            "longest_run_points": T.max_points,
            "decision_points": T.n["decisions"],
            "basic_blocks_executed": T.n["blocks"],
            "simulated_threads": T.n["threads"],
            "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(T.faults.items()) if v[0]},
            "scenarios": {k: {"runs": v["runs"], "nontrivial": v["nontrivial"], "cpu_s": v["cpu_ms"] / 1000} for k, v in sorted(T.per.items())},
            "library_lines_with_blocks_reached": cov,
            "components_real": sorted(cov) or ["none reached"],
            "components_stub": STUBS,
            "determinism_selftest": selftest,
            "verdicts_about_other_properties": T.n["foreign"],
            "violations_not_reproduced": T.n["artefacts"],
            "explore_s": round(explore_s, 2),
            "build_s": round(t_built - t_start, 2),
        },
        "assumptions": [
            "interleavings are sequentially consistent; data races are reported by a happens-before detector rather than explored under weak memory",
            "code inside libstdc++.so and libc is not instrumented (its synchronisation and system calls are simulated)",
            "at most 64 simulated threads and the program sizes drawn by the scenarios",
        ],
        "wall_s": round(wall, 2), "violations": violations,
    }
    if errors:
        ev["coverage"]["errors"] = errors[:10]
    if report:
        ev["coverage"]["replay"] = report
    if known_seen:
        ev["coverage"]["known_findings"] = sorted(known_seen)
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVIDENCE, f"{prop}.json"))


def selftest(n):
    exes = Builder().groups(list(GROUPS))
    bad = 0
    jobs = []
    for g, exe in exes.items():
        for line in subprocess.run([exe, "list"], capture_output=True, text=True).stdout.splitlines():
            jobs.append((exe, line.split()[0]))

    def one(j):
        exe, s = j
        r = subprocess.run([exe, "selftest", "--scn", s, "--to", str(n)], capture_output=True, text=True)
        # the same runs in one process each and in batches must hash alike
        hs = []
        with tempfile.TemporaryDirectory(dir=BUILD) as d:
            for k, extra in enumerate((["--per", "200"], ["--fork"], ["--per", "7"])):
                subprocess.run([exe, "batch", "--scn", s, "--seed", "1", "--from", "0", "--to", str(n), "--tags", "none", "--hashes", f"{d}/{k}", *extra], capture_output=True, text=True)
                hs.append(read(f"{d}/{k}"))
        return s, r.returncode == 0 and hs[0] == hs[1] == hs[2], r.stdout.strip().splitlines()[-1:], [digest(h)[:8] for h in hs]

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for s, ok, line, hs in ex.map(one, jobs):
            bad += not ok
            say("ok  " if ok else "FAIL", s, line, *hs)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]

    def opt(name, default):
        if name in a:
            i = a.index(name)
            v = a[i + 1]
            del a[i:i + 2]
            return v
        return default

    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1") or "1"))
    budget = float(opt("--budget", os.environ.get("VERIF_BUDGET", "18" if tier == "quick" else "480")))
    try:
        if a and a[0] == "--setup":
            exes = Builder().groups(list(GROUPS))
            say(f"built {len(exes)} scenario groups")
            return 0
        if a and a[0] == "--replay":
            return replay(a[1])
        if a and a[0] == "--selftest":
            return selftest(int(a[1]) if len(a) > 1 else 100)
        if len(a) != 1 or a[0] not in CHECKS:
            say(__doc__)
            return 2
        return run_check(a[0], tier, seed, budget)
    except BuildError as e:
        say("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
