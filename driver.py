"""Builds the encoder from /repo's current source, runs the symbolic jobs of one property, replays
counterexamples natively, validates the encoding on sampled paths, and writes the evidence file."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(V, "target")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
WORKERS = 8
START = time.time()


class CheckError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            fs = []
            for d, dirs, names in os.walk(p):
                dirs[:] = [x for x in dirs if x not in ("target", ".git")]
                fs += [os.path.join(d, n) for n in names]
        else:
            fs = [p]
        for f in sorted(fs):
            if os.path.isfile(f):
                h.update(f.encode())
                with open(f, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def sh(cmd, cwd, what, timeout=800, **kw):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(**kw), timeout=timeout)
    if r.returncode != 0:
        raise CheckError("%s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


REPO_SRC = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")]


def stamped(name, deps, outs, build):
    """run build() unless the outputs were made from exactly these inputs"""
    os.makedirs(os.path.join(TARGET, "stamps"), exist_ok=True)
    st = os.path.join(TARGET, "stamps", name)
    d = digest(deps)
    if os.path.exists(st) and open(st).read() == d and all(os.path.exists(o) for o in outs):
        return False
    if os.path.exists(st):
        os.remove(st)
    build()
    for o in outs:
        if not os.path.exists(o):
            raise CheckError("build of %s produced no %s" % (name, o))
    with open(st, "w") as f:
        f.write(d)
    return True


SYMEX = os.path.join(TARGET, "engine/release/symex")


def build_engine():
    def go():
        sh(["cargo", "build", "--offline", "--release"], os.path.join(V, "engine"), "engine build",
           CARGO_TARGET_DIR=os.path.join(TARGET, "engine"))

    stamped("engine", [os.path.join(V, "engine/src"), os.path.join(V, "engine/Cargo.toml")], [SYMEX], go)


def clean_gfwx(target, profile):
    """cargo decides by time stamps; forget the crate under test whenever its content changed"""
    for prof in (profile,):
        for sub in (".fingerprint", "deps"):
            d = os.path.join(target, prof, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if "gfwx" in n:
                        p = os.path.join(d, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)


def ir_path(variant, profile):
    lib = {"serial": "gfwx_harness", "par": "gfwx_harness_par", "ada": "gfwx_harness_par", "ref": "gfwx_harness_ref"}[variant]
    return os.path.join(TARGET, "harness-" + variant, profile, "deps", lib + ".ll")


FEATURES = {"ada": ["--features", "adaptive"]}


def build_ir(variant, profile):
    # ada: the parallel build with the default feature that decides by size whether to run in parallel
    crate = {"serial": "harness", "par": "harness_par", "ada": "harness_par", "ref": "harness_ref"}[variant]
    out = ir_path(variant, profile)
    tgt = os.path.join(TARGET, "harness-" + variant)

    def go():
        clean_gfwx(tgt, profile)
        cmd = ["cargo", "rustc", "--offline", "--profile", profile, "--lib"] + FEATURES.get(variant, []) + ["--", "--emit=llvm-ir",
               "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "relocation-model=static",
               "-C", "linker=/bin/true"]
        sh(cmd, os.path.join(V, crate), "translation of the code under test to LLVM IR", CARGO_TARGET_DIR=tgt)

    deps = REPO_SRC + [os.path.join(V, "harness/src"), os.path.join(V, crate)]
    if variant in ("par", "ada"):
        build_serial()
        deps.append(os.path.join(V, "rayon_stub"))
    if variant == "ref":
        build_ref()
    stamped("ir-%s-%s" % (variant, profile), deps, [out], go)
    return out


SERIAL_DIR = os.path.join(TARGET, "serial/release")
SERIAL_IR = os.path.join(TARGET, "serial.ll")


def build_serial():
    """the single-threaded build behind a C interface, as a library and as IR whose own symbols cannot clash"""
    tgt = os.path.join(TARGET, "serial")

    def go():
        clean_gfwx(tgt, "release")
        sh(["cargo", "rustc", "--offline", "--profile", "release", "--lib", "--", "--emit=llvm-ir,link",
            "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], os.path.join(V, "serial"), "single-threaded build", CARGO_TARGET_DIR=tgt)
        txt = open(os.path.join(tgt, "release/deps/gfwx_serial.ll")).read()
        name = re.compile(r'@("[^"]+"|[A-Za-z0-9_.$]+)')
        own = set()
        for l in txt.splitlines():
            if l.startswith("define "):
                own.add(name.search(l).group(1))
            elif l.startswith("@"):
                m = name.match(l)
                if " external " not in l[m.end():m.end() + 40]:
                    own.add(m.group(1))
        own = {x for x in own if not x.startswith("serial_")}

        def ren(m):
            x = m.group(1)
            if x not in own:
                return m.group(0)
            return '@"%s.2nd"' % x[1:-1] if x[0] == '"' else "@%s.2nd" % x

        with open(SERIAL_IR, "w") as f:
            f.write(name.sub(ren, txt))

    stamped("serial", REPO_SRC + [os.path.join(V, "serial"), os.path.join(V, "harness/src/program.rs")],
            [SERIAL_IR, os.path.join(SERIAL_DIR, "libgfwx_serial.so")], go)


REF_DIR = os.path.join(TARGET, "ref")
REF_IR = os.path.join(REF_DIR, "ref.ll")


def build_ref():
    """the original C++ implementation, as IR and as a library"""
    src = os.path.join(V, "reference/ref.cpp")
    lib = os.path.join(REF_DIR, "libref.so")

    def go():
        os.makedirs(REF_DIR, exist_ok=True)
        flags = ["clang++", "-std=c++17", "-fno-exceptions", "-fno-rtti", "-fwrapv", "-fno-strict-aliasing", "-fno-vectorize", "-fno-slp-vectorize",
                 "-fno-threadsafe-statics", "-fno-stack-protector", "-w"]
        sh(flags + ["-O1", "-S", "-emit-llvm", "-g1", "-o", REF_IR, src], V, "translation of the original implementation")
        sh(flags + ["-O1", "-shared", "-fPIC", "-o", lib, src], V, "build of the original implementation")

    stamped("ref", [os.path.join(V, "reference")], [REF_IR, lib], go)


def build_replay(profile, variant="serial"):
    crate = {"serial": "replay", "par": "replay_par", "ada": "replay_par", "ref": "replay_ref"}[variant]
    tgt = os.path.join(TARGET, "replay_ada" if variant == "ada" else crate)
    out = os.path.join(tgt, profile, "replay")

    def go():
        clean_gfwx(tgt, profile)
        sh(["cargo", "build", "--offline", "--profile", profile] + FEATURES.get(variant, []), os.path.join(V, crate), "native build of the harness",
           CARGO_TARGET_DIR=tgt, SERIAL_LIB=SERIAL_DIR, REF_LIB=REF_DIR)

    deps = REPO_SRC + [os.path.join(V, "harness/src"), os.path.join(V, "replay"), os.path.join(V, crate)]
    if variant in ("par", "ada"):
        build_serial()
        deps += [os.path.join(V, "rayon_stub"), os.path.join(V, "harness_par"), os.path.join(V, "serial")]
    if variant == "ref":
        build_ref()
        deps += [os.path.join(V, "reference"), os.path.join(V, "harness_ref")]
    stamped("%s-%s" % (os.path.basename(tgt), profile), deps, [out], go)
    return out


# ---------------------------------------------------------------------------------------------------

class Job:
    def __init__(self, h, params=(), profile="release", time=120, merge=0, variant="serial", reach=(1,),
                 fuel=None, cost=1.0, extra=(), query_ms=None, note=None, partial=False):
        self.h, self.params, self.profile, self.time = h, list(params), profile, time
        self.merge, self.variant, self.reach = merge, variant, list(reach)
        self.fuel, self.cost, self.extra, self.query_ms, self.note = fuel, cost, list(extra), query_ms, note
        self.partial = partial  # a deep exploration that is expected to be cut by its time limit

    def pstr(self):
        return ",".join(str(p) for p in self.params) or "0"

    def name(self):
        return "%s(%s)%s%s" % (self.h, self.pstr(), "" if self.profile == "release" else "/" + self.profile,
                               "" if self.variant == "serial" else "/" + self.variant)


procs = set()
plock = threading.Lock()


def limit():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))


def popen(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limit, env=env())
    with plock:
        procs.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, ""
    finally:
        with plock:
            procs.discard(p)


def run_job(job, idx, workdir, deadline):
    left = deadline - time.time()
    if left < 5:
        return {"status": "not-run"}
    t = min(job.time, left)
    out = os.path.join(workdir, "job%d.json" % idx)
    cmd = [SYMEX, "--ir", ir_path(job.variant, job.profile)]
    if job.variant in ("par", "ada"):
        cmd += ["--ir", SERIAL_IR]
    if job.variant == "ref":
        cmd += ["--ir", REF_IR]
    cmd += ["--harness", job.h, "--params", job.pstr(), "--out", out, "--time", str(int(t)), "--merge", str(job.merge)]
    if job.fuel:
        cmd += ["--fuel", str(job.fuel)]
    if job.query_ms:
        cmd += ["--query-ms", str(job.query_ms)]
    cmd += job.extra
    rc, txt = popen(cmd, t + 60)
    if rc is None:
        return {"status": "killed", "errors": ["no answer within the time limit"]}
    if rc != 0 or not os.path.exists(out):
        return {"status": "crash", "errors": ["executor ended with %s: %s" % (rc, txt[-600:])]}
    with open(out) as f:
        return json.load(f)


def parse_outcome(txt):
    for l in txt.splitlines():
        if l.startswith("OUTCOME "):
            a = [x.strip() for x in l[8:].split("|")]
            k, _, d = a[0].partition(" ")
            obs = [int(x) for x in a[1].split(",") if x] if len(a) > 1 else []
            return k, d, obs
    return None, txt[-300:], []


def native(job, inputs, timeout=60, valgrind=False):
    exe = build_replay(job.profile, job.variant)
    args = [exe, "run", job.h, job.pstr(), ",".join(str(x) for x in inputs) or "-"]
    if valgrind:
        args = ["valgrind", "-q", "--error-exitcode=99"] + args
    rc, txt = popen(args, timeout)
    return rc, txt


def replay(job, v):
    """does the counterexample reproduce against the natively compiled code?"""
    kind = v["kind"]
    if kind == "memory" and "data race" in v["msg"]:
        return True, "two parallel tasks touch the same byte (found on the real code's own iteration space; see the replay file)"
    rc, txt = native(job, v["inputs"])
    if rc is None:
        return (kind == "hang"), "native run did not finish within 60 s"
    k, d, _ = parse_outcome(txt)
    if k in ("check", "panic"):
        return True, "native %s run: %s %s" % (job.profile, k, d)
    if k is None:
        return True, "native %s run died (exit %s): %s" % (job.profile, rc, txt.strip()[-200:])
    if kind == "memory":
        rc, txt = native(job, v["inputs"], timeout=300, valgrind=True)
        if rc == 99 or "Invalid read" in txt or "Invalid write" in txt:
            i = txt.find("Invalid")
            return True, "valgrind: " + " ".join(txt[i:i + 300].split())
    return False, "native %s run: %s %s" % (job.profile, k, d)


def known_findings(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def matches(k, job, v):
    if k["harness"] != job.h or k["kind"] != v["kind"]:
        return False
    if "id" in k and k["id"] != v["id"]:
        return False
    if "params" in k and k["params"] != job.params:
        return False
    if "function" in k and not any(k["function"] in s for s in v["stack"][:k.get("depth", 4)]):
        return False
    if "inputs" in k and k["inputs"] != v["inputs"]:
        return False
    if "msg" in k and k["msg"] not in v["msg"]:
        return False
    return True


def run_property(pid, meta, jobs, tier, seed, budget):
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_engine()
    for variant, profile in sorted({(j.variant, j.profile) for j in jobs}):
        build_ir(variant, profile)
        build_replay(profile, variant)
    fcntl.flock(lock, fcntl.LOCK_UN)
    t_build = time.time() - t0

    workdir = os.path.join(TARGET, "work-%s-%d" % (pid, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    deadline = START + budget
    results = [None] * len(jobs)
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].cost)
    stop = threading.Event()
    found = []

    def work(i):
        if stop.is_set():
            return
        r = run_job(jobs[i], i, workdir, deadline)
        results[i] = r
        if any(True for _ in r.get("violations", [])):
            ks = known_findings(pid)
            if any(not any(matches(k, jobs[i], v) for k in ks) for v in r["violations"]):
                found.append(i)
                # one unlisted counterexample settles the run
                stop.set()
                with plock:
                    for p in list(procs):
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(work, order))

    # ---- counterexamples ----
    ks = known_findings(pid)
    known_hit, violations, unreproduced = {}, [], []
    for i, r in enumerate(results):
        for v in (r or {}).get("violations", []):
            k = next((k for k in ks if matches(k, jobs[i], v)), None)
            if k is not None:
                known_hit.setdefault(k["what"], (jobs[i], v))
                continue
            ok, how = replay(jobs[i], v)
            if ok:
                violations.append((jobs[i], v, how))
            else:
                unreproduced.append((jobs[i], v, how))

    # ---- encoding validation: sampled paths of the executor against the native build ----
    validated, mismatches, samples = 0, [], []
    groups = {}
    if not violations:
        for i, r in enumerate(results):
            for tr in (r or {}).get("traces", []):
                groups.setdefault((jobs[i].profile, jobs[i].variant), []).append((jobs[i], tr))
        for (profile, variant), items in groups.items():
            items = items[:1500]
            exe = build_replay(profile, variant)
            chunks = [items[k::WORKERS] for k in range(WORKERS)]

            def val(c):
                if not c[1]:
                    return []
                f = os.path.join(workdir, "batch-%s-%s-%d" % (profile, variant, c[0]))
                with open(f, "w") as fh:
                    for j, tr in c[1]:
                        fh.write("%s %s %s\n" % (j.h, j.pstr(), ",".join(str(x) for x in tr[0]) or "-"))
                rc, txt = popen([exe, "batch", f], 240)
                return [parse_outcome(l) for l in txt.splitlines() if l.startswith("OUTCOME")] if rc == 0 else []

            with cf.ThreadPoolExecutor(WORKERS) as ex:
                outs = list(ex.map(val, enumerate(chunks)))
            for c, o in zip(chunks, outs):
                for (j, tr), (k, d, obs) in zip(c, o):
                    if k == "ok" and obs == tr[1]:
                        validated += 1
                    elif k == "ok" or k in ("check", "panic"):
                        mismatches.append((j.name(), tr[0], "%s %s" % (k, d), obs[:20], tr[1][:20]))
    for i, r in enumerate(results):
        if r and r.get("traces") and len(samples) < 12:
            tr = r["traces"][-1]
            samples.append({"job": jobs[i].name(), "path_inputs": tr[0][:24], "predicted_observations": tr[1][:24]})

    # ---- evidence ----
    tot = {k: 0 for k in ("paths", "forks", "merges", "ifconv", "steps", "queries", "sat", "unsat", "unknown", "solver_s",
                          "domain_unsat", "domain_sat", "cache_hits", "panics_allowed", "infeasible", "sym_ops")}
    funcs, lines, asserts = set(), set(), {}
    per, complete, incomplete, errors, vacuous = [], [], [], [], []
    mx = 0.0
    for i, r in enumerate(results):
        j = jobs[i]
        if r is None:
            continue
        st = r.get("status")
        for k in tot:
            tot[k] += r.get(k, 0)
        mx = max(mx, r.get("max_query_s", 0))
        funcs.update(f for f in r.get("functions", []) if "/repo/" in f or "ref.cpp" in f or "gfwx.hpp" in f)
        lines.update(l for l in r.get("lines", []) if "/repo/" in l)
        for k, (a, b) in r.get("checks", {}).items():
            x = asserts.setdefault(j.h + "#" + k, [0, 0])
            x[0] += a
            x[1] += b
        per.append({"job": j.name(), "status": st, "paths": r.get("paths"), "queries": r.get("queries"),
                    "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s")})
        if st == "complete":
            if not r.get("violations"):
                miss = [x for x in j.reach if str(x) not in r.get("reached", {})]
                if miss:
                    vacuous.append("%s never reaches witness %s" % (j.name(), miss))
            complete.append(j.name())
        elif st == "incomplete" or st in ("not-run", "killed"):
            incomplete.append(j.name() + ": " + st)
        else:
            errors.append(j.name() + ": " + "; ".join(r.get("errors", [])[:2]))
    cov = {
        "states": tot["paths"] + tot["forks"] + tot["merges"],
        "transitions": tot["steps"],
        "traces_validated_against_impl": validated,
        "samples": samples,
        "paths_completed": tot["paths"],
        "jobs": len(jobs), "jobs_complete": len(complete), "jobs_incomplete": incomplete[:60], "jobs_error": errors[:30],
        "smt_queries": tot["queries"], "smt_unsat": tot["unsat"], "smt_sat": tot["sat"], "smt_unknown": tot["unknown"],
        "smt_seconds": round(tot["solver_s"], 2), "smt_longest_query_s": mx,
        "branches_decided_by_domain_propagation": tot["domain_unsat"] + tot["domain_sat"],
        "if_conversions": tot["ifconv"], "merges": tot["merges"],
        "paths_cut_by_assumptions": tot["infeasible"], "panics_outside_the_property": tot["panics_allowed"],
        "assertions": {k: {"evaluated": a, "symbolic_sent_to_smt": b, "decided_by_rewriting": a - b} for k, (a, b) in sorted(asserts.items())},
        "functions_encoded": sorted(f.replace("/repo/", "") for f in funcs)[:200],
        "source_lines_executed": len(lines),
        "bounds": meta.get("bounds", ""), "outside_the_bounds": meta.get("outside", ""),
        "build_s": round(t_build, 1), "slowest_jobs": sorted(per, key=lambda x: -(x["wall_s"] or 0))[:8],
        "encoding_mismatches": mismatches[:5],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(workdir, ignore_errors=True)

    # ---- verdict ----
    print("%s: %d jobs (%d complete, %d cut, %d errors), %d paths, %d instructions, %d SMT queries (%.1f s), %d paths validated natively, %.1f s"
          % (pid, len(jobs), len(complete), len(incomplete), len(errors), tot["paths"], tot["steps"], tot["queries"],
             tot["solver_s"], validated, time.time() - t0))
    for what, (j, v) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s [%s inputs=%s]" % (pid, what, j.name(), v["inputs"][:16]))
    for x in incomplete[:10]:
        print("INCOMPLETE", x)
    for x in errors[:10]:
        print("ERROR", x)
    if violations:
        d = os.path.join(TARGET, "replay")
        os.makedirs(d, exist_ok=True)
        for n, (j, v, how) in enumerate(violations[:5]):
            f = os.path.join(d, "%s-%d.json" % (pid, n))
            with open(f, "w") as fh:
                json.dump({"property": pid, "harness": j.h, "params": j.params, "profile": j.profile, "variant": j.variant,
                           "kind": v["kind"], "check": v["id"], "message": v["msg"], "stack": v["stack"], "inputs": v["inputs"],
                           "native": how,
                           "rerun": "%s run %s %s %s" % (os.path.join(TARGET, {"serial": "replay", "par": "replay_par", "ada": "replay_ada", "ref": "replay_ref"}[j.variant], j.profile, "replay"), j.h, j.pstr(),
                                                         ",".join(map(str, v["inputs"])) or "-")}, fh, indent=1)
            print("%s: %s %s at %s; %s" % (j.name(), v["kind"], v["msg"], " < ".join(v["stack"][:3]), how))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    for j, v, how in unreproduced[:5]:
        print("UNREPRODUCED %s: %s %s at %s inputs=%s; %s" % (j.name(), v["kind"], v["msg"], " < ".join(v["stack"][:3]), v["inputs"][:40], how))
    if unreproduced:
        return 2
    if mismatches:
        for m in mismatches[:5]:
            print("ENCODING MISMATCH", m)
        return 2
    for x in vacuous[:5]:
        print("VACUOUS", x)
    if vacuous or not complete:
        return 2
    bad = {j.h for j, r in zip(jobs, results) if r and r.get("status") in ("error", "crash")}
    good = {j.h for j, r in zip(jobs, results) if r and r.get("status") == "complete"}
    if bad - good:
        return 2
    return 0
