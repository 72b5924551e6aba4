"""Driver of the symbolic checks: compiles /repo's current sources to LLVM IR, runs symx on the harnesses, replays
counterexamples natively and writes the evidence file."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin"
JOBS = int(os.environ.get("SX_JOBS", str(min(8, os.cpu_count() or 4))))
UBS = "signed-integer-overflow,shift,integer-divide-by-zero,return"


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


class CheckError(Exception):
    pass


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-C", os.path.join(VERIF, "symx")])
        if r.returncode:
            raise CheckError("building symx failed:\n" + r.stderr.decode()[-3000:])


def gen_headers(out):
    """The three headers that cmake generates from /repo's templates."""
    ver = "1.2.0"
    try:
        m = re.search(r"project\s*\(\s*libcwd\s+VERSION\s+([0-9.]+)", open(REPO + "/CMakeLists.txt").read(), re.I)
        if m:
            ver = m.group(1)
    except OSError:
        pass
    vp = (ver.split(".") + ["0", "0", "0"])[:3]
    V = {"CW_CONFIG_GLIBCXX_DEBUG": "0", "CW_CONFIG_LOCATION": "1", "CW_CONFIG_DEBUG": "0", "CW_CONFIG_DEBUGOUTPUT": "0",
         "CW_CONFIG_DEBUGT": "0", "CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET": "-1", "libcwd_datadir": "/usr/local/share",
         "VERSION_MAJOR": vp[0], "VERSION_MINOR": vp[1], "VERSION_REVISION": vp[2], "HAVE_BUILTIN_EXPECT": "1"}
    DEF = {"HAVE_PWD_H", "HAVE_SYS_RESOURCE_H", "HAVE_DLOPEN", "HAVE__RTLD_GLOBAL", "HAVE_GETEGID", "HAVE_GETGROUPS", "HAVE_GETGID"}
    def conv(src, dst):
        t = open(src).read()
        def cd(m):
            ind, name, rest = m.group(1), m.group(2), m.group(3) or ""
            if name in DEF or (name in V and V[name] not in ("",)):
                return "#" + ind + "define " + name + rest
            return "/* #undef %s */" % name
        t = re.sub(r"#([ \t]*)cmakedefine01[ \t]+(\w+)", lambda m: "#%sdefine %s %d" % (m.group(1), m.group(2), 1 if m.group(2) in DEF or V.get(m.group(2)) == "1" else 0), t)
        t = re.sub(r"#([ \t]*)cmakedefine[ \t]+(\w+)([^\n]*)?", cd, t)
        t = re.sub(r"@(\w+)@", lambda m: V.get(m.group(1), ""), t)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w").write(t)
    conv(REPO + "/include/cmake-config.h.in", out + "/config.h")
    conv(REPO + "/include/libcwd/config.h.in", out + "/libcwd/config.h")
    conv(REPO + "/include/cwd_sys.h.in", out + "/cwd_sys.h")


class Builder:
    def __init__(self, work):
        self.work = work
        self.inc = work + "/inc"
        gen_headers(self.inc)
        self.pool = cf.ThreadPoolExecutor(max_workers=JOBS)
        self.futs = {}
        self.cache = os.path.join(BUILD, "cache") if os.environ.get("SX_CACHE") else None
        if self.cache:
            os.makedirs(self.cache, exist_ok=True)

    def flags(self, native):
        f = ["-std=c++20", "-DCWDEBUG", '-DVERSION="1.2"', "-pthread"]
        if not native:
            f += ["-isystem", VERIF + "/stubs/cxx"]
        f += ["-I" + VERIF + "/stubs", "-I" + VERIF + "/model", "-I" + self.inc, "-I" + REPO + "/include", "-I" + REPO, "-w"]
        return f

    def compile(self, src, mode, extra=()):
        """mode: ir, irmodel, native (ASan), plain (valgrind)"""
        key = (src, mode, tuple(extra))
        if key not in self.futs:
            self.futs[key] = self.pool.submit(self._compile, src, mode, list(extra))
        return self.futs[key]

    def _compile(self, src, mode, extra):
        h = hashlib.sha1(repr((src, mode, extra)).encode()).hexdigest()[:10]
        out = "%s/%s.%s.%s" % (self.work, os.path.basename(src), h, "o" if mode in ("native", "plain", "tsan") else "bc")
        isc = src.endswith(".c")
        cc = ["clang"] if isc else ["clang++"]
        if mode in ("ir", "irmodel"):
            f = ["-O1", "-gline-tables-only", "-Xclang", "-disable-llvm-passes", "-fno-threadsafe-statics"]
            if isc:
                f += ["-fno-builtin"]
            else:
                f += self.flags(False)
                if mode == "irmodel":
                    f += ["-fno-access-control"]
                else:
                    f += ["-fsanitize=" + UBS, "-fsanitize-trap=all"]
            tail = ["-emit-llvm"]
        else:
            f = ["-O1", "-g1", "-fno-omit-frame-pointer"] + self.flags(True)
            if mode == "tsan":
                f += ["-fsanitize=thread"]
            if "@atomic" in extra:
                f += ["-fpass-plugin=" + BUILD + "/sxatomic.so"]
            if mode == "native":
                f += ["-fsanitize=address," + UBS, "-fno-sanitize-recover=all"]
            tail = []
        atomic = "@atomic" in extra
        cmd = cc + f + [x for x in extra if x != "@atomic"]
        if self.cache:
            r = sh(cmd + ["-E", src])
            if r.returncode == 0:
                k = hashlib.sha1(repr((cmd, atomic)).replace(self.work, "").encode() + r.stdout.replace(self.work.encode(), b"")).hexdigest()
                cf_ = self.cache + "/" + k
                if os.path.exists(cf_):
                    shutil.copy(cf_, out)
                    return out
        r = sh(cmd + tail + ["-c", src, "-o", out])
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stderr.decode()[:1500]))
        if atomic and mode == "ir":
            r = sh([LLVM + "/opt", "-load-pass-plugin=" + BUILD + "/sxatomic.so", "-passes=sx-atomic", out, "-o", out + ".t"])
            if r.returncode:
                raise CheckError("opt failed: " + r.stderr.decode()[-1500:])
            os.rename(out + ".t", out)
        if self.cache:
            shutil.copy(out, cf_ + ".tmp%d" % os.getpid())
            os.rename(cf_ + ".tmp%d" % os.getpid(), cf_)
        return out


def src_of(tu):
    return "%s/src/%s.cxx" % (REPO, tu)


class Unit:
    """One harness compiled with one set of definitions, against some translation units of /repo."""
    def __init__(self, b, harness, tus, defs, hflags=(), atomics=False):
        self.b, self.harness, self.tus, self.defs, self.hflags = b, harness, tus, list(defs), list(hflags)
        self.x = ["@atomic"] if atomics else []
        self.hsrc = "%s/harness/%s.cxx" % (VERIF, harness)
        h = hashlib.sha1(repr((harness, tus, defs, atomics)).encode()).hexdigest()[:8]
        self.name = harness + "-" + h
        self.lf = b.pool  # links run in this thread
        self.bcs = [b.compile(self.hsrc, "ir", self.defs + self.hflags + self.x)] + [b.compile(src_of(t), "ir", self.x) for t in tus] + \
                   [b.compile(VERIF + "/model/stdcxx.cxx", "irmodel"), b.compile(VERIF + "/model/libc.c", "irmodel")]
        self.nat = {}

    def start_native(self, mode):
        return [self.b.compile(self.hsrc, mode, self.defs + self.hflags + self.x)] + [self.b.compile(src_of(t), mode, self.x) for t in self.tus], \
            self.b.compile(VERIF + "/model/native.cxx", "plain" if mode == "tsan" else mode)

    def link_ir(self, entries):
        out = "%s/%s.bc" % (self.b.work, self.name)
        files = [f.result() for f in self.bcs]
        r = sh([LLVM + "/llvm-link", "-o", out + ".0"] + files[:-2] + ["--override=" + f for f in ()] + files[-2:])
        if r.returncode:
            raise CheckError("llvm-link failed: " + r.stderr.decode()[-2000:])
        nm = sh([LLVM + "/llvm-nm", "--defined-only", "--format=just-symbols", out + ".0"]).stdout.decode().split()
        keep = [n for n in nm if n.startswith("stub_") or n in entries]
        missing = [e for e in entries if e not in nm]
        if missing:
            raise CheckError("no entry " + ",".join(missing))
        r = sh([LLVM + "/opt", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify)",
                "--internalize-public-api-list=" + ",".join(keep), out + ".0", "-o", out])
        if r.returncode:
            raise CheckError("opt failed: " + r.stderr.decode()[-2000:])
        os.remove(out + ".0")
        return out

    def link_native(self, mode):
        if mode in self.nat:
            return self.nat[mode]
        objs, rt = self.start_native(mode)
        objs = [o.result() for o in objs]
        rt = rt.result()
        nm = sh(["nm", "--defined-only", objs[0]]).stdout.decode().split("\n")
        stubs = [l.split()[-1] for l in nm if " T stub_" in l]
        redef = []
        for s in stubs:
            redef += ["--redefine-sym", "%s=%s" % (s[5:], s)]
        for s in ("lock", "trylock", "unlock"):
            redef += ["--redefine-sym", "pthread_mutex_%s=sx_pthread_mutex_%s" % (s, s)]
        for s in ("exit", "_exit"):
            if "stub_" + s not in stubs:
                redef += ["--redefine-sym", s + "=sx_native_" + s]
        mine = []
        for o in objs:
            n = o + "." + self.name + ".o"
            r = sh(["objcopy"] + redef + [o, n])
            if r.returncode:
                raise CheckError("objcopy: " + r.stderr.decode())
            mine.append(n)
        out = "%s/%s.%s" % (self.b.work, self.name, mode)
        cmd = ["clang++", "-pthread", "-rdynamic", "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,muldefs", "-Wl,-z,lazy"] + \
              (["-fsanitize=address," + UBS] if mode == "native" else ["-fsanitize=thread"] if mode == "tsan" else []) + mine + [rt, "-o", out, "-ldl"] + (["-ldw", "-lelf"] if "dwarf" in self.tus else [])
        r = sh(cmd)
        if r.returncode:
            raise CheckError("native link failed: " + r.stderr.decode()[-2000:])
        self.nat[mode] = out
        return out


NENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=0:alloc_dealloc_mismatch=1:allocator_may_return_null=1",
        "TSAN_OPTIONS": "exitcode=66:halt_on_error=1", "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98", "PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent"}


def run_native(exe, entry, inputs, obs, cwd, valgrind=False, timeout=30):
    cmd = [exe, entry, inputs] + ([obs] if obs else [])
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=79", "--track-origins=no"] + cmd
    try:
        r = sh(cmd, timeout=timeout, env=NENV, cwd=cwd, stdin=subprocess.DEVNULL)
        return r.returncode, (r.stdout + r.stderr).decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""


def load_known():
    out = []
    p = VERIF + "/known-findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l[0] == "{":
                out.append(json.loads(l))
    return out


def match_known(k, pid, entry, e):
    if k.get("property") != pid or "match" not in k:
        return False
    m = k["match"]
    if "entry" in m and not re.fullmatch(m["entry"], entry):
        return False
    for f in ("kind", "msg", "where"):
        if f in m and not re.search(m[f], e[f]):
            return False
    if "stack" in m and not any(re.search(m["stack"], s) for s in e["stack"]):
        return False
    if "inputs" in m and not re.search(m["inputs"], e["inputs"]):
        return False
    return True


def merge(outdir):
    tot = {}
    errs, samples, fns = {}, [], {}
    for f in sorted(glob.glob(outdir + "/r*.json")):
        j = json.load(open(f))
        for k, v in j.items():
            if k in ("errors", "samples", "functions"):
                continue
            if isinstance(v, dict):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif k == "wall_s":
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        for e in j["errors"]:
            key = (e["kind"], e["msg"], e["where"])
            if key in errs:
                errs[key]["count"] += e["count"]
            else:
                errs[key] = e
        samples += j["samples"]
        for n, (file, c, t) in j["functions"].items():
            o = fns.get(n)
            fns[n] = [file, max(c, o[1]) if o else c, t]
    return tot, list(errs.values()), samples, fns


class Run:
    def __init__(self, harness, entry, tus=(), defs=(), time=120, bounds="", covers=(), opts=(), max_instr=20000000, samples=12, weight=1, hflags=(), atomics=False):
        self.__dict__.update(locals())


def demangle_names(names):
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return r.stdout.decode().split("\n")


def check(pid, prop, tier, verbose=False):
    t0 = time.time()
    build_engine()
    runs = prop["quick"] if tier != "thorough" else prop.get("thorough", prop["quick"])
    budget = prop.get("budget", {}).get(tier, 600 if tier == "quick" else 3600)
    os.makedirs(BUILD + "/work", exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=BUILD + "/work")
    rdir = BUILD + "/replay/" + pid
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    known = load_known()
    ev = {"paths": 0, "instructions": 0, "queries": 0, "z3_calls": 0, "byte_domain": 0, "solver_s": 0.0, "asserts": 0, "incomplete": 0, "forks": 0}
    per, violations, knownhits, unrepro, samples_out, funcs, notes = [], [], [], [], [], {}, []
    validated = mismatched = nrun = 0
    err = None
    try:
        b = Builder(work)
        units = {}
        for r in runs:
            k = (r.harness, tuple(r.tus), tuple(r.defs), r.atomics)
            if k not in units:
                units[k] = [Unit(b, r.harness, list(r.tus), list(r.defs), r.hflags, r.atomics), []]
            units[k][1].append(r.entry)
        for u, _ in units.values():
            u.start_native("native")
        for k, (u, entries) in units.items():
            bc = u.link_ir(sorted(set(entries)))
            exe = u.link_native("native")
            for r in [x for x in runs if (x.harness, tuple(x.tus), tuple(x.defs), x.atomics) == k]:
                nrun += 1
                od = "%s/out-%d" % (work, nrun)
                os.makedirs(od)
                left = budget - (time.time() - t0)
                tl = max(5, min(r.time, left))
                cmd = [BUILD + "/symx", "--entry", r.entry, "--out", od, "--time", "%.0f" % tl, "--jobs", str(JOBS), "--max-instr", str(r.max_instr)] + list(r.opts) + [bc]
                p = sh(cmd, timeout=tl + 120)
                if p.returncode:
                    raise CheckError("symx failed (%d) on %s: %s" % (p.returncode, r.entry, p.stderr.decode()[-2000:]))
                tot, errs, samples, fns = merge(od)
                worker_failed = os.path.exists(od + "/worker_failed")
                shutil.rmtree(od)
                for a in ev:
                    ev[a] += tot.get(a, 0)
                for n, v in fns.items():
                    o = funcs.get(n)
                    funcs[n] = [v[0], max(v[1], o[1]) if o else v[1], v[2]]
                missing = [c for c in r.covers if not tot.get("covers", {}).get(c)]
                per.append({"harness": r.harness, "entry": r.entry, "defs": list(r.defs), "atomics_are_scheduling_points": r.atomics, "bounds": r.bounds, "paths": tot.get("paths", 0),
                            "instructions": tot.get("instructions", 0), "queries": tot.get("queries", 0), "z3_calls": tot.get("z3_calls", 0),
                            "solver_s": round(tot.get("solver_s", 0), 3), "assertions_evaluated": tot.get("asserts", 0), "wall_s": tot.get("wall_s", 0),
                            "complete": tot.get("incomplete", 0) == 0 and not worker_failed, "incomplete_paths": tot.get("incomplete", 0),
                            "incomplete_why": dict(sorted(tot.get("incomplete_why", {}).items(), key=lambda x: -x[1])[:8]),
                            "covers": tot.get("covers", {}), "ends": tot.get("ends", {}),
                            "errors": [[e["kind"], e["msg"], e["where"], e["count"]] for e in errs]})
                if verbose:
                    print(json.dumps(per[-1], indent=1))
                # errors
                for i, e in enumerate(errs):
                    if e["kind"] == "unsupported":
                        continue
                    d = "%s/err-%d-%d" % (work, nrun, i)
                    os.makedirs(d)
                    open(d + "/inputs", "w").write(e["inputs"])
                    vg = e["kind"] == "uninit"
                    x = u.link_native("plain") if vg else u.link_native("tsan") if e["kind"] == "race" else exe
                    rc, log = run_native(x, r.entry, d + "/inputs", None, d, valgrind=vg, timeout=120 if vg else 40)
                    ok = rc not in (0, 78, 70)
                    if e["kind"] == "race":
                        ok = "ThreadSanitizer: data race" in log
                    if rc == "timeout":
                        ok = e["kind"] in ("nontermination", "deadlock")
                    if e["kind"] == "nontermination" and rc != "timeout":
                        ok = ok and rc != 78
                    rec = {"entry": r.entry, "kind": e["kind"], "msg": e["msg"], "where": e["where"], "stack": e["stack"][:12], "inputs": e["inputs"],
                           "notes": e["notes"], "native_exit": rc, "native_log": log[-1500:], "paths": e["count"]}
                    if not ok:
                        unrepro.append(rec)
                        continue
                    kf = [q for q in known if match_known(q, pid, r.entry, e)]
                    if kf:
                        knownhits.append((kf[0], rec))
                        continue
                    violations.append((u, x, vg, rec))
                # Compare sampled paths with the native build.
                seen, picked = set(), []
                for s in samples:
                    covs = tuple(l for l in s["obs"].split("\n") if l.endswith(" "))
                    picked.append((covs in seen, s))
                    seen.add(covs)
                picked.sort(key=lambda q: q[0])
                jobs = []
                for i, (_, s) in enumerate(picked[:r.samples]):
                    f = "%s/s-%d-%d" % (work, nrun, i)
                    open(f, "w").write(s["inputs"])
                    jobs.append((s, f, b.pool.submit(run_native, exe, r.entry, f, f + ".obs", work)))
                for s, f, fu in jobs:
                    rc, log = fu.result()
                    got = open(f + ".obs").read() if os.path.exists(f + ".obs") else ""
                    if rc == 0 and got == s["obs"]:
                        validated += 1
                        if len(samples_out) < 6:
                            samples_out.append({"entry": r.entry, "inputs": s["inputs"][:600], "observed": s["obs"][:600]})
                    else:
                        mismatched += 1
                        notes.append({"native_mismatch": r.entry, "inputs": s["inputs"][:800], "symbolic": s["obs"][:800], "native_exit": rc, "native": got[:800], "log": log[-800:]})
                if missing:
                    notes.append({"not_reached": missing, "entry": r.entry})
                    if not violations:
                        err = "vacuous: %s does not reach %s" % (r.entry, ", ".join(missing))
                if worker_failed:
                    err = err or "a symx worker process failed in " + r.entry
    except CheckError as e:
        err = str(e)
    except subprocess.TimeoutExpired as e:
        err = "timeout: " + str(e.cmd)[:200]
    # Report
    lines = []
    for n, (u, x, vg, rec) in enumerate(violations):
        d = "%s/%d" % (rdir, n)
        os.makedirs(d)
        shutil.copy(x, d + "/replay.bin")
        open(d + "/inputs", "w").write(rec["inputs"])
        json.dump(rec, open(d + "/report.json", "w"), indent=1)
        envs = " ".join("%s=%s" % kv for kv in NENV.items() if kv[0] in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"))
        open(d + "/replay.sh", "w").write("#!/bin/sh\n# %s: %s\n# at %s\ncd \"$(dirname \"$0\")\"\nexec env %s %s./replay.bin %s inputs\n" %
                                          (rec["kind"], rec["msg"], rec["where"], envs, "valgrind -q --error-exitcode=79 " if vg else "", rec["entry"]))
        os.chmod(d + "/replay.sh", 0o755)
        lines.append("VIOLATION property=%s replay=%s" % (pid, d))
        lines.append("  %s in %s: %s (at %s; native exit %s)" % (rec["kind"], rec["entry"], rec["msg"], rec["where"], rec["native_exit"]))
        lines.append("  inputs: " + rec["inputs"].strip().replace("\n", "; ")[:600])
    seen = set()
    for k, rec in knownhits:
        if k["what"] not in seen:
            seen.add(k["what"])
            lines.insert(0, "KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    repofns = {n: v for n, v in funcs.items() if v[0].startswith(REPO)}
    dn = demangle_names(list(repofns)) if repofns else []
    complete = bool(per) and all(p["complete"] for p in per)
    cov = {"states": ev["paths"], "transitions": ev["forks"], "traces_validated_against_impl": validated,
           "samples": samples_out or [{"entry": p["entry"], "ends": p["ends"]} for p in per[:2]],
           "exhaustive": complete and not mismatched,
           "meaning": "states: completed symbolic paths (each stands for every input that follows it); transitions: two-way forks decided by the solver; "
                      "traces_validated_against_impl: sampled paths whose native run under the path's model gave the identical observations",
           "queries": ev["queries"], "z3_calls": ev["z3_calls"], "byte_domain_decisions": ev["byte_domain"], "solver_s": round(ev["solver_s"], 2), "ir_instructions": ev["instructions"],
           "assertions_evaluated": ev["asserts"], "incomplete_paths": ev["incomplete"], "native_mismatches": mismatched,
           "bounds": [p["entry"] + ": " + p["bounds"] for p in per], "runs": per,
           "functions_encoded": [{"function": d, "file": os.path.relpath(v[0], REPO), "blocks_reached": v[1], "blocks": v[2]}
                                 for d, (n, v) in sorted(zip(dn, repofns.items()))][:400],
           "library_functions_encoded": len(funcs) - len(repofns),
           "unreproduced_counterexamples": unrepro, "notes": notes}
    if err:
        cov["error"] = err[:2000]
    json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
               "level": prop.get("level", "model_checking"), "coverage": cov, "assumptions": prop.get("assumptions", []) + COMMON_ASSUMPTIONS,
               "wall_s": round(time.time() - t0, 2), "violations": len(violations)},
              open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)
    if not os.environ.get("SX_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    for l in lines:
        print(l)
    for u in unrepro:
        print("note: counterexample not reproduced natively: %s %s at %s (native exit %s)" % (u["kind"], u["msg"], u["where"], u["native_exit"]))
    print("%s %s: %d paths, %d queries, %.1f s solver, %d native traces agree, %d differ, %s, %.1f s" %
          (pid, tier, ev["paths"], ev["queries"], ev["solver_s"], validated, mismatched, "complete" if complete else "INCOMPLETE", time.time() - t0))
    if violations:
        return 1
    if err:
        print("ERROR: " + err)
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "clang 18's translation of the sources to LLVM IR (at -O0 followed by sroa, early-cse, simplifycfg, instsimplify) preserves their meaning; the symbolic executor symx implements that IR (spot-checked on every run against native traces)",
    "the C and C++ run-time models in model/libc.c, model/stdcxx.cxx and symx/builtins.inc stand in for libc and libstdc++.so; operator new and malloc never fail",
    "the missing submodule threadsafe is represented by stubs/threadsafe",
]
