#!/usr/bin/env python3
"""Build and run the symbolic checks.  usage: driver.py PROPERTY [--tier quick|thorough] | --setup | --all"""
import concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, time, glob, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TS_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
BLD = os.environ.get("TS_BUILD", os.path.join(VERIF, "build"))
EVD = os.environ.get("TS_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, HAR)

DEFS = ["-DTEMPEST_MPIOMP", "-DTEMPEST_NETCDF", "-DTEMPEST_LAPACK_FORTRAN_INTERFACE"]
INC = ["-I" + ENG + "/stubs", "-I" + ENG, "-I" + HAR, "-I" + REPO + "/src/base", "-I" + REPO + "/src/atm"]
SYMFLAGS = ["-O1", "-std=c++11", "-mllvm", "-enable-global-analyses=0", "-ffp-contract=off",
            "-include", ENG + "/noextern.h", "-include", ENG + "/stubs/vfs.h", "-w"]
NATFLAGS = ["-O2", "-std=c++11", "-w"]
CLANG, GXX = "clang++-18", "g++"
WRAPS = ["dgesv_", "dgbsv_", "dgtsv_", "dgetrf_", "dgetri_", "dgetrs_", "dgbtrf_", "dgbtrs_", "dgemm_",
         "dgeqrf_", "dorgqr_", "dgesvd_", "dtpsv_", "dtrtri_", "daxpy_", "dcopy_", "ddot_", "dscal_", "dswap_", "dnrm2_"]


class Err(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise Err("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def hfile(*fs):
    h = hashlib.sha256()
    for f in fs:
        with open(f, "rb") as g:
            h.update(os.path.basename(f).encode()); h.update(g.read())
    return h.hexdigest()[:16]


def cached(target, key, mk):
    """rebuild target unless its key file says it is current"""
    kf = target + ".key"
    if os.path.exists(target) and os.path.exists(kf) and open(kf).read() == key:
        return target
    tmp = target + ".tmp%d" % os.getpid()
    mk(tmp)
    os.replace(tmp, target)
    with open(kf, "w") as f:
        f.write(key)
    return target


class Build:
    def __init__(self):
        os.makedirs(BLD + "/sym", exist_ok=True)
        os.makedirs(BLD + "/nat", exist_ok=True)
        self.t0 = time.time()
        self.libs = {}
        self.compiled = 0

    def tool(self, ex):
        so, rt, ep = BLD + "/tsym.so", BLD + "/runtime.o", BLD + "/expr.o"
        def mkpass(t):
            cpp = subprocess.check_output(["llvm-config-18", "--cppflags"]).decode().split()
            sh([CLANG, "-O1", "-fPIC", "-shared", "-std=c++17", "-fno-rtti"] + cpp + [ENG + "/pass.cpp", "-o", t])
        def mko(src):
            return lambda t: sh([GXX, "-O2", "-std=gnu++17", "-include", ENG + "/noextern.h", "-c", ENG + "/" + src, "-I" + ENG, "-o", t])
        js = [ex.submit(cached, so, hfile(ENG + "/pass.cpp"), mkpass),
              ex.submit(cached, rt, hfile(ENG + "/noextern.h", ENG + "/runtime.cpp", ENG + "/expr.h", ENG + "/tsym.h"), mko("runtime.cpp")),
              ex.submit(cached, ep, hfile(ENG + "/noextern.h", ENG + "/expr.cpp", ENG + "/expr.h"), mko("expr.cpp"))]
        for j in js:
            j.result()
        # one relocatable object whose (template) symbols stay private: the runtime must not share
        # inline library code with the instrumented program
        def mkrt(t):
            sh(["ld", "-r", "--force-group-allocation", rt, ep, "-o", t + ".r"])
            sh(["objcopy", "--wildcard", "--keep-global-symbol=__ts_*", "--keep-global-symbol=main", t + ".r", t])
            os.unlink(t + ".r")
        cached(BLD + "/rt.o", hfile(rt, ep), mkrt)
        self.passkey = hfile(ENG + "/pass.cpp", ENG + "/noextern.h")

    def headers_key(self, dirs):
        hs = []
        for d in dirs:
            hs += sorted(glob.glob(d + "/*.h")) + sorted(glob.glob(d + "/*.hpp"))
        return hfile(*hs)

    def cc(self, src, mode, hk, extra=()):
        flags = (SYMFLAGS + ["-fpass-plugin=" + BLD + "/tsym.so"]) if mode == "sym" else NATFLAGS
        comp = CLANG if mode == "sym" else GXX
        flags = flags + list(extra)
        key = hashlib.sha256((hfile(src) + hk + " ".join(flags) + (self.passkey if mode == "sym" else "")).encode()).hexdigest()[:24]
        tag = re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))
        if extra:
            tag += "_" + hashlib.sha256(" ".join(extra).encode()).hexdigest()[:6]
        out = "%s/%s/%s.o" % (BLD, mode, tag)
        def mk(t):
            self.compiled += 1
            sh([comp] + flags + DEFS + INC + ["-c", src, "-o", t])
        return cached(out, key, mk)

    def repo_objs(self, ex, mode):
        if mode in self.libs:
            return self.libs[mode]
        hk = self.headers_key([REPO + "/src/base", REPO + "/src/atm", ENG + "/stubs"])
        srcs = sorted(glob.glob(REPO + "/src/base/*.cpp")) + sorted(glob.glob(REPO + "/src/atm/*.cpp"))
        js = [(s, ex.submit(self.cc, s, mode, hk)) for s in sorted(srcs, key=os.path.getsize, reverse=True)]
        objs, errs = [], []
        for s, j in js:
            try:
                objs.append(j.result())
            except Err as e:
                errs.append(str(e))
        lib = BLD + "/%s/libtempest.a" % mode
        if os.path.exists(lib):
            os.unlink(lib)
        sh(["ar", "rcs", lib] + objs)
        self.libs[mode] = (lib, errs)
        return self.libs[mode]

    def harness(self, ex, mode, name, defs=(), nc_stub=False, extra_srcs=()):
        hk = self.headers_key([REPO + "/src/base", REPO + "/src/atm", ENG + "/stubs", ENG, HAR])
        lib, errs = self.repo_objs(ex, mode)
        defs = list(defs)
        js = [ex.submit(self.cc, HAR + "/" + name + ".cpp", mode, hk, tuple(defs)),
              ex.submit(self.cc, ENG + "/stubs/mpi_sim.cpp", mode, hk),
              ex.submit(self.cc, ENG + "/stubs/vfs.cpp", mode, hk),
              ex.submit(self.cc, ENG + "/stubs/lapack_stub.cpp", mode, hk)]
        if nc_stub:
            js.append(ex.submit(self.cc, ENG + "/stubs/nc_stub.cpp", mode, hk))
        for s in extra_srcs:
            js.append(ex.submit(self.cc, s.replace("$REPO", REPO), mode, hk, tuple(defs)))
        if mode == "sym":
            js.append(ex.submit(self.cc, ENG + "/tsl_libc.cpp", mode, hk, ("-fno-builtin",)))
        else:
            js.append(ex.submit(self.cc, ENG + "/native_rt.cpp", mode, hk))
        try:
            objs = [j.result() for j in js]
        except Err as e:
            raise Err(str(e))
        tag = hashlib.sha256((" ".join(defs) + str(nc_stub)).encode()).hexdigest()[:6]
        exe = "%s/%s/%s_%s" % (BLD, mode, name, tag)
        cmd = [GXX] + objs
        if mode == "sym":
            cmd += [BLD + "/rt.o", "-rdynamic"]
        cmd += [lib]
        cmd += ["-Wl,--wrap=" + w for w in WRAPS]
        cmd += ["-lnetcdf"]
        cmd += ["-llapack", "-lblas", "-o", exe]
        if mode == "sym":
            cmd += ["-lz3", "-lquadmath"]
        try:
            sh(cmd)
        except Err as e:
            raise Err(str(e) + "\n" + "\n".join(errs))
        return exe


def limits():
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, 1 << 30))


def run_one(exe, run, par, workdir):
    os.makedirs(workdir, exist_ok=True)
    log, summ, out = workdir + "/log", workdir + "/summary", workdir + "/out"
    for f in (log, summ):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ, TS_LOG=log, TS_SUMMARY=summ, TS_PAR=str(par),
               TS_MAXPATHS=str(run.get("maxpaths", 200000)), TS_DEADLINE=str(run.get("deadline", 200)),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    if "rlclaim" in run:
        env["TS_RLCLAIM"] = str(run["rlclaim"])
    t = time.time()
    timed = False
    with open(out, "wb") as o:
        p = subprocess.Popen([exe] + [str(a) for a in run.get("args", [])], stdout=o, stderr=subprocess.STDOUT,
                             env=env, cwd=workdir, preexec_fn=lambda: (limits(), os.setsid()))
        try:
            p.wait(run.get("deadline", 200) * 1.3 + 60)
        except subprocess.TimeoutExpired:
            timed = True
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    recs = []
    if os.path.exists(log):
        for l in open(log, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    s = None
    if os.path.exists(summ):
        try:
            s = json.load(open(summ))
        except ValueError:
            s = None
    return dict(run=run, recs=recs, summary=s, rc=p.returncode, timed=timed, wall=time.time() - t,
                out=open(out, errors="replace").read()[-3000:])


def replay(natexe, run, assign, workdir):
    os.makedirs(workdir, exist_ok=True)
    f = workdir + "/assign"
    with open(f, "w") as g:
        for k, v in assign.items():
            g.write("%s %s\n" % (k, v))
    env = dict(os.environ, TS_ASSIGN=f)
    try:
        p = subprocess.run([natexe] + [str(a) for a in run.get("args", [])], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env, cwd=workdir, timeout=120, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    o = p.stdout.decode(errors="replace")
    if p.returncode == 1 and "REPLAY-VIOLATED" in o:
        return "violated", o
    if p.returncode < 0:
        return "violated", o + "\nREPLAY-VIOLATED crash: signal %d" % -p.returncode
    if p.returncode == 3:
        return "assumption", o
    return "holds", o


def load_known():
    k = {}
    f = VERIF + "/known-findings.jsonl"
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                r = json.loads(l)
                k.setdefault(r["property"], []).append(r)
    return k


def check(pid, tier, B, ex):
    from checks import CHECKS
    C = CHECKS[pid]
    t0 = time.time()
    runs = []
    for part in C["parts"]:
        for r in part["runs"]:
            if tier == "quick" and r.get("tier") == "thorough":
                continue
            if tier == "thorough" and r.get("tier") == "quick":
                continue
            runs.append((part, r))
    exes = {}
    for part, r in runs:
        k = (part["harness"], tuple(part.get("defs", ())))
        if k not in exes:
            exes[k] = B.harness(ex, "sym", part["harness"], part.get("defs", ()), part.get("nc_stub", False), part.get("srcs", ()))
    tb = time.time()
    jobs = 8
    res = []
    with cf.ThreadPoolExecutor(max_workers=C.get("concurrent", 4)) as rx:
        fs = []
        for n, (part, r) in enumerate(runs):
            k = (part["harness"], tuple(part.get("defs", ())))
            wd = "%s/run/%s/%d" % (BLD, pid, n)
            fs.append(rx.submit(run_one, exes[k], r, r.get("par", max(1, jobs // min(len(runs), C.get("concurrent", 4)))), wd))
        for (part, r), f in zip(runs, fs):
            x = f.result()
            x["part"] = part
            res.append(x)
    # ---- gather
    tot = {}
    labels = {"claim": {}, "twin": {}, "reach": {}, "incomplete": {}, "unsupported": {}, "note": {}, "skip": {}}
    funcs = set()
    errors, cands, undec, incomplete, unsup = [], [], [], [], []
    for x in res:
        nm = x["part"]["harness"] + " " + " ".join(map(str, x["run"].get("args", [])))
        x["name"] = nm.strip()
        if x["summary"] is None:
            errors.append("%s: no summary (rc %s%s): %s" % (nm, x["rc"], ", timed out" if x["timed"] else "", x["out"][-600:]))
            continue
        for k, v in x["summary"].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for kind in labels:
            for l, v in x["summary"].get(kind, {}).items():
                o = labels[kind].setdefault(l, [0, 0, 0, 0])
                for i in range(4):
                    o[i] += v[i]
        funcs.update(x["summary"].get("functions", []))
        for want in x["part"].get("reach", []) + x["run"].get("reach", []):
            if not x["summary"].get("reach", {}).get(want):
                errors.append("%s: reachability witness %r not reached" % (nm, want))
        for l, v in x["summary"].get("twin", {}).items():
            if v[1] == 0:
                errors.append("%s: vacuity twin %r could not be falsified" % (nm, l))
        if x["summary"].get("claims", 0) == 0 and not x["summary"].get("violations"):
            errors.append("%s: no claim was evaluated" % nm)
        for r in x["recs"]:
            if r["type"] == "violation":
                cands.append((x, r))
            elif r["type"] == "undecided":
                undec.append("%s: %s (%s)" % (nm, r["what"], r.get("detail", "")[:200]))
            elif r["type"] == "encoding-mismatch":
                errors.append("%s: encoding disagrees with execution: %s %s" % (nm, r["what"], r.get("detail")))
            elif r["type"] == "incomplete":
                incomplete.append("%s: %s" % (nm, r["what"]))
            elif r["type"] == "unsupported":
                unsup.append("%s: %s (%s)" % (nm, r["what"], r.get("fn")))
    # ---- replay the candidates against the natively compiled code
    viol, unconf = [], []
    known = load_known().get(pid, [])
    kfound = {}
    if cands:
        nat = {}
        seen = {}
        rd = "%s/replay/%s" % (EVD, pid)
        os.makedirs(rd, exist_ok=True)
        for n, (x, r) in enumerate(cands):
            if sum(1 for v in viol) >= 5:
                break
            kk = (x["name"], r["what"])
            if seen.get(kk, 0) >= 3:
                continue
            part = x["part"]
            k = (part["harness"], tuple(part.get("defs", ())))
            if k not in nat:
                nat[k] = B.harness(ex, "nat", part["harness"], part.get("defs", ()), part.get("nc_stub", False), part.get("srcs", ()))
            verdict, out = replay(nat[k], x["run"], r["assign"], "%s/run/%s/replay%d" % (BLD, pid, n))
            lines = [l for l in out.splitlines() if l.startswith("REPLAY-VIOLATED")]
            if verdict == "violated":
                kf = None
                for q in known:
                    if q.get("status") == "known" and all(re.search(q["match"], l) for l in lines) and \
                            re.search(q.get("run", ""), x["name"]):
                        kf = q
                if kf is not None:
                    kfound[kf["id"]] = kf
                    continue
                seen[kk] = seen.get(kk, 0) + 3
                path = "%s/%d.json" % (rd, n)
                json.dump(dict(property=pid, harness=part["harness"], args=x["run"].get("args", []), claim=r["what"],
                               detail=r.get("detail"), kind=r.get("kind"), assign=r["assign"], replay_output=out[-3000:],
                               how="build with engine/driver.py, run the native harness with TS_ASSIGN=<name value per line>"),
                          open(path, "w"), indent=1)
                viol.append((path, x["name"], r["what"], lines[0] if lines else ""))
            else:
                seen[kk] = seen.get(kk, 0) + 1
                unconf.append("%s: %s [%s] native replay: %s" % (x["name"], r["what"], r.get("detail", "")[:300], verdict))
    cov = dict(
        functions_encoded=len(funcs), functions=sorted(demangle(funcs))[:400],
        harness_runs=[dict(name=x["name"], bounds=x["run"].get("bounds", x["part"].get("bounds", "")), wall_s=round(x["wall"], 2),
                           paths=(x["summary"] or {}).get("paths"), claims=(x["summary"] or {}).get("claims"),
                           proved=(x["summary"] or {}).get("proved")) for x in res],
        paths=tot.get("paths", 0), queries=tot.get("queries", 0), solver_s=round(tot.get("solver_s", 0), 3),
        claims=tot.get("claims", 0), claims_held=tot.get("proved", 0), claims_undecided=tot.get("undecided", 0),
        branches=tot.get("branches", 0), concretised=tot.get("concretised", 0),
        encoding_validated_against_execution=tot.get("validated", 0), encoding_mismatches=tot.get("mismatch", 0),
        reach_witnesses=sorted(labels["reach"]), vacuity_twins={k: v[1] for k, v in labels["twin"].items()},
        claim_labels={k: dict(n=v[0], held=v[1], bad=v[2], undecided=v[3]) for k, v in sorted(labels["claim"].items())[:200]},
        undecided=undec[:20], incomplete=incomplete[:20], unsupported=unsup[:20], unconfirmed_candidates=unconf[:20],
        errors=errors[:20], build_s=round(tb - t0, 1),
        samples=tot.get("claims", 0), states=max(1, tot.get("paths", 0)), transitions=max(1, tot.get("branches", 0) + tot.get("claims", 0)),
        traces_validated_against_impl=tot.get("validated", 0),
        explanation=C.get("explanation", C.get("title", "")), known_findings=sorted(kfound),
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=C["level"], coverage=cov,
              assumptions=C.get("assumptions", []) + COMMON, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(EVD, exist_ok=True)
    with open("%s/%s.json" % (EVD, pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d paths, %d claims (%d held, %d undecided), %d queries, solver %.1fs, build %.1fs, wall %.1fs" %
          (pid, tier, len(res), cov["paths"], cov["claims"], cov["claims_held"], cov["claims_undecided"], cov["queries"],
           cov["solver_s"], tb - t0, time.time() - t0))
    for q in kfound.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, q["what"]))
    for l in unconf[:10]:
        print("UNCONFIRMED " + l)
    for l in (undec[:10]):
        print("UNDECIDED " + l)
    for l in incomplete[:10]:
        print("INCOMPLETE " + l)
    for l in unsup[:10]:
        print("UNSUPPORTED " + l)
    if viol:
        for path, nm, what, line in viol:
            print("  %s: %s: %s" % (nm, what, line))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:20]:
            print("ERROR " + e)
        return 2
    return 0


COMMON = ["double arithmetic is modelled as exact real arithmetic; claims carry a tolerance that covers rounding",
          "encoded code is the LLVM IR of /repo's sources at -O1; MPI is replaced by a simulator, LAPACK on symbolic data by its contract"]


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode().split("\n")


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    sys.stdout.reconfigure(line_buffering=True)
    B = Build()
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        try:
            B.tool(ex)
            if a and a[0] == "--setup":
                B.repo_objs(ex, "sym")
                return 0
            from checks import CHECKS
            ids = sorted(CHECKS) if a[0] == "--all" else a
            rc = 0
            for pid in ids:
                r = check(pid, tier, B, ex)
                rc = max(rc, r) if rc != 1 else 1
            return rc
        except Err as e:
            print("ERROR " + str(e))
            return 2


if __name__ == "__main__":
    sys.exit(main())
