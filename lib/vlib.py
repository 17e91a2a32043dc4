"""Shared machinery of the checks: build a harness against /repo's headers, run it,
validate the recorded traces with TLC, write evidence, report the verdict."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
              OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl="self,vader",
              OMPI_MCA_plm="isolated", OMPI_MCA_hwloc_base_binding_policy="none",
              OMPI_MCA_btl_vader_single_copy_mechanism="none")

class MachineError(Exception):
    pass

LEAN = {"FTK_HAVE_GMP", "FTK_HAVE_MPI", "FTK_HAVE_TBB"}
FULL = LEAN | {"FTK_HAVE_VTK", "FTK_HAVE_NETCDF", "FTK_HAVE_HDF5", "FTK_HAVE_PNG", "FTK_HAVE_MPSOLVE"}
VTK_INC = ["-I/usr/include/vtk-9.1", "-I/usr/include/hdf5/serial"]
LEAN_LIBS = ["-lgmpxx", "-lgmp", "-ltbb", "-lpthread"]
GLOBAL_DEFS = ["-DDIY_NO_THREADS"]

def config_text(have):
    """config.hh instantiated from /repo's own template with the given features on"""
    src = open(os.path.join(REPO, "include/ftk/config.hh.in")).read()
    def rep(m):
        return "#define %s 1" % m.group(1) if m.group(1) in have else "/* #undef %s */" % m.group(1)
    src = re.sub(r"#cmakedefine\s+(\w+)\s+1", rep, src)
    return (src.replace("${FTK_VERSION}", "0.0.9").replace("${FTK_FP_PRECISION}", "32768")
               .replace("${FTK_CP_MAX_NUM_VARS}", "3"))

def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in [w for d in ("include", "src/cli") for w in os.walk(os.path.join(REPO, d))]:
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="ftkv-%s-" % pid)
        self.replaydir = os.path.join(VERIF, "evidence", "replay", pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.models = []
        self.violations = []      # (signature, replay path, text)
        self.known = load_known(pid)
        self.known_hit = {}
        self.pool = ThreadPoolExecutor(8)

    # ------------------------------------------------------------ building
    def build(self, name, src=None, have=LEAN, defs=(), libs=None, flags=(), cxx="mpicxx", opt="-O1"):
        src = os.path.join(VERIF, "harness", src or name + ".cpp")
        key = hashlib.sha256()
        if not hasattr(self, "_rh"):
            self._rh = repo_hash()
        key.update(self._rh.encode())
        for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            if f.endswith(".hh") or os.path.join(VERIF, "harness", f) == src:
                key.update(open(os.path.join(VERIF, "harness", f), "rb").read())
        cfgt = config_text(have)
        libs = LEAN_LIBS if libs is None else libs
        key.update(repr((name, cfgt, list(defs), libs, list(flags), cxx, opt)).encode())
        k = key.hexdigest()[:24]
        out = os.path.join(CACHE, "%s-%s" % (name, k))
        if os.path.exists(out):
            return out
        os.makedirs(CACHE, exist_ok=True)
        cdir = os.path.join(CACHE, "cfg-" + hashlib.sha256(cfgt.encode()).hexdigest()[:12])
        os.makedirs(os.path.join(cdir, "ftk"), exist_ok=True)
        with open(os.path.join(cdir, "ftk", "config.hh"), "w") as fh:
            fh.write(cfgt)
        tmp = out + ".tmp%d" % os.getpid()
        cmd = [cxx, opt, "-std=gnu++17", "-w"] + GLOBAL_DEFS + list(defs) + ["-I" + cdir,
               "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]
        if "FTK_HAVE_VTK" in have or "FTK_HAVE_HDF5" in have:
            cmd += VTK_INC
        cmd += list(flags) + [src, "-o", tmp] + list(libs)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise MachineError("harness %s does not compile:\n%s" % (name, r.stdout[-6000:]))
        os.rename(tmp, out)
        prune_cache(name, out)
        return out

    # ------------------------------------------------------------ running
    def path(self, name):
        return os.path.join(self.work, name)

    def write(self, name, text):
        p = self.path(name)
        with open(p, "w") as fh:
            fh.write(text)
        return p

    def run(self, exe, args=(), stdin=None, timeout=600, env=None, np=None, cwd=None):
        """run a harness; returns (rc, stdout, stderr).  rc 'timeout' on timeout"""
        e = dict(os.environ); e.update(MPIENV); e.update(env or {})
        cmd = [exe] + [str(a) for a in args]
        if np:
            cmd = ["mpiexec", "-n", str(np)] + cmd
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             env=e, cwd=cwd or self.work, start_new_session=True)
        try:
            o, er = p.communicate(stdin, timeout=timeout)
            return p.returncode, o, er
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            o, er = p.communicate()
            return "timeout", o, er

    def run_cases(self, exe, cases, name, args=(), chunks=8, timeout=200, np=None, env=None, one_timeout=40, post=None):
        """Feed cases (list of strings, one line each) to a harness reading lines from a
        file and writing one ndjson record per case to another file.  Records come back in
        case order.  A crash/hang is isolated: the offending case is re-run alone and, if it
        fails again, becomes a violation; all other cases are kept."""
        n = len(cases)
        chunks = max(1, min(chunks, n))
        parts = [list(range(i, n, chunks)) for i in range(chunks)]
        out = [None] * n
        def batch(idx, tag, to):
            fi = self.write("%s.%s.in" % (name, tag), "".join(cases[i] + "\n" for i in idx))
            fo = self.path("%s.%s.out" % (name, tag))
            if os.path.exists(fo): os.remove(fo)
            rc, so, se = self.run(exe, list(args) + [fi, fo], timeout=to, np=np, env=env)
            lines = []
            if os.path.exists(fo):
                lines = [l for l in open(fo, errors="replace").read().split("\n")]
                if lines and lines[-1] == "": lines.pop()
                elif lines: lines.pop()           # partial last line
            for f in (fi, fo):
                if os.path.exists(f): os.remove(f)
            return rc, lines, se
        def work(k):
            todo = parts[k]; rnd = fails = 0
            while todo:
                rc, lines, se = batch(todo, "%d_%d" % (k, rnd), timeout)
                rnd += 1
                for i, l in zip(todo, lines): out[i] = l
                done = len(lines)
                if done >= len(todo):
                    if rc != 0:       # all records written, failed at exit
                        rc2, lines2, se2 = batch(todo[-1:], "%d_%d" % (k, rnd), one_timeout); rnd += 1
                        if rc2 != 0:
                            self.fail_case("crash", name, cases[todo[-1]], rc2, se2)
                    break
                bad = todo[done]
                rc2, lines2, se2 = batch([bad], "%d_%d" % (k, rnd), one_timeout); rnd += 1
                if lines2 and rc2 == 0:
                    out[bad] = lines2[0]
                    if rc == "timeout" and done == 0 and len(todo) > 1:
                        raise MachineError("%s: harness too slow" % name)
                else:
                    rc3, lines3, se3 = batch([bad], "%d_%d" % (k, rnd), one_timeout); rnd += 1
                    if lines3 and rc3 == 0:
                        out[bad] = lines3[0]
                    else:
                        self.fail_case("hang" if rc3 == "timeout" else "crash", name, cases[bad], rc3, se3)
                        fails += 3 if rc3 == "timeout" else 1
                        if fails >= 3 or len(self.violations) > 20:
                            break         # enough evidence; the rest of this batch is not run
                todo = todo[done + 1:]
        list(self.pool.map(work, range(chunks)))
        return out

    def fail_case(self, kind, name, case, rc, err):
        rp = self.save_replay("%s-%s-%d.txt" % (name, kind, len(self.violations)),
                              "the harness %s (rc=%s) on this case:\n%s\n--- stderr\n%s\n" % (kind, rc, case, (err or "")[-3000:]))
        self.violation("%s:%s:%s" % (name, kind, case_key(case)), rp, "%s in %s rc=%s" % (kind, name, rc))

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=850, heap="8g", extra=(), deadlock=False, props=()):
        """raw TLC run; returns (rc, output)"""
        spec = os.path.join(VERIF, "spec")
        md = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        e = dict(os.environ); e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_JAR] + list(props) + ["tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", cfg or module + ".cfg"]
        if not deadlock: cmd.append("-deadlock")
        cmd += list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
            rc, o = r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            o = x.stdout or b""
            rc, o = "timeout", o.decode(errors="replace") if isinstance(o, bytes) else o
        shutil.rmtree(md, ignore_errors=True)
        o = re.sub(r"(?m)^(Parsing file|Semantic processing|TLC2 Version|Running breadth).*\n", "", o)
        return rc, o

    @staticmethod
    def tlc_counts(o):
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o): pass
        if not m: return None
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))

    def model(self, module, cfg=None, env=None, expect_violation=None, **kw):
        """exhaustive design check. Fails the check if TLC reports an error (unless a named
        invariant is expected to be violated -- a negative control)."""
        t = time.time()
        rc, o = self.tlc(module, cfg, env, **kw)
        c = self.tlc_counts(o)
        label = "%s[%s]" % (module, cfg or module + ".cfg")
        if expect_violation:
            if expect_violation not in o or rc == 0:
                raise MachineError("negative control %s: TLC did not report %s\n%s" % (label, expect_violation, o[-3000:]))
            self.models.append(dict(model=label, negative_control=expect_violation))
            return o
        if rc != 0 or "No error has been found" not in o and "Finished in" not in o:
            rp = self.save_replay("model-%s.txt" % module, o[-200000:])
            if "is violated" in o:
                self.violation("model:" + module, rp, "design model %s violated" % label)
                return o
            raise MachineError("TLC failed on %s (rc=%s):\n%s" % (label, rc, o[-4000:]))
        self.states += c[1]; self.transitions += c[0]
        self.models.append(dict(model=label, states=c[1], generated=c[0], wall_s=round(time.time() - t, 1)))
        return o

    def validate(self, module, records, cfg=None, name=None, env=None, nev=lambda r: len(r["ev"]), workers=8,
                 timeout=850, heap="12g", shards=1, cost=None):
        """Validate records (ndjson strings or dicts with a list field `ev`, id field `id`)
        against trace specification `module`.  Rejections become violations."""
        recs = []
        for r in records:
            if r is None: continue
            recs.append(json.loads(r) if isinstance(r, str) else r)
        if not recs:
            if not self.violations: raise MachineError("%s: no records to validate" % module)
            return
        name = name or module
        rejects = []
        tr = self.path(name + ".ndjson")
        with open(tr, "w") as fh:
            for r in recs: fh.write(json.dumps(r, separators=(",", ":")) + "\n")
        e = dict(env or {}); e["TRACE"] = tr
        t = time.time()
        rc, o = self.tlc(module, cfg, e, workers=workers, timeout=timeout, heap=heap)
        c = self.tlc_counts(o)
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(.*?)>>\s*(?=\n|$)', o, re.S):
            rejects.append((int(m.group(1)), int(m.group(2)), " ".join(m.group(3).split())))
        rejects = sorted(set(rejects))
        firstrej = {}
        for k, l, cl in rejects: firstrej.setdefault(k, (l, cl))
        expect = 0
        for k, r in enumerate(recs, 1):
            expect += (firstrej[k][0] + 2) if k in firstrej else nev(r) + 2
        if rc not in (0,) or c is None or c[1] != expect:
            keep = os.environ.get("VERIF_KEEP")
            if keep: shutil.copy(tr, keep)
            raise MachineError("TLC on %s: rc=%s counts=%s expected distinct=%s\n%s" % (module, rc, c, expect, o[-6000:]))
        self.states += c[1]; self.transitions += c[0]
        self.traces += len(recs); self.events += sum(nev(r) for r in recs)
        self.models.append(dict(model="%s/%s" % (module, name), traces=len(recs), states=c[1], rejected=len(firstrej), wall_s=round(time.time() - t, 1)))
        for k, (l, cl) in sorted(firstrej.items()):
            r = recs[k - 1]
            rp = self.save_replay("%s-%s-%d.json" % (name, r.get("id", k), k), json.dumps(dict(spec=module, event=l, clauses=cl, record=r)))
            kind = "start"
            if l >= 1:
                kind = r["ev"][l - 1].get("op", "event") if isinstance(r["ev"][l - 1], dict) else "event"
            sig = "%s:%s:%s:%s" % (name, r.get("kind", ""), kind, cl)
            self.violation(sig, rp, "trace %s of %s rejected at event %d (%s): %s" % (r.get("id", k), name, l, kind, cl))
        if not self.samples or len(self.samples) < 6:
            s = json.dumps(recs[len(recs) // 2], separators=(",", ":"))
            self.samples.append(s[:1500])

    # ------------------------------------------------------------ verdict
    def save_replay(self, name, text):
        os.makedirs(self.replaydir, exist_ok=True)
        p = os.path.join(self.replaydir, re.sub(r"[^\w.\-]", "_", name)[:120])
        with open(p, "w") as fh: fh.write(text)
        return p

    def violation(self, sig, replay, text):
        for pat, what in self.known:
            if re.search(pat, sig) or re.search(pat, text):
                self.known_hit[what] = self.known_hit.get(what, 0) + 1
                return
        self.violations.append((sig, replay, text))

    def finish(self, level, extra=None):
        cov = dict(extra or {})
        cov.setdefault("states", self.states); cov.setdefault("transitions", self.transitions)
        cov.setdefault("traces_validated_against_impl", self.traces)
        cov.setdefault("events_validated", self.events)
        cov.setdefault("samples", self.samples[:6] or ["(design model only)"])
        cov.setdefault("runs", self.models)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)

def case_key(case):
    return hashlib.sha256(case.encode()).hexdigest()[:10]

def prune_cache(name, keep):
    """keep the cache small: at most 6 builds per harness"""
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.rsplit("-", 1)[0] == name and ".tmp" not in f]
        fs.sort(key=os.path.getmtime, reverse=True)
        for f in fs[6:]:
            if f != keep: os.remove(f)
    except OSError:
        pass

def load_known(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main(pid, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    rc = 2
    try:
        shutil.rmtree(ctx.replaydir, ignore_errors=True)
        extra = fn(ctx)
        ctx.finish(level, extra if isinstance(extra, dict) else None)
        for what, n in ctx.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        rc = 0
        if ctx.violations:
            seen = set()
            for sig, rp, text in ctx.violations:
                if sig in seen: continue
                seen.add(sig)
                print("  %s" % text[:400])
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                if len(seen) >= 10: break
            rc = 1
        print("%s %s: %d traces, %d events, %d states, %.1fs, violations=%d" % (
            pid, tier, ctx.traces, ctx.events, ctx.states, time.time() - ctx.t0, len(ctx.violations)))
    except MachineError as x:
        if ctx.violations:   # a machine problem must not hide an established violation
            for sig, rp, text in ctx.violations[:10]:
                print("  %s" % text[:400]); print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
            ctx.finish(level)
        print("CHECK-ERROR property=%s: %s" % (pid, x))
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
