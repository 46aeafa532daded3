"""common code of the checks: run sharded harnesses, collect failures, match
known findings, write evidence and replay files, set the exit status."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import sgbuild

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS")


def known_findings(pid):
    """lines:  known: property=<id> sig=<regex> :: <description>
               fixed: property=<id> <commit> <description>   (suppresses nothing)"""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


# everything that runs code of /repo runs as an unprivileged user with only
# scratch files of its own, so that an escaped call cannot damage the sandbox
UNPRIV = dict(user=65534, group=65534, extra_groups=[]) if os.getuid() == 0 else {}


def give(path):
    """make a directory writable for the unprivileged user"""
    if UNPRIV:
        os.chown(path, 65534, 65534)


class Check:
    def __init__(self, pid, level, technique=""):
        self.pid, self.level, self.technique = pid, level, technique
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            self.tier = sys.argv[sys.argv.index("--tier") + 1]
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.stats, self.samples, self.fails = {}, [], []
        self.assumptions, self.rule, self.extra = [], "", {}
        self.exhaustive = True
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        os.chmod(self.scratch, 0o755)
        self.lock = threading.Lock()
        self.only = None
        if "--replay" in sys.argv:
            self.only = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))

    # ------------------------------------------------------------------
    def stat(self, k, n=1):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def fail(self, sig, case, msg, **kw):
        with self.lock:
            self.fails.append(dict(sig=sig, case=case, msg=msg, **kw))

    def harness(self, variant, source, args=(), shards=None, timeout=None, env=None,
                extra=("-Wl,--wrap=exit,--wrap=abort",), cflags=(), name=None, exclude=(), cwd=None):
        """compile+link harness, run it in shards, collect protocol lines"""
        if self.only and self.only.get("harness") not in (None, os.path.basename(source) + (name or "")):
            return
        src = [os.path.join(VERIF, "harness", s) for s in ([source] if isinstance(source, str) else source)]
        exe = os.path.join(self.scratch, "h_" + os.path.basename(src[0]).split(".")[0] + (name or "") + "_" + variant)
        sgbuild.link(variant, src, exe, extra=extra, cflags=list(cflags) + ["-DVH_WRAP_EXIT"], exclude=exclude)
        n = shards or min(8, os.cpu_count() or 8)
        if self.only and self.only.get("case"):
            n = 1
        if timeout is None:
            timeout = 780 if self.tier == "quick" else 6 * 3600
        e = dict(os.environ)
        e.update(OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0",
                 UBSAN_OPTIONS="halt_on_error=1")
        e.update(env or {})
        ths = []
        for i in range(n):
            t = threading.Thread(target=self._run1, args=(exe, list(args), i, n, timeout, e,
                                 os.path.basename(src[0]) + (name or ""), variant, cwd))
            t.start(); ths.append(t)
        for t in ths:
            t.join()

    def _run1(self, exe, args, i, n, timeout, env, hname, variant, cwd):
        wd = cwd or os.path.join(self.scratch, "w_%s_%d" % (os.path.basename(exe), i))
        os.makedirs(wd, exist_ok=True)
        give(wd)
        st = os.path.join(self.scratch, "st_%s_%d" % (os.path.basename(exe), i))
        cmd = [exe] + args + ["--shard", "%d/%d" % (i, n), "--tier", self.tier, "--status", st]
        if self.only and self.only.get("case"):
            cmd += ["--case", self.only["case"]]
        env = dict(env)
        env["VH_SCRATCH"] = wd
        open(st, "wb").close()
        give(st)
        err = open(st + ".stderr", "w+b")
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, cwd=wd, env=env,
                             stdin=subprocess.DEVNULL, start_new_session=True, **UNPRIV)
        killer = threading.Timer(timeout, lambda: os.killpg(p.pid, signal.SIGKILL))
        killer.start()
        done = False
        for line in p.stdout:
            line = line.decode(errors="replace").rstrip("\n")
            if line.startswith("@STAT "):
                _, k, v = line.split()
                self.stat(k, int(v))
            elif line.startswith("@SAMPLE\t"):
                self.sample(line.split("\t", 1)[1])
            elif line.startswith("@FAIL\t"):
                _, sig, case, msg = line.split("\t", 3)
                self.fail(sig, case, msg, harness=hname, variant=variant)
            elif line.startswith("@NOTE\t"):
                print(line.split("\t", 1)[1], flush=True)
            elif line == "@DONE":
                done = True
        rc = p.wait()
        killed = not killer.is_alive()
        killer.cancel()
        if not done:
            case, at = "?", ""
            try:
                b = open(st, "rb").read()
                case = b[:4096].split(b"\0")[0].decode(errors="replace")
                at = b[4096:].split(b"\0")[0].decode(errors="replace")
            except OSError:
                pass
            err.seek(0)
            et = err.read().decode(errors="replace")
            m = re.search(r"ERROR: AddressSanitizer: (\S+)", et)
            fr = re.findall(r"#\d+ 0x\w+ in (\S+) (\S+)", et)[:6]
            what = "timeout" if killed else (m.group(1) if m else "crash rc=%d" % rc)
            self.fail("crash:" + what, case, "%s at [%s] %s %s" % (what, at, " <- ".join(f[0] for f in fr), et[-300:] if not m else ""),
                      harness=hname, variant=variant)
        err.close()

    # ------------------------------------------------------------------
    def finish(self):
        known = known_findings(self.pid)
        seen, viol = {}, []
        for f in self.fails:
            txt = f["sig"] + "|" + f["case"]
            for k, (rx, desc) in enumerate(known):
                if rx.search(txt):
                    seen.setdefault(k, f)
                    break
            else:
                viol.append(f)
        for k, (rx, desc) in enumerate(known):
            if k in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, desc), flush=True)
        viol.sort(key=lambda f: (f["sig"], len(f["case"]), f["case"]))
        cov = dict(exhaustive=bool(self.exhaustive), samples=(self.samples or ["(none)"])[:6])
        s = self.stats
        if self.level == "model_checking":
            cov.update(states=s.get("states", 0), transitions=s.get("transitions", 0),
                       traces_validated_against_impl=s.get("traces", 0) or s.get("evaluations", 0))
            if s.get("evaluations"):
                cov["evaluations"] = s["evaluations"]
        else:
            cov.update(evaluations=s.get("evaluations", 0), distinct_nontrivial=s.get("distinct", 0) or s.get("states", 0),
                       rule=self.rule or "see DESIGN.md")
            for k in ("states", "transitions"):
                if s.get(k):
                    cov[k] = s[k]
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        if not self.only:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fp:
                json.dump(ev, fp, indent=1)
        print("%s: %s  %.1f s" % (self.pid, {k: v for k, v in cov.items() if k not in ("samples", "rule")},
                                  time.time() - self.t0), flush=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.scratch, ignore_errors=True)
        if viol:
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            sigs = []
            for f in viol:
                if f["sig"] in sigs:
                    continue
                sigs.append(f["sig"])
                if len(sigs) > 8:
                    break
                path = os.path.join(rd, "%s_%d.json" % (self.pid, len(sigs)))
                json.dump(dict(property=self.pid, tier=self.tier, **f), open(path, "w"), indent=1)
                print("  %s | %s | %s" % (f["sig"], f["case"][:300], f["msg"][:700]), flush=True)
                print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            sys.exit(1)
        sys.exit(0)
