"""Shared machinery: scenario execution in killable workers, TLC runs, verdicts, evidence."""
import atexit, glob, json, math, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


OUT = sys.stdout
STATUS = None


def out(msg):
    OUT.write(msg + "\n")
    OUT.flush()


class MachineryError(Exception):
    pass


def _default(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    raise TypeError(repr(type(o)))


def F(x):
    """array or scalar -> nested lists of python floats (so that JSON writes reals)"""
    import numpy as np
    a = np.asarray(x, dtype=np.float64)
    return a.tolist()


def dumps(o):
    return json.dumps(o, default=_default)


def cpu(pid):
    """seconds of processor time a process has used"""
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, samples=[])
        self.models = []      # exhaustive design checks
        self.notes = []
        self.violations = []  # (key, clause, payload)
        self.tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        atexit.register(shutil.rmtree, self.tmp, ignore_errors=True)
        self.classes = None

    # ---- random streams, reproducible per scenario
    def rng(self, *key):
        import numpy as np
        return np.random.default_rng([self.seed, zlib.crc32(repr((self.prop,) + key).encode())])

    # ---- Java part
    def java(self):
        if self.classes is None:
            d = os.path.join(self.tmp, "classes")
            os.makedirs(d)
            src = glob.glob(os.path.join(VERIF, "java", "vreal", "*.java"))
            r = subprocess.run(["javac", "-nowarn", "-d", d, "-cp", TLA] + src, capture_output=True, text=True)
            if r.returncode:
                raise MachineryError("javac failed: " + r.stderr[:2000])
            self.classes = d
        return self.classes

    def tlc(self, module, consts=None, props=None, cfg=None, workers=NPROC, timeout=1500, extra=(), heap="6g"):
        """Run TLC on spec/<module>.tla with spec/<module>.cfg (or the given cfg text)."""
        cls = self.java()
        work = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, work)
        if cfg is None:
            cfg = open(os.path.join(SPEC, module + ".cfg")).read()
        if consts:
            cfg += "\nCONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items()) + "\n"
        open(os.path.join(work, module + ".cfg"), "w").write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.tool.queue.IStateQueue=StateDeque",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vreal.Overrides"]
        for k, v in (props or {}).items():
            cmd.append(f"-D{k}={v}")
        cmd += ["-cp", f"{cls}:{TLA}:{COMM}", "tlc2.TLC", "-workers", str(workers), "-deadlock", "-metadir",
                os.path.join(work, "meta"), "-noGenerateSpecTE", *extra, "-config", module + ".cfg", module + ".tla"]
        try:
          with stage(self, "tlc " + module):
            r = subprocess.run(cmd, cwd=work, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC on {module} exceeded {timeout} s")
        out = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        return dict(rc=r.returncode, out=out, err=r.stderr,
                    generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0, work=work)

    def model(self, module, consts=None, cfg=None, want=None, workers=NPROC, timeout=1500, min_states=2):
        """Exhaustive check of a design model. Lines printed as 'SCN|<json>' are returned."""
        r = self.tlc(module, consts=consts, cfg=cfg, workers=workers, timeout=timeout)
        if r["rc"] != 0:
            raise MachineryError(f"design model {module} does not check: " + r["out"][-3000:] + r["err"][-1000:])
        if r["distinct"] < min_states:
            raise MachineryError(f"design model {module} is vacuous: {r['distinct']} states")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.models.append(dict(module=module, constants=consts or {}, distinct_states=r["distinct"],
                                generated=r["generated"]))
        scn = []
        for line in r["out"].splitlines():
            line = line.strip()
            if line.startswith('"SCN|'):
                scn.append(json.loads(json.loads(line)[4:]))
        scn.sort(key=lambda s: json.dumps(s, sort_keys=True))
        return scn

    # ---- running the implementation
    def warmup(self):
        return _Warmup()

    def pool(self, fn, tasks, timeout=120, nproc=NPROC):
        """fn(task) for every task in forked workers; a task that uses more than timeout seconds of processor time
        (or waits for five times as long) or kills its
        worker yields {'crash': ...}; an exception in the harness is a machinery error."""
        if os.environ.get("VERIF_TIMING"):
            print(f"  [pool start {len(tasks)} tasks] {time.time() - self.t0:.1f}s", file=sys.stderr)
        ctx = mp.get_context("fork")
        results = [None] * len(tasks)
        queue = list(range(len(tasks)))[::-1]
        workers = []
        nproc = max(1, min(nproc, len(tasks)))

        def work(conn):
            os.environ.pop("VERIF_TIMING", None)
            import warnings
            warnings.filterwarnings("ignore")
            while True:
                i = conn.recv()
                if i is None:
                    return
                try:
                    res = ("ok", fn(tasks[i]))
                except BaseException:
                    res = ("err", traceback.format_exc())
                conn.send((i, res))

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=work, args=(b,), daemon=True)
            p.start()
            b.close()
            return dict(p=p, c=a, i=None, t=0)

        def feed(w):
            if queue:
                w["i"] = queue.pop()
                w["t"], w["cpu"] = time.time(), cpu(w["p"].pid)
                w["c"].send(w["i"])
            else:
                w["i"] = None
        for _ in range(nproc):
            w = spawn()
            workers.append(w)
            feed(w)
        from multiprocessing.connection import wait
        while any(w["i"] is not None for w in workers):
            ready = wait([w["c"] for w in workers if w["i"] is not None], timeout=0.5)
            for w in workers:
                if w["i"] is None:
                    continue
                if w["c"] in ready:
                    try:
                        i, res = w["c"].recv()
                    except EOFError:
                        results[w["i"]] = dict(crash="worker died")
                        w["p"].join(1)
                        w.update(spawn())
                        feed(w)
                        continue
                    if res[0] == "err":
                        for v in workers:
                            v["p"].kill()
                        raise MachineryError("harness exception in scenario %r:\n%s" % (tasks[i], res[1]))
                    results[i] = res[1]
                    feed(w)
                elif time.time() - w["t"] > timeout and (cpu(w["p"].pid) - w["cpu"] > timeout or time.time() - w["t"] > 5 * timeout):
                    w["p"].kill()
                    results[w["i"]] = dict(crash=f"no answer within {timeout} s")
                    w.update(spawn())
                    feed(w)
        for w in workers:
            try:
                w["c"].send(None)
            except Exception:
                pass
        for w in workers:
            w["p"].join(2)
            if w["p"].is_alive():
                w["p"].kill()
        return results

    # ---- trace validation
    def validate(self, module, traces, consts=None, timeout=1500, per_trace_states=None, workers=NPROC):
        """traces: list of dicts with 'key' (scenario identity) and 'ev' (events). TLC prints
        BAD|<tid>|<l>|<clause> for each rejected event. Returns list of (trace, l, clause)."""
        bad = []
        live = []
        for t in traces:
            if t.get("crash"):
                bad.append((t, 0, "Terminates"))
                self.violation(t.get("key", "?"), "Terminates", dict(trace=t))
            else:
                live.append(t)
        if not live:
            return bad
        path = os.path.join(self.tmp, f"{module}_{len(os.listdir(self.tmp))}.ndjson")
        with open(path, "w") as f:
            for t in live:
                f.write(dumps({k: v for k, v in t.items() if not k.startswith("_")}) + "\n")
        r = self.tlc(module, consts=consts, props=dict(trace=path), timeout=timeout, workers=workers)
        expected = sum((per_trace_states(t) if per_trace_states else len(t["ev"]) + 1) for t in live)
        rejected = []
        for line in r["out"].splitlines():
            m = re.match(r'^"BAD\|(\d+)\|(\d+)\|(.*)"$', line.strip())
            if m:
                rejected.append((int(m.group(1)), int(m.group(2)), m.group(3)))
        notes = {m.group(2) for m in re.finditer(r'"NOTE\|(\w+)\|(\d+)\|', r["out"])}
        if notes:
            self.notes.append(f"{module}: {len(notes)} of {len(live)} traces judged only up to a numerically extreme point")
        if r["rc"] != 0:
            # an evaluation error: find the trace(s) the specification cannot even evaluate
            if "TLC threw an unexpected exception" in r["out"] or "Error:" in r["out"]:
                if len(live) == 1:
                    if re.search(r"(?i)semantic analysis failed|semantic errors|unknown operator|OutOfMemory|StackOverflow", r["out"]):
                        raise MachineryError(f"TLC failed on {module}: " + r["out"][-3000:])
                    self.violation(live[0]["key"], "MalformedTrace", dict(trace=live[0], tlc=r["out"][-1500:]))
                    return bad + [(live[0], 0, "MalformedTrace")]
                if getattr(self, "_no_bisect", False):
                    raise MachineryError(f"TLC failed on {module}: " + r["out"][-3000:])
                h = len(live) // 2
                return bad + self.validate(module, live[:h], consts, timeout, per_trace_states, workers) + \
                    self.validate(module, live[h:], consts, timeout, per_trace_states, workers)
            raise MachineryError(f"TLC failed on {module}: " + r["out"][-3000:] + r["err"][-1000:])
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["traces_validated_against_impl"] += len(live)
        self.cov["events_validated"] += sum(len(t["ev"]) for t in live)
        for t in live[:: max(1, len(live) // 3)][:3]:
            if len(self.cov["samples"]) < 12:
                self.cov["samples"].append(dict(spec=module, scenario=str(t["key"])[:300], events=len(t["ev"])))
        if not rejected and r["distinct"] != expected:
            raise MachineryError(f"{module}: {r['distinct']} states, expected {expected}")
        seen = set()
        for tid, l, clause in rejected:
            if (tid, l, clause) in seen:
                continue
            seen.add((tid, l, clause))
            t = live[tid - 1]
            bad.append((t, l, clause))
            self.violation(t["key"], clause, dict(trace=t, event=l))
        os.unlink(path)
        return bad

    def violation(self, key, clause, payload):
        self.violations.append((str(key), clause, payload))

    # ---- the end
    def finish(self, level, assumptions=()):
        known = []
        p = os.path.join(VERIF, "findings", "known_findings.json")
        if os.path.exists(p):
            known = [k for k in json.load(open(p)).get("findings", []) if k["property"] == self.prop]
        fresh, old = [], {}
        for key, clause, payload in self.violations:
            for k in known:
                if re.fullmatch(k["key"], key) and re.fullmatch(k["clause"], clause):
                    old.setdefault(k["what"], 0)
                    old[k["what"]] += 1
                    break
            else:
                fresh.append((key, clause, payload))
        for what in old:
            out(f"KNOWN-FINDING: property={self.prop} {what}")
        paths = []
        rd = os.path.join(VERIF, "evidence", "replays")
        for n, (key, clause, payload) in enumerate(fresh[:20]):
            os.makedirs(rd, exist_ok=True)
            f = os.path.join(rd, f"{self.prop}-{n}.json")
            with open(f, "w") as h:
                h.write(dumps(dict(property=self.prop, seed=self.seed, tier=self.tier, scenario=key, clause=clause,
                                   payload=payload)))
            paths.append(f)
            out(f"VIOLATION property={self.prop} replay={f}")
            out(f"  scenario {key}: clause {clause}" + (f" at event {payload.get('event')}" if isinstance(payload, dict) and 'event' in payload else ""))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(self.cov, models=self.models, notes=self.notes, known_findings=list(old)),
                  wall_s=round(time.time() - self.t0, 2),
                  violations=[dict(scenario=k, clause=c, replay=p) for (k, c, _), p in zip(fresh, paths)],
                  assumptions=list(assumptions))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as h:
            h.write(dumps(ev))
        out(f"{self.prop} {self.tier}: states={self.cov['states']} traces={self.cov['traces_validated_against_impl']} "
              f"events={self.cov['events_validated']} violations={len(fresh)} wall={ev['wall_s']}s")
        return 1 if fresh else 0


class _Warmup:
    """Calls into the library made before workers are forked (so that numba compiles once); the supervising
    process reports a violation if they never return. Exceptions are ignored: the scenarios record them."""
    def __enter__(self):
        if STATUS is not None:
            os.write(STATUS, b"W")

    def __exit__(self, typ, val, tb):
        if STATUS is not None:
            os.write(STATUS, b"E")
        if typ is not None and issubclass(typ, Exception) and os.environ.get("VERIF_TIMING"):
            traceback.print_exception(typ, val, tb)
        return typ is not None and issubclass(typ, Exception)


class stage:
    """with stage(ck, 'name'): prints timing to stderr when VERIF_TIMING is set"""
    def __init__(self, ck, name):
        self.ck, self.name = ck, name

    def __enter__(self):
        self.t = time.time()

    def __exit__(self, *a):
        if os.environ.get("VERIF_TIMING"):
            print(f"  [{self.name}] {time.time() - self.t:.1f}s", file=sys.stderr)
