"""Shared machinery: TLC runner, trace validation, model-graph test generation, evidence.

Every check follows the same three steps:
  1. TLC explores MC_<spec> exhaustively inside small constants (invariants of the design);
     the same run prints every transition, from which covering walks are generated and
     executed on the real code;
  2. seeded random drivers execute long histories at real sizes on the real code;
  3. the traces of both (operation, outcome, observed state) are replayed by TLC through the
     same Apply operator; any event the specification does not allow is a violation.
The oracle is always the specification; Python only drives the code, records, and parses bytes.
"""
import traceback
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PYTHON = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))


class OpTimeout(BaseException):
    """An operation of the code under test did not come back (raised by SIGPROF)."""


def limit_output():
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))


class TlcError(Exception):
    pass


def pick(quick, thorough):
    return thorough if THOROUGH else quick


def rng(*salt):
    return random.Random("%d|%s" % (SEED, "|".join(str(s) for s in salt)))


class alarm(object):
    """Bound one call of the code under test; a hang becomes an observable outcome.

    In seconds of processor time: a busy or stalled machine is no hang."""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(*a):
            raise OpTimeout()
        self.old = signal.signal(signal.SIGPROF, handler)
        self.t = time.process_time()
        self.left = signal.setitimer(signal.ITIMER_PROF, 0)[0]        # seconds an enclosing alarm still had
        signal.setitimer(signal.ITIMER_PROF, min(self.seconds, self.left or self.seconds))

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        if self.left:
            signal.setitimer(signal.ITIMER_PROF, max(.5, self.left - (time.process_time() - self.t)))
        return False


def outcome(fn, *args, **kw):
    """-> ('ok', value) | ('err', exception name) | ('hang', '')"""
    try:
        with alarm(60 if outcome.hangs is None or outcome.hangs.value < 3 else 5):
            return "ok", fn(*args, **kw)
    except OpTimeout:
        if outcome.hangs is not None:
            outcome.hangs.value += 1
        return "hang", ""
    except Exception as e:  # noqa: every exception of the code under test is an outcome
        outcome.last = traceback.format_exc()
        return "err", type(e).__name__

outcome.last = ""
outcome.hangs = None     # calls that did not come back, in all workers


class Tlc(object):
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        if m is None:
            for m in re.finditer(r"The number of states generated: ([\d,]+)", out):
                pass
            self.generated = int(m.group(1).replace(",", "")) if m else 0
            self.distinct = self.generated
        else:
            self.generated = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))


class Check(object):
    def __init__(self, prop, technique_assumptions=()):
        self.prop = prop
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.violations = []      # (what, detail)
        self.known = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = list(technique_assumptions)
        self.known_file = os.path.join(VERIF, "known_findings.json")

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text=None, env=None, args=(), workers=4, timeout=700, heap="4g"):
        """Run TLC on spec/<module>.tla with the given (or the committed) configuration."""
        d = tempfile.mkdtemp(dir=self.scratch)
        for n in os.listdir(SPEC):
            if n.endswith(".tla") or n.endswith(".cfg"):
                shutil.copy(os.path.join(SPEC, n), d)
        cfg = module + ".cfg"
        if cfg_text is not None:
            with open(os.path.join(d, cfg), "w") as f:
                f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-deadlock", "-config", cfg] + list(args) + [module + ".tla"]
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as f:
            try:
                rc = subprocess.call(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout,
                                     preexec_fn=limit_output)
            except subprocess.TimeoutExpired:
                rc = 255
        with open(outp, errors="replace") as f:
            out = f.read()
        shutil.rmtree(d, ignore_errors=True)
        return Tlc(out, rc)

    def model_check(self, module, cfg=None, subst=(), timeout=600, workers=4, edges=False, heap="4g"):
        """Exhaustive run of the design. A failure here is an error of the specification itself
        (the code is not involved), so it stops the check with a harness error."""
        with open(os.path.join(SPEC, (cfg or module) + ".cfg")) as f:
            text = f.read()
        for a, b in dict(subst).items():       # replace one constant's value
            text, n = re.subn(r"(?m)^(\s*%s = ).*$" % re.escape(a), lambda m: m.group(1) + b, text)
            if n != 1:
                raise RuntimeError("constant %s not in %s" % (a, cfg))
        if not edges:
            text = re.sub(r"(?m)^ACTION_CONSTRAINT Edge$", "", text)
        r = self.tlc(module, text, timeout=timeout, workers=workers, heap=heap)
        if "Model checking completed. No error has been found." not in r.out:
            raise TlcError("model %s does not check:\n%s" % (module, r.out[-6000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", []).append(
            {"module": module, "config": cfg or module, "constants": dict(subst),
             "distinct_states": r.distinct, "transitions": r.generated})
        if edges == "raw":
            return r.out
        if edges:
            return parse_edges(r.out)
        return None

    def validate(self, module, traces, shards=4, label=None, timeout=800):
        """Replay recorded traces through the specification. traces: list of
        {"init": <json>, "ev": [<event>, ...], ...}. Returns the rejected ones."""
        traces = [t for t in traces if t["ev"]]
        if not traces and self.violations:
            return []
        if not traces:
            raise RuntimeError("no traces to validate")
        bad = []
        # pack into shards so that a JSON file stays small
        groups, cur, n = [], [], 0
        limit = 6000
        for i, t in enumerate(traces):
            if cur and n + len(t["ev"]) > limit:
                groups.append(cur); cur, n = [], 0
            cur.append(i); n += len(t["ev"])
        groups.append(cur)

        def one(g):
            fd, path = tempfile.mkstemp(suffix=".json", dir=self.scratch)
            with os.fdopen(fd, "w") as f:
                json.dump([{"init": traces[i]["init"], "ev": traces[i]["ev"]} for i in g], f)
            r = self.tlc(module, env={"TRACES": path}, workers=2, timeout=timeout)
            os.unlink(path)
            return g, r
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(one, groups))
        for g, r in results:
            done = set(int(x) for x in re.findall(r'<<"DONE", (\d+)>>', r.out))
            rej = dict((int(a), (int(b), c)) for a, b, c in
                       re.findall(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', r.out))
            if "Model checking completed. No error has been found." not in r.out or \
                    len(done | set(rej)) != len(g):
                keep = "/tmp/vf_last_tlc_error.txt"
                raise TlcError("trace validation with %s did not finish:\n%s" % (module, excerpt(r.out)))
            self.states += r.distinct
            self.transitions += r.generated
            for k, (line, why) in sorted(rej.items()):
                t = traces[g[k - 1]]
                bad.append((t, line, why))
        self.traces += len(traces)
        self.events += sum(len(t["ev"]) for t in traces)
        d = self.extra.setdefault("trace_sets", [])
        d.append({"spec": module, "label": label or "", "traces": len(traces),
                  "events": sum(len(t["ev"]) for t in traces), "rejected": len(bad)})
        for t in traces[:1]:
            self.samples.append({"spec": module, "label": label or "", "init": t["init"], "first_events": t["ev"][:3]})
        for t, line, why in bad:
            self.report(why, {"spec": module, "label": label or t.get("label", ""), "init": t["init"],
                              "failing_event_index": line, "clause": why,
                              "events": t["ev"][max(0, line - 30):line],
                              "note": t.get("note", "")}, key=t.get("key"))
        return bad

    def sharded(self, fn, items, procs=8):
        """[fn(i) for i in items] in forked workers. An exception that escapes from the code under
        test where the driver expects none is itself a violation; one of the harness stops the check."""
        import multiprocessing as mp
        global _work
        _work = fn
        outcome.hangs = outcome.hangs or mp.Value("i", 0)
        with mp.get_context("fork").Pool(procs) as pool:
            res = pool.map(_call, items, chunksize=1)
        out = []
        for r in res:
            if r is Skip:
                continue
            if isinstance(r, Crash):
                if not r.inside:
                    raise RuntimeError("harness: " + r.text)
                self.report("the code raised where no operation may fail", {"item": r.item, "traceback": r.text[-1500:]})
            else:
                out.append(r)
        return out

    # -------------------------------------------------------------- verdicts
    def report(self, what, detail, key=None):
        k = known_match(self.known_file, self.prop, what, key)
        if k is not None:
            self.known.append(k)
            return
        self.violations.append((what, detail))

    def expect(self, cond, what, detail=None, key=None):
        if not cond:
            self.report(what, detail or {}, key)

    def finish(self):
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking",
            "coverage": dict({
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "trace_events": self.events,
                "samples": trim(self.samples)[:6],
            }, **self.extra),
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        code = 0
        rp = os.path.join(d, self.prop + ".replay.json")
        if os.path.exists(rp):
            os.unlink(rp)
        if self.violations:
            rp = os.path.join(d, self.prop + ".replay.json")
            with open(rp, "w") as f:
                json.dump([{"what": w, "detail": x} for w, x in self.violations[:20]], f, indent=1, default=str)
            for w, x in self.violations[:5]:
                last = x.get("events", [None])[-1] if isinstance(x, dict) and x.get("events") else x
                print("violated: %s %s" % (w, json.dumps(trim(last, 120), default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            code = 1
        else:
            print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        self.cleanup()
        sys.stdout.flush()
        return code

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def excerpt(out):
    """TLC's error message and the end of the trace after it"""
    i = out.find("Error:")
    return out[i:i + 2500] + "\n[...]\n" + out[-2500:] if i >= 0 else out[-5000:]


def trim(x, n=400):
    """Keep evidence samples readable."""
    if isinstance(x, dict):
        return dict((k, trim(v, n)) for k, v in list(x.items())[:30])
    if isinstance(x, (list, tuple)):
        r = [trim(v, n) for v in list(x)[:30]]
        return r
    if isinstance(x, str) and len(x) > n:
        return x[:n] + "..."
    return x


def known_match(path, prop, what, key):
    if key is None:
        return None
    try:
        with open(path) as f:
            data = json.load(f)
    except IOError:
        return None
    for k in data.get("known", []):
        if k["property"] == prop and k["key"] == key and k["what"] == what:
            return "%s: %s" % (k["key"], k["description"])
    return None


def main(prop, fn, assumptions=()):
    c = Check(prop, assumptions)
    try:
        fn(c)
        code = c.finish()
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        c.cleanup()
        code = 2
    sys.exit(code)


class Crash(object):
    def __init__(self, text, inside, item):
        self.text, self.inside, self.item = text, inside, item


_work = None


class Skip(object):
    "what enough calls that never ended left out: those are violations by themselves"


def _call(item):
    if outcome.hangs.value >= 12:
        return Skip
    try:
        with alarm(300):
            return _work(item)
    except OpTimeout:
        outcome.hangs.value += 1
        return Crash("did not come back within 300 s", True, repr(item)[:300])
    except Exception:
        tb = traceback.format_exc()
        return Crash(tb, os.path.join(REPO, "src") in tb, repr(item)[:300])


# ------------------------------------------------------------ model graph
def parse_edges(out):
    """Lines printed by an ACTION_CONSTRAINT: <<"EDGE", "<from>", "<op json>", "<to>">>"""
    edges = []
    for m in re.finditer(r'^<<"EDGE", "(.*)", "(.*)", "(.*)">>$', out, re.M):
        a, op, b = (s.replace('\\"', '"').replace("\\\\", "\\") for s in m.groups())
        edges.append((hashlib.md5(a.encode()).hexdigest(), op, hashlib.md5(b.encode()).hexdigest()))
    return edges


def parse_printed(out, tag):
    """the JSON printed as <<tag, "...">>"""
    m = re.search(r'^<<"%s", "(.*)">>$' % tag, out, re.M)
    return json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))


def parse_init(out):
    m = re.search(r'^<<"INIT", "(.*)">>$', out, re.M)
    return None if m is None else hashlib.md5(m.group(1).replace('\\"', '"').replace("\\\\", "\\").encode()).hexdigest()


def covering_walks(edges, init=None, max_len=60, salt=""):
    """Walks from the initial state that together take every transition of the model graph."""
    succ = {}
    indeg = {}
    for a, op, b in sorted(set(edges)):
        succ.setdefault(a, []).append((op, b))
        indeg.setdefault(b, 0)
    if init is None:
        init = edges[0][0]
    r = rng("walks", salt)
    todo = {}
    for a in succ:
        l = list(range(len(succ[a])))
        r.shuffle(l)
        todo[a] = l
    left = sum(len(v) for v in todo.values())
    total = left
    walks = []
    from collections import deque

    def nearest(src, budget):
        """shortest path to a state with an untaken transition"""
        if todo.get(src):
            return []
        prev = {src: None}
        q = deque([(src, 0)])
        while q:
            s, d = q.popleft()
            if d >= budget:
                continue
            for i, (op, b) in enumerate(succ.get(s, ())):
                if b in prev:
                    continue
                prev[b] = (s, op)
                if todo.get(b):
                    path = []
                    x = b
                    while prev[x] is not None:
                        path.append((prev[x][1], x))
                        x = prev[x][0]
                    return path[::-1]
                q.append((b, d + 1))
        return None

    reach_guard = 0
    while left:
        cur, walk = init, []
        progressed = False
        while len(walk) < max_len:
            if todo.get(cur):
                i = todo[cur].pop()
                left -= 1
                progressed = True
                op, b = succ[cur][i]
                walk.append(op)
                cur = b
            else:
                p = nearest(cur, max(1, (max_len - len(walk))) if progressed else 10 ** 9)
                if not p:
                    break
                for op, b in p:
                    walk.append(op)
                    cur = b
        if not progressed:
            break
        walks.append([json.loads(o) for o in walk])
    return walks, total, total - left


# ------------------------------------------------------------- run lengths
def rle(data):
    """bytes -> [[byte, count], ...]"""
    data = bytes(data)
    out = []
    i, n = 0, len(data)
    while i < n:
        b = data[i:i + 1]
        # find the end of the run, quickly for long runs
        step = 1
        j = i + 1
        while j < n:
            k = min(n, j + step)
            if data[j:k] == b * (k - j):
                j = k
                step = min(step * 2, 1 << 20)
            elif step == 1:
                break
            else:
                step = 1
        out.append([b[0], j - i])
        i = j
    return out


def unrle(runs):
    return b"".join(bytes([b]) * n for b, n in runs)
