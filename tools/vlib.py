"""Shared plumbing: building the harness, running TLC, verdicts and evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4
T0 = time.time()


class ToolError(Exception):
    pass


_tlc_failed = threading.Event()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_build(crate, profile="dev", bins=None):
    """Build /verif/harness/<crate> against /repo's working tree; return the binary directory."""
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               RUSTFLAGS="--cfg laya_verif --cfg openjp2_verif -Awarnings",
               CARGO_TARGET_DIR=os.path.join(TARGET, crate), CARGO_TERM_COLOR="never")
    t = time.time()
    cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness", crate), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        raise ToolError(f"harness {crate} does not build")
    log(f"built {crate} ({profile}) in {time.time()-t:.1f}s")
    return os.path.join(TARGET, crate, "debug" if profile == "dev" else profile)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        tail = out[-4000:]      # digits in long printed values would make these searches quadratic
        m = re.findall(r"\b([\d,]+) states generated, ([\d,]+) distinct states found", tail)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The number of states generated: ([\d,]+)", tail)   # -simulate
        if m and not self.generated:
            self.generated = int(m[-1].replace(",", ""))
        # PrintT(<<"TAG", a, b>>) lines
        self.accepted = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))

    def prints(self, tag):
        """JSON payloads printed as PrintT("TAG " \\o ToJson(x))."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + " "):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res


def tlc(module, cfg=None, env=None, workers=1, timeout=600, args=(), heap="2g", ok=(0,), dfs=False):
    """Run TLC on spec/<module>.tla. Raises ToolError on anything but the return codes in ok."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir="/tmp")
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={meta}"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JARS, "tlc2.TLC", "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-workers", str(workers),
            "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult(rc, out, time.time() - t)
    if ok is not None and rc not in ok:
        k = max(0, out.find("Error:")) if rc < 150 else 0
        if not _tlc_failed.is_set():
            _tlc_failed.set()
            log(out[k:k + 3000] if k else out[-3000:])
        raise ToolError(f"TLC failed on {module} (rc={rc})")
    return r


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")


def read_ndjson(path):
    return [json.loads(l) for l in open(path)]


REASONS = {}


def judge(module, rows, scratch, cfg=None, env=None, shards=None, timeout=450, heap="3g", var="OBS", **kw):
    """Trace validation: give every row to the trace specification, in parallel shards.
    Returns (indices of rejected rows, states, transitions)."""
    n = len(rows)
    if n == 0:
        return [], 0, 0
    shards = shards or (NCPU)
    shards = max(1, min(shards, n))
    parts = [list(range(k, n, shards)) for k in range(shards)]

    slow = []

    def one(k):
        f = os.path.join(scratch, f"{module}-{os.getpid()}-{id(rows)}-{k}.ndjson")
        e = dict(env or {})
        e[var] = f
        todo, bad, st, tr = parts[k], [], 0, 0
        while todo:
            write_ndjson(f, [rows[j] for j in todo])
            try:
                r = tlc(module, cfg=cfg, env=e, timeout=timeout, heap=heap, ok=None, **kw)
            except ToolError as x:
                slow.append(x)      # what the other shards rejected still counts
                return bad, st, tr
            finally:
                os.unlink(f)
            st, tr = st + r.distinct, tr + r.generated
            if os.environ.get("VERIF_TIMES"):
                log(f"{module} shard {k}: {r.wall:.1f}s")
            if r.rc == 0:
                for w in r.prints("WHY"):
                    if isinstance(w, dict) and "i" in w:
                        REASONS.setdefault(module, {})[todo[w["i"] - 1]] = w
                return bad + [j for n, j in enumerate(todo) if n + 1 not in r.accepted], st, tr
            # An observation on which the specification has no value is not a behaviour of it
            m = re.findall(r"^(?:/\\ )?i = (\d+)", r.out[max(0, r.out.find("Error:")):], re.M)
            if not m or r.rc >= 150 or "OutOfMemory" in r.out:
                log(r.out[max(0, r.out.find("Error:")):][:3000])
                raise ToolError(f"TLC failed on {module} (rc={r.rc})")
            n = int(m[-1]) - 1
            log(f"{module}: observation {todo[n]}: " + r.out[r.out.find("Error:"):][:300].replace("\n", " "))
            bad.append(todo[n])
            todo = todo[:n] + todo[n + 1:]
            if len(bad) >= 3:
                return bad, st, tr
        return bad, st, tr
    rej, st, tr = [], 0, 0
    with ThreadPoolExecutor(NCPU) as ex:
        for rr, s1, t1 in ex.map(one, range(shards)):
            rej += rr
            st += s1
            tr += t1
    if slow and not rej:
        raise slow[0]
    return sorted(rej), st, tr


def generate(module, rows, scratch, timeout=350, heap="3g", **kw):
    """Let the specification compute one value for every row (module prints OUT {i, ..})."""
    n = len(rows)
    shards = max(1, min(NCPU, n))
    res = [None] * n

    def one(k):
        mine = list(range(k, n, shards))
        f = os.path.join(scratch, f"{module}-{os.getpid()}-{id(rows)}-{k}.ndjson")
        write_ndjson(f, [rows[j] for j in mine])
        r = tlc(module, env={"OBS": f}, timeout=timeout, heap=heap, **kw)
        if os.environ.get("VERIF_TIMES"):
            log(f"{module} shard {k}: {r.wall:.1f}s")
        os.unlink(f)
        for w in r.prints("OUT"):
            res[mine[w["i"] - 1]] = w
        return r.distinct, r.generated
    with ThreadPoolExecutor(NCPU) as ex:
        c = list(ex.map(one, range(shards))) if n else []
    return res, sum(x[0] for x in c), sum(x[1] for x in c)


class Check:
    """Collects violations for one property and writes its evidence."""

    current = None

    def __init__(self, prop, level, assumptions=()):
        Check.current = self
        self.prop, self.level = prop, level
        self.viol = []
        self.cov = {}
        self.samples = []
        self.assumptions = list(assumptions)
        self.known = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    self.known.append((m.group(2), m.group(3)))
        self.known_seen = {}

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, what, data, key=None):
        for k, text in self.known:
            if key is not None and k == key:
                self.known_seen[k] = text
                return
        self.viol.append((what, data))

    def finish(self):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["(none)"]
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.viol)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in self.known_seen.items():
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        for n, (what, data) in enumerate(self.viol[:10]):
            path = os.path.join(EVID, "replays", f"{self.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, "replay": data}, f, indent=1)
            log(f"  {what}")
            print(f"VIOLATION property={self.prop} replay={path}")
        sys.stdout.flush()
        log(f"{self.prop}: {len(self.viol)} violation(s), {json.dumps({k: v for k, v in cov.items() if k != 'samples'})}, {time.time()-T0:.1f}s")
        return 1 if self.viol else 0
