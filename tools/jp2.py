"""Driver for the openjp2 conformance worker (harness/jp2): a pool of worker processes fed one session per line."""
import json, os, random, select, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import vlib

_dir = None


def build():
    global _dir
    if _dir is None:
        _dir = vlib.cargo_build("jp2")
    return os.path.join(_dir, "jp2w")


class Worker:
    def __init__(self, exe, scratch, env=None):
        self.exe, self.scratch, self.p = exe, scratch, None
        self.env = dict(os.environ, **env) if env else None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=self.scratch, bufsize=0, env=self.env)
        self.buf = b""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None


def run_all(sessions, timeout=30, nproc=None, env=None, fresh=False):
    """Run every session on the pool; result k is {"out":[...]} | {"crash":rc} | {"hang":true}.
    fresh: a process of its own for every session."""
    exe = build()
    res = [None] * len(sessions)
    it = iter(range(len(sessions)))
    lock = threading.Lock()
    with vlib.Scratch() as sc:
        def loop(_):
            w = Worker(exe, sc, env)
            try:
                while True:
                    with lock:
                        k = next(it, None)
                    if k is None:
                        return
                    s = sessions[k]
                    data = (json.dumps(s, separators=(",", ":")) + "\n").encode()
                    if w.p is None:
                        w.start()
                    f = threading.Thread(target=_feed, args=(w.p.stdin, data)) if len(data) > 60000 else None
                    if f:
                        f.start()
                    else:
                        _feed(w.p.stdin, data)
                    res[k] = _read(w, timeout)
                    if "hang" in res[k] or "crash" in res[k] or res[k].get("panic") or fresh:
                        w.stop()      # a session that panicked may leave locks behind: start afresh
                    if f:
                        f.join()
            finally:
                w.stop()
        with ThreadPoolExecutor(nproc or vlib.NCPU) as ex:
            list(ex.map(loop, range(nproc or vlib.NCPU)))
    return res


def _feed(f, data):
    try:
        v = memoryview(data)
        while len(v):
            n = f.write(v)
            v = v[n:]
    except (BrokenPipeError, ValueError, OSError):
        pass


def _read(w, timeout):
    end = time.time() + timeout
    while b"\n" not in w.buf:
        left = end - time.time()
        if left <= 0:
            return {"hang": True}
        r, _, _ = select.select([w.p.stdout], [], [], left)
        if r:
            d = os.read(w.p.stdout.fileno(), 1 << 20)
            if not d:
                return {"crash": w.p.wait()}
            w.buf += d
    line, w.buf = w.buf.split(b"\n", 1)
    return json.loads(line)
