"""Minimal blocking HTTP/1.1 client on raw sockets, and the server under test."""
import os, socket, subprocess, tempfile, time, struct


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Server:
    """`layaw serve` (one shard, chosen limit) or the real laya-server binary (real=True)."""

    def __init__(self, binary, directory, limit=1024, real=False, wait=20):
        self.real = real
        for attempt in range(30 if real else 8):
            # another socket may own the port for a moment (an ephemeral port of some client, closed up to a minute ago)
            self.port = 43594 if real else free_port()
            cmd = [binary, "--path", directory] if real else [binary, "serve", str(self.port), str(limit), directory]
            self.err = tempfile.TemporaryFile()
            self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err,
                                      start_new_session=True)
            end = time.time() + wait
            while time.time() < end:
                try:
                    socket.create_connection(("127.0.0.1", self.port), 1).close()
                    time.sleep(0.05 if real else 0)
                    if self.p.poll() is None:
                        return
                except OSError:
                    pass
                if self.p.poll() is not None:
                    break
                time.sleep(0.02)
            self.err.seek(0)
            text = self.err.read().decode("utf-8", "replace")
            self.stop()
            time.sleep(0.2 if not real else 5)
        raise RuntimeError("server did not start: " + text[:1000])

    def alive(self):
        return self.p.poll() is None

    def stop(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


class Conn:
    def __init__(self, port, timeout=15):
        self.s = socket.create_connection(("127.0.0.1", port), timeout)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""

    def send(self, data):
        self.s.sendall(data)

    def _fill(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError
        self.buf += d

    def recv(self, timeout=15, head=False):
        """One response: (status, body). Raises socket.timeout / EOFError / ConnectionError."""
        self.s.settimeout(timeout)
        while b"\r\n\r\n" not in self.buf:
            self._fill()
        h, self.buf = self.buf.split(b"\r\n\r\n", 1)
        lines = h.split(b"\r\n")
        status = int(lines[0].split()[1])
        hd = {}
        for l in lines[1:]:
            k, v = l.split(b":", 1)
            hd[k.strip().lower()] = v.strip()
        if head or status in (204, 304) or 100 <= status < 200:
            return status, b"", hd
        if b"content-length" in hd:
            n = int(hd[b"content-length"])
            while len(self.buf) < n:
                self._fill()
            body, self.buf = self.buf[:n], self.buf[n:]
        elif hd.get(b"transfer-encoding", b"").lower() == b"chunked":
            body = b""
            while True:
                while b"\r\n" not in self.buf:
                    self._fill()
                l, self.buf = self.buf.split(b"\r\n", 1)
                n = int(l.split(b";")[0], 16)
                while len(self.buf) < n + 2:
                    self._fill()
                body += self.buf[:n]
                self.buf = self.buf[n + 2:]
                if n == 0:
                    break
        else:
            try:
                while True:
                    self._fill()
            except EOFError:
                pass
            body, self.buf = self.buf, b""
        return status, body, hd

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass

    def reset(self):
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.close()


def get(path, extra=b"", method=b"GET"):
    if isinstance(path, str):
        path = path.encode()
    return method + b" " + path + b" HTTP/1.1\r\nHost: x\r\n" + extra + b"\r\n"


def fetch_all(port, paths, depth=16, timeout=20):
    """GET every path over pipelined keep-alive connections; returns list of (status, body) or (None, reason)."""
    out = []
    i = 0
    c = None
    while i < len(paths):
        chunk = paths[i:i + depth]
        got = 0
        try:
            if c is None:
                c = Conn(port, timeout)
            c.send(b"".join(get(p) for p in chunk))
            for _ in chunk:
                st, body, _h = c.recv(timeout)
                out.append((st, body))
                got += 1
        except (OSError, EOFError, ValueError, IndexError) as e:
            if got < len(chunk):
                out.append((None, type(e).__name__))
                got += 1
            if c:
                c.close()
            c = None
        i += got
    if c:
        c.close()
    return out
