"""Just enough HTTP/2 (prior knowledge, cleartext) to open streams and match answers to them."""
import socket, struct, time

STATIC_STATUS = {8: 200, 9: 204, 10: 206, 11: 304, 12: 400, 13: 404, 14: 500}


def frame(t, flags, sid, payload):
    return struct.pack(">I", len(payload))[1:] + bytes([t, flags]) + struct.pack(">I", sid) + payload


def hstr(b):
    assert len(b) < 127 * 200
    return hint(len(b), 7, 0) + b


def hint(n, bits, first):
    m = (1 << bits) - 1
    if n < m:
        return bytes([first | n])
    out = [first | m]
    n -= m
    while n >= 128:
        out.append(n % 128 + 128)
        n //= 128
    out.append(n)
    return bytes(out)


def rint(d, k, bits):
    m = (1 << bits) - 1
    n = d[k] & m
    k += 1
    if n < m:
        return n, k
    sh = 0
    while True:
        n += (d[k] & 127) << sh
        sh += 7
        k += 1
        if not d[k - 1] & 128:
            return n, k


class H2:
    def __init__(self, sock):
        self.s = sock
        self.buf = b""
        self.dyn = []           # names by dynamic index (status or None)
        self.resp = {}          # sid -> [status, body, ended]

    def hello(self):
        return b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" + frame(4, 0, 0, b"")

    def request(self, sid, path, method=b"GET"):
        m = b"\x82" if method == b"GET" else b"\x83" if method == b"POST" else b"\x02" + hstr(method)
        return frame(1, 5, sid, m + b"\x86" + b"\x04" + hstr(path) + b"\x01" + hstr(b"x"))

    def headers(self, d):
        k, status = 0, None
        while k < len(d):
            b = d[k]
            if b & 0x80:
                n, k = rint(d, k, 7)
                st = STATIC_STATUS.get(n) if n < 62 else self.dyn[n - 62]
                status = status or st
                continue
            if b & 0xE0 == 0x20:
                _, k = rint(d, k, 5)
                continue
            inc = b & 0xC0 == 0x40
            n, k = rint(d, k, 6 if inc else 4)
            isst = 8 <= n <= 14
            if n == 0:
                ln, k = rint(d, k, 7)
                k += ln
            ln, k = rint(d, k, 7)
            v = d[k:k + ln]
            k += ln
            st = None
            if isst:
                st = int(v) if v.isdigit() else 599      # Huffman-coded: some other status
                status = status or st
            if inc:
                self.dyn.insert(0, st)
        return status

    def pump(self, timeout):
        """Read once; returns list of finished (sid, status, body); raises EOFError / timeout."""
        self.s.settimeout(timeout)
        d = self.s.recv(65536)
        if not d:
            raise EOFError
        self.buf += d
        done = []
        while len(self.buf) >= 9:
            n = int.from_bytes(self.buf[:3], "big")
            if len(self.buf) < 9 + n:
                break
            t, fl = self.buf[3], self.buf[4]
            sid = int.from_bytes(self.buf[5:9], "big") & 0x7FFFFFFF
            p = self.buf[9:9 + n]
            self.buf = self.buf[9 + n:]
            if t == 4 and not fl & 1:
                self.s.sendall(frame(4, 1, 0, b""))
            elif t == 6 and not fl & 1:
                self.s.sendall(frame(6, 1, 0, p))
            elif t == 1:
                r = self.resp.setdefault(sid, [0, b""])
                r[0] = r[0] or self.headers(p) or 598
            elif t == 0:
                self.resp.setdefault(sid, [0, b""])[1] += p
            elif t == 3:
                done.append((sid, 1, b"RST"))
                continue
            elif t == 7:
                done.append((0, 1, b"GOAWAY"))
                continue
            if t in (0, 1) and fl & 1:
                done.append((sid, *self.resp[sid]))
        return done
