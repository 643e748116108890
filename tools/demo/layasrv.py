"""Starts the server on a scratch image directory and talks to it."""
import atexit, os, socket, subprocess, sys, time
exe, scratch = sys.argv[1], sys.argv[2]
root = os.path.join(scratch, "images")
os.makedirs(os.path.join(root, "sub"))
for f in ("a.jp2", "sub/b.jp2"):
    open(os.path.join(root, f), "w").write("x")
PORT = 43594
def conn(timeout=10):
    s = socket.create_connection(("127.0.0.1", PORT), timeout=timeout)
    return s
def start():
    # another socket may own the port for a moment: try again
    for _ in range(30):
        p = subprocess.Popen([exe, "--path", root], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(100):
            try:
                conn().close()
                time.sleep(.2)
                if p.poll() is None:
                    return p
            except OSError:
                pass
            if p.poll() is not None:
                break
            time.sleep(.1)
        p.kill()
        p.wait()
        time.sleep(4)
    sys.exit("the server did not start")
srv = start()
atexit.register(srv.kill)
def get(path, timeout=10):
    """(status, body) of a fresh connection."""
    s = conn(timeout)
    s.sendall(b"GET " + path.encode() + b" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
    b = b""
    while True:
        d = s.recv(65536)
        if not d:
            break
        b += d
    s.close()
    h, _, body = b.partition(b"\r\n\r\n")
    return int(h.split()[1]) if h else 0, body.decode("utf-8", "replace")
def check(ok, what):
    if not ok:
        print("FAILED:", what)
        srv.kill()
        os._exit(1)
