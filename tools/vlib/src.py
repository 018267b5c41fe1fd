"""Sources that deliver a sample piece by piece and fail on demand: files and standard input under a preloaded
library, and an HTTP server on the loopback interface."""
import gzip, os, socket, struct, subprocess, threading, time
from .env import BUILD, VERIF, ToolError, scratch


def preload():
    """Path of the preloaded library (built here)."""
    src = os.path.join(VERIF, "tools", "c", "faultread.c")
    out = os.path.join(BUILD, "faultread.so")
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("building the read library failed:\n" + r.stderr)
        os.rename(tmp, out)
    return out


def schedule(cuts, intr, end, cap=60):
    """Schedule of a vector: pieces, interruptions (after how many pieces), and a failing end."""
    items = []
    for i, n in enumerate(cuts):
        items += ["E"] * intr.count(i) + [str(n)]
    items += ["E"] * intr.count(len(cuts))
    if end == "eio":
        items.append("X")
    return "_".join(items)


class Server:
    """Serves scripts: path /<i> runs scripts[i], a list of steps: bytes to send, ("sleep", s), "close", "reset", "stall"."""

    def __init__(self, scripts, procs=4):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(512)
        self.port = self.sock.getsockname()[1]
        self.scripts = scripts
        self.pids = []
        for _ in range(procs):
            pid = os.fork()
            if pid == 0:
                try:
                    self.serve()
                finally:
                    os._exit(0)
            self.pids.append(pid)
        self.sock.close()

    def url(self, i, scheme="http"):
        return "%s://127.0.0.1:%d/%d" % (scheme, self.port, i)

    def serve(self):
        parent = os.getppid()
        for _ in range(8):
            threading.Thread(target=self.loop, daemon=True).start()
        while os.getppid() == parent:
            time.sleep(0.5)
        os._exit(0)

    def loop(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            try:
                self.one(c)
            except OSError:
                pass
            finally:
                try:
                    c.close()
                except OSError:
                    pass

    def one(self, c):
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        c.settimeout(20)
        req = b""
        while b"\r\n\r\n" not in req:
            d = c.recv(65536)
            if not d:
                return
            req += d
            if req[:1] == b"\x16":
                return          # a TLS client
        path = req.split(b" ", 2)[1].decode()
        script = self.scripts[int(path.lstrip("/").split("?")[0])]
        for step in script:
            if isinstance(step, bytes):
                c.sendall(step.replace(b"@PORT@", str(self.port).encode()))
            elif step == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                return
            elif step == "close":
                break
            else:
                time.sleep(step)
        try:
            c.shutdown(socket.SHUT_WR)
            while c.recv(65536):
                pass
        except OSError:
            pass

    def stop(self):
        for p in self.pids:
            try:
                os.kill(p, 9)
                os.waitpid(p, 0)
            except OSError:
                pass


REASON = {200: "OK", 201: "Created", 404: "Not Found", 500: "Internal Server Error"}


def script(doc, kind, status, cuts, end, gap=0.0004):
    """Server script of a transfer."""
    head = "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\n" % (status, REASON.get(status, "Status"))
    if kind == "length":
        head += "Content-Length: %d\r\n" % len(doc)
    elif kind == "chunked":
        head += "Transfer-Encoding: chunked\r\n"
    else:
        head += "Connection: close\r\n"
    steps = [head.encode() + b"\r\n"]
    at = 0
    for i, n in enumerate(cuts):
        piece = doc[at:at + n]
        at += n
        if end == "cut" and i == len(cuts) - 1:
            steps.append(b"%x\r\n%s" % (n + 1, piece))
        else:
            steps.append((b"%x\r\n%s\r\n" % (n, piece)) if kind == "chunked" else piece)
        if gap:
            steps.append(gap)
    if end == "last":
        steps.append(b"0\r\n\r\n")
    elif end == "bad":
        steps.append(b"zz\r\n[]\r\n")
    steps.append("reset" if end == "reset" else "close")
    return steps


def whole_scripts(doc, other):
    """(what, ok, script) for encoded bodies, redirects and malformed responses. ok: the sample arrives completely."""
    z = gzip.compress(doc, 6)
    out = []

    def resp(body, extra="", status=200, length=None, close=True):
        h = "HTTP/1.1 %d X\r\n%s" % (status, extra)
        if length is not False:
            h += "Content-Length: %d\r\n" % (len(body) if length is None else length)
        if close:
            h += "Connection: close\r\n"
        return h.encode() + b"\r\n" + body
    gz = "Content-Encoding: gzip\r\n"
    out.append(("gzip", True, [resp(z, gz), "close"]))
    out.append(("gzip until close", True, [resp(z, gz, length=False), "close"]))
    half = len(z) // 2
    out.append(("gzip chunked", True, [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n" + gz.encode() + b"\r\n" + b"%x\r\n%s\r\n" % (half, z[:half])
                                       + b"%x\r\n%s\r\n0\r\n\r\n" % (len(z) - half, z[half:]), "close"]))
    for cut in sorted({0, 5, 10, 12, half, len(z) - 9, len(z) - 8, len(z) - 5, len(z) - 1} & set(range(len(z)))):
        out.append(("gzip cut at %d, until close" % cut, False, [resp(z[:cut], gz, length=False), "close"]))
        out.append(("gzip cut at %d, length of the whole" % cut, False, [resp(z[:cut], gz, length=len(z)), "close"]))
        out.append(("gzip cut at %d, length of the part" % cut, False, [resp(z[:cut], gz), "close"]))
    crc = z[:-8] + bytes([z[-8] ^ 1]) + z[-7:]
    out.append(("gzip with a wrong checksum", False, [resp(crc, gz), "close"]))
    size = z[:-4] + bytes([z[-4] ^ 1]) + z[-3:]
    out.append(("gzip with a wrong size", False, [resp(size, gz), "close"]))
    out.append(("announced gzip, plain body", False, [resp(doc, gz), "close"]))
    out.append(("surplus after the announced length", True, [resp(doc + b"]]xx", length=len(doc)), "close"]))
    out.append(("in one packet per byte", True, [resp(b"", length=len(doc))] + [doc[i:i + 1] for i in range(len(doc))] + ["close"]))
    for code in (301, 302, 303, 307, 308):
        out.append(("redirect %d" % code, True, [resp(b"gone", "Location: /%d\r\n" % other, code), "close"]))
        out.append(("redirect %d, absolute" % code, True, [resp(b"[0]", "Location: http://127.0.0.1:@PORT@/%d\r\n" % other, code), "close"]))
    for code in (400, 401, 403, 404, 405, 408, 410, 418, 429, 451, 500, 501, 502, 503, 504, 511, 599):
        out.append(("status %d" % code, False, [resp(doc, "", code), "close"]))
        out.append(("status %d, until close" % code, False, [resp(doc, "", code, length=False), "close"]))
    out.append(("no response", False, ["close"]))
    out.append(("reset before the response", False, ["reset"]))
    out.append(("no status line", False, [b"\r\n\r\n" + doc, "close"]))
    out.append(("not HTTP", False, [doc, "close"]))
    out.append(("half a header", False, [b"HTTP/1.1 200 OK\r\nContent-Ty", "close"]))
    out.append(("bad chunk size", False, [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-5\r\n" + doc + b"\r\n0\r\n\r\n", "close"]))
    out.append(("chunk longer than what is there", False, [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s" % (len(doc) + 1, doc), "close"]))
    out.append(("chunk without its end", False, [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s" % (len(doc), doc), "close"]))
    return out
