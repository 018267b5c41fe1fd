"""Client for the test driver: runs requests in several driver processes, survives crashes and hangs."""
import json, os, select, subprocess, threading, time
from . import env as env_
from .env import ToolError, scratch


class Proc:
    def __init__(self, argv, cwd=None, env=None):
        self.argv, self.cwd, self.env = argv, cwd, env
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=self.cwd, env=self.env)
        self.buf = b""

    def close(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, line, timeout):
        """Answer line, or None after a crash ("crash") or time-out ("hang")."""
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None, "crash"
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None, "hang"
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                chunk = os.read(self.p.stdout.fileno(), 1 << 20)
                if not chunk:
                    return None, "crash"
                self.buf += chunk
        ans, self.buf = self.buf.split(b"\n", 1)
        return ans, None


def run(binary, requests, nproc=8, timeout=20, argv=None, as_request=None, cwd=None, env=None):
    """Answers in the order of the requests; {"crash": ...} / {"hang": ...} where there is none."""
    n = len(requests)
    results = [None] * n
    nproc = max(1, min(nproc, n))
    lock = threading.Lock()
    nxt = [0]
    step = 16
    errors = []

    def work():
        proc = Proc(argv or [binary], cwd=cwd or scratch(), env=env)
        try:
            while True:
                with lock:
                    i = nxt[0]
                    nxt[0] += step
                if i >= n or errors or len(env_.HANGS) >= env_.ENOUGH:
                    return
                for j in range(i, min(i + step, n)):
                    if len(env_.HANGS) >= env_.ENOUGH:
                        return
                    req = requests[j]
                    line = (as_request(req) if as_request else json.dumps(dict(req, id=j))).encode() + b"\n"
                    ans, fail = proc.ask(line, timeout)
                    if fail:
                        proc.close()
                        if fail == "hang":
                            env_.hung(line.decode("utf-8", "replace"))
                        results[j] = {fail: True}
                    else:
                        results[j] = json.loads(ans)
                        if "drv" in results[j]:
                            errors.append(results[j]["drv"])
        except Exception as e:  # noqa
            errors.append(repr(e))
        finally:
            proc.close()

    threads = [threading.Thread(target=work) for _ in range(nproc)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise ToolError("driver: " + str(errors[0]))
    env_.still()
    return results
