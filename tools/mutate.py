"""mutate.py list|run: small changes to the sources of /repo, made and checked in private copies (own mount namespaces).

A development tool: no check uses it. A mutant that does not compile or fails the repository's tests is dropped; for the others the
checks of the file are run in order until one reports a violation. What none reports is written down to be looked at.
usage: mutate.py list [FILE...]            number of mutants per file
       mutate.py run OUT SLOTS N SEED [FILE...]
       mutate.py hand OUT SLOTS LIST          changes written by hand: a JSON list of {id, file, edits: [[old, new]...], checks}
       mutate.py again OUT SLOTS EARLIER      those that none reported in the file EARLIER
"""
import json, os, random, re, signal, subprocess, sys, threading, time

ROOT = "/tmp/mut"
S = "json_typegen_shared/src/"
W = "json_typegen_web/src/"
CHECKS = {
    S + "inference/jsonlex.rs": "C05 C04 C06 C29 C25", S + "inference/jsoninfer.rs": "C02 C07 C08 C09 C29 C05 C01 C28 C25",
    S + "shape.rs": "C02 C19 C03 C08 C28 C10", S + "hints.rs": "C08 C07 C25", S + "lib.rs": "C21 C26 C22 C29 C06 C23 C05 C25",
    S + "parse.rs": "C20 C29 C21 C25", S + "options.rs": "C20 C30 C11 C21", S + "util.rs": "C31 C17 C26 C18", S + "to_singular.rs": "C31 C25 C17 C18",
    S + "generation/rust.rs": "C10 C11 C31 C17 C18 C26 C19 C25", S + "generation/python.rs": "C16 C31 C17 C18 C19 C11 C25",
    S + "generation/kotlin.rs": "C15 C31 C25 C17 C18 C19 C11", S + "generation/typescript.rs": "C12 C31 C18 C19 C17 C25",
    S + "generation/typescript_type_alias.rs": "C12 C17 C25", S + "generation/zod_schema.rs": "C14 C25", S + "generation/json_schema.rs": "C13 C25",
    S + "generation/value.rs": "C13 C12 C16 C15 C17 C25", S + "generation/shape.rs": "C02 C08 C28 C25", S + "generation/serde_case.rs": "C17 C11",
    S + "sql.rs": "C23", S + "progress.rs": "C06 C04 C22", "json_typegen_cli/src/main.rs": "C22 C21 C25",
    "json_typegen_wasm/src/lib.rs": "C21 C25", "json_typegen/src/lib.rs": "C21 C25",
    W + "App.svelte": "C24 C30 C27", W + "lib/worker.ts": "C24 C30 C27", W + "lib/localstorage.ts": "C27 C24", W + "lib/file.ts": "C24",
}
RULES = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"(?<![\w!])!(?=[a-zA-Z(*])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r"\.trim\(\)", ""), (r"\.trim_start\(\)", ""), (r"\.trim_end\(\)", ""), (r"\.into_optional\(\)", ""), (r"\.into_nullable\(\)", ""),
    (r"to_ascii_uppercase", "to_ascii_lowercase"), (r"to_ascii_lowercase", "to_ascii_uppercase"), (r"starts_with", "ends_with"),
    (r"\.skip\(1\)", ""), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " = "),
    (r"(?<=if )(?!let)[^{]+(?= \{)", "true"), (r"(?<=if )(?!let)[^{]+(?= \{)", "false"),
    (r"\bSome\((\w+)\)(?=[,;)]*$)", "None"), (r"Optional\(", "Nullable("), (r"Nullable\(", "Optional("), (r"\.is_empty\(\)", ".len() == 1"),
    (r"\.len\(\)", ".len() + 1"), (r"\.rev\(\)", ""), (r"\.sort\(\)", ".reverse()"), (r"\?\?", "||"), (r"=== ", "!== "), (r"!== ", "=== "),
    (r"\bmap\(", "filter_map("), (r"\bfirst\(\)", "last()"), (r"unwrap_or\(([^()]*)\)", r"unwrap_or_default()"),
]


def sources(files):
    for f in files or CHECKS:
        text = open("/repo/" + f).read()
        cut = re.search(r"^#\[(cfg\(test\)|test)\]", text, re.M)
        lines = (text[:cut.start()] if cut else text).split("\n")
        if f.endswith(".svelte"):
            lines = lines[:next(i for i, x in enumerate(lines) if "</script>" in x)]
        yield f, text, lines


def mutants(files=()):
    for f, text, lines in sources(files):
        seen = set()
        for n, line in enumerate(lines):
            s = line.strip()
            if not s or s.startswith(("//", "#[", "use ", "import ", "mod ", "pub mod", "///", "export type", "type ", "#!")):
                continue
            out = []
            for a, b in RULES:
                for m in re.finditer(a, line):
                    if m.group(0):
                        out.append(line[:m.start()] + m.expand(b) + line[m.end():])
            for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w\"'.])", line):
                k = int(m.group(1))
                out += [line[:m.start()] + str(k + 1) + line[m.end():]] + ([line[:m.start()] + str(k - 1) + line[m.end():]] if k else [])
            for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', line):
                x = m.group(1)
                y = x[:-1] if x[-1] not in "}\\" and (len(x) < 2 or x[-2] != "\\") else x + "q"
                out.append(line[:m.start(1)] + y + line[m.end(1):])
                if " " not in x and "{" not in x:
                    out.append(line[:m.start(1)] + "q" + x + line[m.end(1):])
            for m in re.finditer(r"b?'(\\.|[^'\\])'", line):
                c = m.group(1)
                out.append(line[:m.start(1)] + ("~" if c != "~" else "!") + line[m.end(1):])
            if s.endswith(";") and s.count("(") == s.count(")") and not s.startswith(("let ", "return", "}", "const ")):
                out.append("")
            if re.match(r".*=> .*,$", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                out.append("")
            head, arrow, tail = line.partition("=>")
            if arrow and " | " in head:
                alts = head.split(" | ")
                ind = re.match(r"\s*", head).group(0)
                for k in range(len(alts)):
                    out.append(ind + " | ".join(a.strip() for j, a in enumerate(alts) if j != k) + " " + arrow + tail)
            for o in out:
                if o != line and (n, o) not in seen:
                    seen.add((n, o))
                    new = "\n".join(lines[:n] + [o] + lines[n + 1:]) + text[len("\n".join(lines)):]
                    yield {"file": f, "line": n + 1, "old": s, "new": o.strip(), "text": new}


class Slot:
    def __init__(self, k):
        self.dir = "%s/w%d" % (ROOT, k)
        if not os.path.isdir(self.dir):
            os.makedirs(self.dir)
            subprocess.run(["cp", "-a", "/repo", self.dir + "/repo"], check=True)
            subprocess.run(["cp", "-a", "/verif", self.dir + "/verif"], check=True)

    def sh(self, cmd, limit):
        p = subprocess.Popen(["unshare", "-m", "--kill-child", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && %s" % (self.dir, self.dir, cmd)],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace")
        try:
            out, _ = p.communicate(timeout=limit)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return "timeout", ""


def work(slot, queue, lock, log):
    while True:
        with lock:
            if not queue:
                return
            m = queue.pop()
        path = slot.dir + "/repo/" + m["file"]
        orig = open("/repo/" + m["file"]).read()
        rec = {k: m[k] for k in ("file", "line", "old", "new")}
        try:
            open(path, "w").write(m["text"])
            t = time.time()
            if path.endswith(".rs"):
                rc, out = slot.sh(". /opt/vp/env.sh && cargo build --workspace --offline -q", 300)
                if rc != 0:
                    if "id" in m:
                        rec["by"] = "compiler: " + out[-600:]
                    continue
                rc, out = slot.sh(". /opt/vp/env.sh && cargo test --workspace --no-fail-fast --offline -q -- --test-threads 8", 300)
                if rc != 0:
                    rec["by"] = "tests"
                    continue
            rec["by"] = None
            rec["odd"] = []
            for c in m.get("checks", CHECKS.get(m["file"], "")).split():
                rc, out = slot.sh("cd /verif && VERIF_SEED=1 timeout 600 python3-vt tools/check.py %s quick" % c, 700)
                if rc == 1 and "VIOLATION property=" + c in out:
                    rec["by"] = c
                    break
                if rc != 0:
                    rec["odd"].append([c, rc, out[-300:]])
            rec["s"] = round(time.time() - t)
        finally:
            open(path, "w").write(orig)
            if "by" in rec:
                with lock:
                    log.write(json.dumps(rec) + "\n")
                    log.flush()


if __name__ == "__main__":
    if sys.argv[1] == "list":
        n = {}
        for m in mutants(sys.argv[2:]):
            n[m["file"]] = n.get(m["file"], 0) + 1
        print(json.dumps(n, indent=1), sum(n.values()))
    elif sys.argv[1] == "hand":
        out, slots = sys.argv[2:4]
        done = {json.loads(l).get("id") for l in open(out)} if os.path.exists(out) else set()
        ms = []
        for m in json.load(open(sys.argv[4])):
            text = open("/repo/" + m["file"]).read()
            for a, b in m["edits"]:
                if text.count(a) < 1:
                    sys.exit("%s: not found: %s" % (m["id"], a))
                text = text.replace(a, b, 1)
            if m["id"] not in done:
                ms.append(dict(m, line=0, old=m["edits"][0][0], new=m["edits"][0][1], text=text))
        ms.reverse()
        lock, log = threading.Lock(), open(out, "a")
        ts = [threading.Thread(target=work, args=(Slot(int(k)), ms, lock, log)) for k in slots.split(",")]
        [t.start() for t in ts]
        [t.join() for t in ts]
    else:
        out, slots = sys.argv[2:4]
        n, seed = (10 ** 6, "0") if sys.argv[1] == "again" else (int(sys.argv[4]), sys.argv[5])
        done = set()
        if os.path.exists(out):
            done = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(out))}
        again = None
        if sys.argv[1] == "again":
            again = {(r["file"], r["old"], r["new"]) for r in map(json.loads, open(sys.argv[4])) if not r["by"]}
        ms = [m for m in mutants([] if again else sys.argv[6:]) if (not again or (m["file"], m["old"], m["new"]) in again) and (m["file"], m["line"], m["new"]) not in done]
        random.Random(seed).shuffle(ms)
        ms = ms[:n]
        lock, log = threading.Lock(), open(out, "a")
        ts = [threading.Thread(target=work, args=(Slot(int(k)), ms, lock, log)) for k in slots.split(",")]
        [t.start() for t in ts]
        [t.join() for t in ts]
