"""Building the drivers, running scenarios on the real code, checking traces with TLC."""
import os, subprocess, json, tempfile, shutil, re, time, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
JOBS = 8

class HarnessError(Exception): pass

class Work:
    """A scratch directory for one check run, removed afterwards."""
    def __init__(self): self.dir = tempfile.mkdtemp(prefix="verif-")
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)
    def path(self, *p): return os.path.join(self.dir, *p)

def sh(cmd, timeout=800, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
    return p

def build(work, target):
    out = work.path("build"); os.makedirs(out, exist_ok=True)
    p = sh(["make", "-s", "-C", os.path.join(VERIF, "harness"), f"-j{JOBS}", f"REPO={REPO}", f"OUT={out}", os.path.join(out, target)])
    if p.returncode: raise HarnessError("build failed:\n" + p.stderr[-3000:])
    return os.path.join(out, target)

def overrides(work):
    d = work.path("cls")
    if not os.path.isdir(d):
        os.makedirs(d)
        src = os.path.join(VERIF, "lib", "ovr")
        p = sh(["javac", "-cp", CP, "-d", d] + [os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java")])
        if p.returncode: raise HarnessError("javac failed:\n" + p.stderr)
    return d

def tlc(work, module, cfg=None, env=None, args=(), heap="2g", timeout=800, workers=1):
    """Runs TLC in a private metadir; returns (exit code, output)."""
    cls = overrides(work)
    meta = tempfile.mkdtemp(dir=work.dir, prefix="tlc-")
    spec = os.path.join(VERIF, "spec")
    cmd = ["java", f"-Djava.io.tmpdir={meta}", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss16m", "-cp", f"{CP}:{cls}", f"-DTLA-Library={spec}",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:ovr.RlOverrides", "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module.replace(".tla", ".cfg"), *args, module]
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout

def drive(binary, scenarios, timeout=800, chunks=JOBS):
    """Plays the scenarios on the real code; returns name -> list of result lines."""
    groups = [scenarios[i::chunks] for i in range(chunks)]
    def one(g):
        text = []
        for s in g:
            d = s.driver_text()
            text.append(f"BEGIN {s.name} {len(d)}"); text += d
        p = subprocess.run([binary], input="\n".join(text) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        if p.returncode: raise HarnessError(f"driver failed ({p.returncode}): {p.stderr[-2000:]}")
        res, cur, k = {}, [], 0
        for line in p.stdout.splitlines():
            try: j = json.loads(line)
            except ValueError: j = {"crash": "incomplete result"}      # the code died while a result was being written
            if "stop" in j: return res
            if "done" in j:
                if j["done"] != g[k].name: raise HarnessError("driver out of step")
                res[g[k].name] = cur; cur = []; k += 1
            else: cur.append(j)
        if k != len(g): raise HarnessError("driver stopped early")
        return res
    out = {}
    with cf.ThreadPoolExecutor(chunks) as ex:
        for r in ex.map(one, [g for g in groups if g]): out.update(r)
    return out

STATS = re.compile(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct states found")

def check_traces(work, module, traces, chunks=JOBS, timeout=800, order=None):
    """traces: list of (name, [lines]). Returns (bad names -> detail, states, transitions)."""
    overrides(work)
    # balance by number of lines
    order = sorted(traces, key=lambda t: -weight(t[1]))
    groups = [[] for _ in range(min(chunks, len(order)))]; load = [0] * len(groups)
    for t in order:
        i = load.index(min(load)); groups[i].append(t); load[i] += weight(t[1])
    bad, states, trans = {}, 0, 0
    def one(ix):
        g, b, st, tr = groups[ix], {}, 0, 0
        todo = list(g)
        while todo:
            path = work.path(f"trace-{ix}.ndjson"); start = []
            with open(path, "w") as fh:
                n = 0
                for name, lines in todo:
                    start.append(n + 1)
                    for l in lines: fh.write(json.dumps(l) + "\n"); n += 1
            rc, out = tlc(work, module, env={"TRACE": path}, timeout=timeout)
            for m in STATS.findall(out)[-1:]: tr += int(m[0].replace(",", "")); st += int(m[1].replace(",", ""))
            if rc == 0 and "No error has been found" in out and "REJECTED" not in out: break
            r = re.search(r'<<"BROKEN", (\d+), "(\w+)">>', out)
            if r: mm = f"property {r[2]} does not hold\n" + out[out.find("Error:"):]
            else:
                r = re.search(r'<<"REJECTED", (\d+)>>', out)
                if not r: i = out.find("Error:"); raise HarnessError(f"TLC failed on {module}:\n" + out[i:i + 3000] + "\n...\n" + out[-3000:])
                hit = re.search(r'<<\s*"MISMATCH"', out)
                mm = out[hit.start():] if hit else "no step of the specification matches"
            at = int(r[1]); k = max(i for i, s in enumerate(start) if s <= at)
            mm = mm.split("\nThe ")[0].split("\nFinished")[0].split("\nState 1")[0].split("\nError: Post")[0]
            line = todo[k][1][at - start[k]]
            if line["e"] == "crash": mm = "the code did not return: " + line["what"]
            b[todo[k][0]] = {"line": at - start[k] + 1, "detail": mm[:4000]}
            todo = todo[k + 1:]
            if len(b) >= 3: break
        return b, st, tr
    with cf.ThreadPoolExecutor(len(groups) or 1) as ex:
        for b, st, tr in ex.map(one, range(len(groups))): bad.update(b); states += st; trans += tr
    return bad, states, trans

def weight(lines): return sum(1 + len(l.get("batch", l.get("log", ()))) for l in lines)
