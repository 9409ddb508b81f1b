"""Which scenarios decide which property."""
import random
import conf, navgen, navtree, solo, files, levels, record

def settle(s):
    """The least squares smoother asks whether a position is the last one to the bit, which for an average of reference points depends on
    rounding; it loses centimetres days after its start; and its window ends where differences of rounded seconds say unless they are exact."""
    ms = [m for _, b in s.calls for m in b]; ts = [m["ts"] for m in ms] or [0]
    letters = s.forest[3] if s.forest else []
    exact = len({m["ts"] % 125 for m in ms + [m for _, b in letters for m in b] if m["k"] == "r" or m.get("type") == "LOC"} | {a % 125 for a, _ in letters}) < 2
    for q in s.set.values():
        if q.get("useSmoothing", True) and not q.get("useAbFilter", True):
            if q.get("useAlgorithm") == "KNN" or max(ts) - min(ts) > 100000000: q["useAbFilter"] = True
            elif not exact: q["sigAveragingTime"] = str(float(q.get("sigAveragingTime", "1.0")) + .0003)

class Nav:
    """A property of the navigation client."""
    module, target = "NavTrace.tla", "navdrv"
    assumptions = ["sensor time stamps do not decrease within a scenario", "a transmitter heard by one client keeps its message type and power within a scenario where they matter",
                   "comparisons: 1e-6 relative, reported coordinates 1.01 cm (5 cm while standing still)"]
    order = None
    def __init__(self, profiles, trees=(), n=(40, 400), also=(("everything", 6),)):
        self.profiles, self.trees, self.n, self.also = profiles, trees, n, also
    def scenarios(self, tier, seed):
        deep = tier == "thorough"; out = []
        for t in self.trees: out += getattr(navtree, t)(1 if deep else 0)
        for q in self.profiles:
            for i in range(self.n[deep]):
                s = getattr(navgen, q)(random.Random(f"{seed}/{q}/{i}"), i); v = random.Random(f"{seed}/{q}/{i}/variant"); size = sum(len(b) for _, b in s.calls)
                if not s.twins and i % 10 == 3: s = navgen.joined(v, s)
                if not s.twins and i % 10 == 5: s = navgen.sprinkled(v, s)
                if not s.twins and not s.other and i % 10 == 1: s = navgen.haunted(v, s)
                if i % 10 == 8 and size < 600: s = navgen.repeated(v, s, 3)
                out.append(s)
        for q, k in self.also:
            for i in range(k * (8 if deep else 1)): out.append(getattr(navgen, q)(random.Random(f"{seed}/also/{self.profiles[0]}/{q}/{i}"), 1000 + i))
        for s in out: settle(s)
        for s in out: s.base = navgen.epoch(random.Random(f"{seed}/{s.name}"))
        return out
    def drive(self, binary, scs): return conf.drive(binary, scs)
    def counts(self, scs, traces):
        calls = msgs = outs = pos = tree = lv = 0
        for _, t in traces:
            for e in t:
                if e["e"] != "nav": continue
                calls += 1; msgs += len(e.get("batch", e.get("log"))); outs += len(e["outs"]); tree += "d" in e
                pos += sum(1 for o in e["outs"] if o["level"])
        return {"calls": calls, "messages": msgs, "reports": outs, "reports_with_position": pos, "exhaustive_tree_calls": tree,
                "rule": "a trace is one scenario of the real client; trees hold every word over the alphabet up to the depth"}

class Walks(Nav):
    """Walks recorded in files."""
    target = "playdrv"
    def scenarios(self, tier, seed):
        deep = tier == "thorough"; out = []
        for q, n in self.profiles:
            i = k = 0
            while k < n * (8 if deep else 1):
                s = getattr(navgen, q)(random.Random(f"{seed}/walks/{q}/{i}"), 2000 + i); i += 1
                if len(s.set) > 1 or s.twins or s.other: continue
                settle(s); out.append(record.Recorded(random.Random(f"{seed}/walks/{q}/{i}/files"), s)); k += 1
        return out

def models(p, cap):
    """The alphabets of a property's trees, each to the depth at which it has at most cap words."""
    out = []
    for t in getattr(p, "trees", ()):
        for s in getattr(navtree, t)(0):
            k, clock, depth, letters = s.forest; n, d = len(letters), 1
            while n ** (d + 1) <= cap: d += 1
            out.append({"world": {"levels": [g.json() for g in s.levels]}, "set": {"a": s.set[k]}, "clock": clock, "depth": d,
                        "prefix": [b for _, b in s.calls], "letters": [{"adv": a, "batch": b} for a, b in letters]})
    return out

class Alone:
    """A property of one of the standalone algorithms."""
    module, order = "SoloTrace.tla", None
    technique = "TLA+ specification; TLC trace validation of every call word up to a depth and random histories played on the real code"
    level_note = ("Every recorded call must be a step of the TLA+ specification (all choices followed where the code may choose) with its invariants true: "
                  "complete for every word over the alphabet up to its depth, sampled (seeded) beyond. Trusts TLC, the IEEE double overrides and the drivers.")
    assumptions = ["comparisons: 1e-6 to 1e-9 relative"]
    def __init__(self, target, words, depth, rand, n, more=()):
        self.target, self.words, self.depth, self.rand, self.n, self.assumptions = target, words, depth, rand, n, Alone.assumptions + list(more)
    def scenarios(self, tier, seed):
        deep = tier == "thorough"; lib = next(m for m in (solo, files, levels) if hasattr(m, self.words))
        return getattr(lib, self.words)(self.depth[deep]) + [getattr(lib, self.rand)(random.Random(f"{seed}/{self.rand}/{i}"), i) for i in range(self.n[deep])]
    def drive(self, binary, scs): return conf.drive(binary, scs)
    def counts(self, scs, traces):
        ops = [e for _, t in traces for e in t if e["e"] == "op"]
        return {"calls": len(ops), "calls_by_operation": {k: sum(1 for e in ops if e["op"] == k) for k in sorted({e["op"] for e in ops})},
                "objects": sum(1 for _, t in traces for e in t if e["e"] == "open"), "word_depth": self.depth,
                "rule": "words-* scenarios hold every call word over the alphabet of that depth"}

PROPS = {
    "C01": Nav(["framing"], ["framing"], (60, 600)),
    "C02": Nav(["splitting"], [], (30, 250)),
    "C03": Nav(["admission"], ["admission"], (60, 600)),
    "C04": Nav(["window"], ["window"], (60, 500)),
    "C05": Nav(["levels"], ["levels"], (50, 400)),
    "C06": Nav(["hysteresis"], ["hysteresis"], (60, 600)),
    "C07": Nav(["barometer"], ["barometer"], (24, 200)),
    "C08": Nav(["loss"], ["loss"], (40, 400)),
    "C09": Nav(["zone"], ["zone"], (60, 500)),
    "C10": Nav(["knn"], ["knn"], (60, 500)),
    "C11": Nav(["gpsprof"], ["gpsprof"], (80, 800)),
    "C12": Nav(["fusion"], ["fusion"], (80, 800)),
    "C13": Nav(["shaping"], ["shaping"], (60, 600), also=[("everything", 16)]),
    "C14": Nav(["stops"], ["stops"], (30, 300)),
    "C15": Nav(["smoothing"], ["smoothing"], (60, 600)),
    "C16": Nav(["pedometer"], ["pedometer"], (60, 500)),
    "C17": Nav(["orientation"], ["orientation"], (40, 400)),
    "C18": Nav(["worlds"], [], (80, 600), also=[("everything", 16)]),
    "C24": Nav(["altitude"], [], (60, 500)),
    "C26": Walks([("everything", 20), ("framing", 3), ("admission", 3), ("window", 3), ("levels", 3), ("hysteresis", 3), ("barometer", 2), ("loss", 3), ("zone", 4), ("knn", 5), ("gpsprof", 3),
                  ("fusion", 4), ("shaping", 5), ("stops", 2), ("smoothing", 3), ("orientation", 3), ("pedometer", 3), ("altitude", 9), ("worlds", 6)]),
    "C19": Alone("filedrv", "file_words", (2, 4), "file_random", (120, 2500), ["at most one area, one graph and one fingerprint entry per name", "graph points are less than 9.8 cm or more than 10.2 cm apart"]),
    "C25": Alone("leveldrv", "level_words", (3, 4), "level_random", (120, 2000), ["paths and points are clear of touching a wall", "an edge names two vertices"]),
    "C20": Alone("posdrv", "zone_words", (4, 5), "zone_random", (150, 3000), ["time stamps are not negative"]),
    "C21": Alone("trilatdrv", "trilat_words", (4, 5), "trilat_random", (300, 6000)),
    "C22": Alone("peddrv", "ped_words", (5, 7), "ped_random", (120, 2000), ["time stamps of samples do not decrease"]),
    "C23": Alone("cfdrv", "cf_words", (4, 5), "cf_random", (200, 3000), ["time stamps of samples do not decrease"]),
}
