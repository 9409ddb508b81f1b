"""A scenario of the navigation client as a recorded walk: a map, a settings file and a message log."""
import json, math, os, re
import files
from files import Num, Ts, text, plain, feature
from solo import EPOCH

KEY = {m: k for k, m in re.findall(r'(\w+) \|-> "(\w+)"', open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "SoloFile.tla")).read()) if k in files.KEYS}
SENSOR = {"ACC": 101, "GYR": 102, "MAG": 103, "BAR": 104, "ORI": 105, "LOC": 106}
RADIO = {"WIFI": 201, "BLUETOOTH": 202, "BEACON": 203, "EDDYSTONE": 204, "WIFI_RTT": 205}
def pos(q): return [Num(q[1]), Num(q[0])]
def told(rng, p): items = list(p.items()); rng.shuffle(items); return dict(items)

def entry(rng, b, mean):
    """Counted levels with (nearly) the mean; levels are written as positive numbers."""
    v = -float(mean); lo = math.floor(v); hi = round((v - lo) * 10)
    return {"bssid": b, "type": rng.choice(files.TYPES), "value": [{"rssi": r, "count": c} for r, c in ((lo, 10 - hi), (lo + 1, hi)) if c]}
def end(rng, q):
    """A line's end; drawn by hand, so sometimes centimetres off."""
    if rng.random() < .7: return pos(q)
    w, d = rng.uniform(0, 2 * math.pi), rng.uniform(0, .03) / 111320
    return [Num(f"{float(q[1]) + d * math.cos(w) / math.cos(math.radians(float(q[0]))):.10f}"), Num(f"{float(q[0]) + d * math.sin(w):.10f}")]
def map_doc(rng, levels):
    fs = []
    for g in levels:
        fs.append(feature("level", g.id, "MultiPolygon", [[[pos(q) for q in ring] for ring in [a["outer"]] + a["holes"]] for a in g.areas]))
        for t in g.tx:
            p = {k: Num(t[k]) for k in "AB" if rng.random() < .8}
            fs.append(feature("transmitter", g.id, "Point", pos([t["lat"], t["lon"]]) + ([Num(t["alt"])] if float(t["alt"]) or rng.random() < .3 else []), uuid=t["id"], transmitter_type=t["type"], **p))
        for r in g.rp:
            fs.append(feature("reference_point", g.id, "Point", pos([r["lat"], r["lon"]]), uuid=r["id"], entries=[entry(rng, b, m) for b, m in r["fp"].items()]))
        if g.ed: fs.append(feature("graph", g.id, "MultiLineString", [[end(rng, g.vx[i]), end(rng, g.vx[j])] for i, j in (e if rng.random() < .7 else e[::-1] for e in g.ed)]))
    tx = [f for f in fs if f["properties"]["type"] != "transmitter"]; rng.shuffle(tx)
    for f in [f for f in fs if f["properties"]["type"] == "transmitter"]: tx.insert(rng.randint(0, len(tx)), f)
    return {"type": "FeatureCollection", "features": tx}
def settings_doc(rng, s):
    c = {}
    for k, v in s.items():
        if k == "levels" or v == "inf": continue
        key = KEY[k]
        c[key] = bool(v) if key in files.BOOLS else int(v) if key in files.INTS else (v.lower() if key != "Use_algorithm" else v) if key in files.NAMES else Num(str(v))
    return {"common_settings": [told(rng, c)], "level_settings": [{"level": l, "settings": [{k: Num(ab[k]) for k in rng.sample("AB", 2)}]} for l, ab in s["levels"].items()]}
def line(rng, m):
    d = {"timestamp": Ts(m["ts"])}
    if m["k"] == "s": d |= {"type": SENSOR[m["type"]], "values": [Num(m[q]) for q in "xyz"]}
    elif m["k"] == "r":
        d |= {"type": RADIO[m["type"]], "bssid": m["id"]}
        for k, q in (("rssi", "rssi"), ("distance", "dist"), ("power", "pw")):
            if float(m[q]) or rng.random() < .3: d[k] = Num(m[q])
        if rng.random() < .1: d["stddev"] = Num("1.5")
    else: d |= {"type": 300, "sentence_number": m["sn"], "num_sats": m["sats"]}
    return told(rng, d)

class Recorded:
    """The messages of the one client of a scenario, in its order, so many per call."""
    def __init__(self, rng, s):
        assert len(s.set) == 1 and not s.twins and not s.forest and not s.other
        self.name = "rec-" + s.name
        self.map, self.file = map_doc(rng, s.levels), settings_doc(rng, *s.set.values())
        self.log, last, twice = [], -10**9, rng.choice([0, 0, .15])
        for m in (m for _, b in s.calls for m in b):
            if m["k"] == "s":                       # sensor time stamps do not decrease, whatever the calls
                if m["ts"] < last: continue
                last = m["ts"]
            self.log.append(line(rng, m))
            while rng.random() < twice: self.log.append(self.log[-1] if rng.random() < .7 else line(rng, m))      # written again
            if rng.random() < .01: self.log.append({"timestamp": Ts(m["ts"]), "type": 900, "comment": "by the stairs"})
        self.size = rng.choice([1, 2, 3, 5, 8, 13, 20])
    def driver_text(self):
        return ["F " + json.dumps({"map": text(self.map), "settings": text(self.file), "log": [text(l) for l in self.log], "size": self.size}), "END"]
    def trace(self, results):
        out = [{"e": "open", "name": self.name, "map": plain(self.map), "file": plain(self.file), "twins": []}]
        log = plain(self.log); todo = [log[i:i + self.size] for i in range(0, len(log), self.size)]
        if len(results) < len(todo) and not (results and "crash" in results[-1]): results = results + [{"crash": "missing results"}]
        for c, r in zip(todo, results):
            if "crash" in r: out.append({"e": "crash", "what": r["crash"]}); break
            out.append({"e": "nav", "k": "a", "log": c, **r})
        return out
