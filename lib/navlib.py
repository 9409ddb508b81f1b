"""Scenarios for the navigation client: data model, driver input, trace merge."""
import json, math, random

EQ, POLE = 40075160.0, 40008000.0

def f(v, nd=4):
    """A decimal string; the very same text goes to the real code and to the specification."""
    s = f"{v:.{nd}f}"
    return "0" if float(s) == 0 else s

class Level:
    def __init__(self, id, lat0, lon0, w, h, alt="0"):
        self.id, self.lat0, self.lon0, self.w, self.h, self.alt = id, lat0, lon0, w, h, alt
        self.areas, self.tx, self.rp, self.vx, self.ed = [], [], [], [], []
        self.txpos = {}
    def ll(self, x, y):
        lat = self.lat0 + y * 360.0 / POLE
        lon = self.lon0 + x * 360.0 / (EQ * math.cos(math.radians(self.lat0)))
        if lon > 180: lon -= 360
        return [f(lat, 10), f(lon, 10)]
    def area(self, pts, holes=()):
        self.areas.append({"outer": [self.ll(*p) for p in pts], "holes": [[self.ll(*p) for p in h] for h in holes]})
    def rect(self, holes=()):
        w, h = self.w, self.h
        self.area([(0, 0), (0, h), (w, h), (w, 0)], holes)
    def addtx(self, id, x, y, A=-82.0, B=3.0, type="BEACON", alt=0.0):
        la, lo = self.ll(x, y)
        self.tx.append({"id": id, "lat": la, "lon": lo, "alt": f(alt), "A": f(A), "B": f(B), "type": type})
        self.txpos.setdefault(id, (x, y))
    def addrp(self, id, x, y, fp):
        la, lo = self.ll(x, y)
        self.rp.append({"id": id, "lat": la, "lon": lo, "fp": {k: f(v) for k, v in fp.items()}})
    def addv(self, x, y):
        self.vx.append(self.ll(x, y)); return len(self.vx) - 1
    def json(self):
        return {"id": self.id, "alt": self.alt, "areas": self.areas, "tx": self.tx, "rp": self.rp, "vx": self.vx, "ed": self.ed}

class Scenario:
    """One world, some clients (settings), and a list of calls (client, batch)."""
    def __init__(self, name):
        self.name, self.levels, self.set, self.calls, self.twins, self.forest = name, [], {}, [], [], None
        self.base = None         # the time stamp that the trace calls 0
        self.threads = False     # every client on a thread of its own
        self.other, self.before = None, 0      # a scenario on levels of its own, played in between and not judged; that many calls of it come first
    def client(self, k, **s):
        ls = s.pop("ab", None) or {}
        s = dict(s)
        s["levels"] = {l.id: {"A": ls.get(l.id, ("-82.0", "3.0"))[0], "B": ls.get(l.id, ("-82.0", "3.0"))[1]} for l in self.levels}
        self.set[k] = s
    def call(self, k, batch): self.calls.append((k, batch))
    def tree(self, k, clock, depth, letters):
        """letters: list of (ms to advance, messages with times relative to the new clock)."""
        self.forest = (k, clock, depth, letters)
    def nodes(self):
        """The tree's calls in preorder: (depth from 1, batch)."""
        k, clock, depth, letters = self.forest
        def go(d, t):
            if d > depth: return
            for adv, ms in letters:
                yield d, [dict(m, ts=m["ts"] + t + adv) for m in ms]
                yield from go(d + 1, t + adv)
        return go(1, clock)
    def driver_text(self):
        o = [f"B {self.base}"] if self.base else []
        if self.other: o += self.other.world_text()
        o += self.world_text()
        aside = self.other.calls if self.other else []
        def more(calls):
            for k, b in calls: o.append(f"M {k} {len(b)}"); o.extend(msgtext(m) for m in b)
        if self.threads: o.append("P")
        more(aside[:self.before]); aside = aside[self.before:]
        for i, (k, b) in enumerate(self.calls):
            o.append(f"N {k} {len(b)}")
            o += [msgtext(m) for m in b]
            more(aside[i:i+1])
        if self.threads: o.append("Q")
        if self.forest:
            k, clock, depth, letters = self.forest
            o.append(f"X {k} {clock} {depth} {len(letters)}")
            for adv, ms in letters:
                o.append(f"l {adv} {len(ms)}")
                o += [msgtext(m) for m in ms]
        o.append("END")
        return o
    def world_text(self):
        o = ["W"]
        for g in self.levels:
            j = g.json()
            o.append(f"L {g.id} {j['alt']}")
            for a in j["areas"]:
                o.append("O %d %s" % (len(a["outer"]), " ".join(f"{p[0]} {p[1]}" for p in a["outer"])))
                for hh in a["holes"]:
                    o.append("H %d %s" % (len(hh), " ".join(f"{p[0]} {p[1]}" for p in hh)))
            for t in j["tx"]:
                o.append("T {id} {lat} {lon} {alt} {A} {B} {type}".format(**t))
            for r in j["rp"]:
                o.append(f"R {r['id']} {r['lat']} {r['lon']} {len(r['fp'])} " + " ".join(f"{k} {v}" for k, v in r["fp"].items()))
            for v in j["vx"]: o.append(f"V {v[0]} {v[1]}")
            for e in j["ed"]: o.append(f"E {e[0]} {e[1]}")
        o.append("Z")
        for k, s in self.set.items():
            o.append("D")
            for n, v in s.items():
                if n == "levels":
                    for lid, ab in v.items(): o.append(f"A {lid} {ab['A']} {ab['B']}")
                else:
                    o.append(f"S {n} " + ("1" if v is True else "0" if v is False else str(v)))
            o.append(f"C {k}")
        return o
    def trace(self, results):
        """results: the driver's JSON lines of this scenario."""
        lines = [{"e": "open", "name": self.name, "world": {"levels": [g.json() for g in self.levels]}, "set": self.set, "twins": self.twins}]
        todo = [{"k": k, "batch": b} for k, b in self.calls]
        if self.forest: todo += [{"k": self.forest[0], "batch": b, "d": d} for d, b in self.nodes()]
        if len(results) < len(todo) and not (results and "crash" in results[-1]):
            results = results + [{"crash": "missing results"}]
        for i, (c, r) in enumerate(zip(todo, results)):
            if self.forest and i == len(self.calls): lines.append({"e": "mark", "k": self.forest[0]})
            if "crash" in r: lines.append({"e": "crash", "what": r["crash"]}); break
            lines.append({"e": "nav", **c, **r})
        return lines

def msgtext(m):
    if m["k"] == "r": return "r {ts} {type} {id} {rssi} {dist} {pw}".format(**m)
    if m["k"] == "s": return "s {ts} {type} {x} {y} {z}".format(**m)
    return "n {ts} {sn} {sats}".format(**m)

# ---- messages
def radio(ts, id, rssi, type="BEACON", dist=0.0, pw=0.0): return {"k": "r", "ts": ts, "type": type, "id": id, "rssi": f(rssi), "dist": f(dist), "pw": f(pw)}
def sensor(ts, type, x, y=0.0, z=0.0, nd=5): return {"k": "s", "ts": ts, "type": type, "x": f(x, nd), "y": f(y, nd), "z": f(z, nd)}
def gps(ts, lvl, x, y, dev): la, lo = lvl.ll(x, y); return {"k": "s", "ts": ts, "type": "LOC", "x": la, "y": lo, "z": f(dev)}
def nmea(ts, sn, sats): return {"k": "n", "ts": ts, "sn": sn, "sats": sats}
