"""Scenario generators for the navigation client, one profile per property."""
import math, random
from navlib import *

R = random.Random
CITIES = [(55.7558, 37.6173), (0.002, 0.003), (-33.8688, 151.2093), (40.7128, -74.006), (64.1466, -21.9426), (1.3521, 103.8198), (-54.8, -68.3), (22.3, -179.9), (-16.8, 179.9999)]

def epoch(rng):
    """What the clock says at the start: recent, far in the future, or about to pass a multiple of 2^31 ms."""
    return rng.choice([1600000000000, 1600000000000, 4102444800123, 821 * 2 ** 31 - 5000, 745 * 2 ** 31 - 3500, 400 * 2 ** 32 - 8500, 2 ** 41 - 6100])

def namer(rng):
    """Names of transmitters, levels and reference points: (kind, number) -> id."""
    k = rng.random()
    if k < .5: return lambda q, n: f"{q}{rng.randrange(10, 99)}x{n}"
    if k < .6: return lambda q, n: (q + "ab" if n % 2 else (q + "ab").upper()) + str(n // 2)      # only the case differs
    if k < .7: return lambda q, n: q + "1" * (n + 1)                                             # one begins with the other
    if k < .8: return lambda q, n: f"({n % 3},{n * 7919 % 65536},F7826DA6-4FA2-4E98-8024-BC5B71E0893{q}{n:02d})"
    if k < .9: return lambda q, n: f"{q}-Zürich/ß:{9 - n % 10}.{n}"
    return lambda q, n: f"{n - 2}" if q == "L" else f"{q}{n - 2}"

def mkworld(rng, sc, nlev=None, ntx=None, size=None, holes=0.0, graph=0.0, rps=0, locators=0.0, shared=0.0, flip=False, neg_map=True, same_origin=0.5, dup=0.0, origin=None):
    nlev = nlev or rng.choice([1, 2, 2, 3])
    lat, lon = rng.choice(CITIES)
    lat += rng.uniform(-.01, .01); lon += rng.uniform(-.01, .01) if lon < 179.9 else rng.uniform(-.0008, 0)
    if origin: lat, lon = origin
    named = namer(rng); order = list(range(nlev)); rng.shuffle(order)
    ids = [named("L", i) for i in order]
    w = size[0] if size else rng.choice([20.0, 34.5, 60.0, 110.25]); h = size[1] if size else rng.choice([15.0, 27.3, 44.0, 80.5])
    if not size and rng.random() < .15: w, h = rng.choice([(2.4, 1.9), (3.1, 120.0), (640.0, 410.0), (2600.0, 1900.0)])
    if rng.random() < .5: w += rng.random(); h += rng.random()     # borders off the centimetre grid
    n = 0
    for i in range(nlev):
        if i and rng.random() > same_origin:   # a level somewhere else
            lat += 0.002; lon += 0.001
        g = Level(ids[i], lat, lon, w, h, alt=f(3.0 * i))
        hs = []
        if rng.random() < holes:
            if rng.random() < .6:
                hx, hy = w * rng.uniform(.3, .5), h * rng.uniform(.3, .5)
                hs.append([(hx, hy), (hx + w * .25, hy), (hx + w * .25, hy + h * .3), (hx, hy + h * .3)])
            else:                               # several, not all of them rectangles
                for a, b in rng.sample([(.08, .08), (.4, .1), (.7, .15), (.1, .6), (.45, .55), (.72, .62)], rng.choice([2, 3, 5])):
                    u, v = w * .2 * rng.uniform(.5, 1), h * .25 * rng.uniform(.5, 1); a *= w; b *= h
                    hs.append(rng.choice([[(a, b), (a + u, b), (a + u, b + v), (a, b + v)], [(a, b), (a + u, b + v * .3), (a + u * .4, b + v)],
                                          [(a, b), (a + u, b), (a + u, b + v), (a + u * .6, b + v), (a + u * .6, b + v * .5), (a, b + v * .5)]]))
        if rng.random() < holes * .25:          # four areas, some of them with the holes
            having = rng.sample(range(4), rng.choice([1, 1, 2, 4]))
            for k, (a, b) in enumerate([(0, 0), (w * .52, 0), (0, h * .51), (w * .52, h * .51)]):
                g.area([(a, b), (a, b + h * .49), (a + w * .48, b + h * .49), (a + w * .48, b)], [[((x - 0) * .48 + a, y * .49 + b) for x, y in q] for q in hs] if k in having else [])
        elif rng.random() < holes * .5:         # L-shaped level, two areas
            g.area([(0, 0), (0, h * .45), (w, h * .45), (w, 0)], []); g.area([(0, h * .55), (0, h), (w * .5, h), (w * .5, h * .55)], [])
        elif rng.random() < holes * .4:         # one area that is not convex: an L, a U, a wedge cut out; the hole in the part that remains
            q = rng.choice([[(0, 0), (0, 1), (.5, 1), (.5, .45), (1, .4), (1, 0)], [(0, 0), (0, 1), (.3, 1), (.34, .5), (.7, .5), (.75, 1), (1, 1), (1, 0)],
                            [(0, 0), (0, 1), (1, 1), (1, .7), (.55, .5), (1, .25), (1, 0)], [(.2, 0), (0, .3), (.1, 1), (.5, .6), (.8, .9), (1, .2), (.6, .35)]])
            g.area([(x * w, y * h) for x, y in q], [[(w * .1, h * .2), (w * .1, h * .3), (w * .25, h * .3), (w * .25, h * .2)]] if q[0] == (0, 0) and rng.random() < .6 else [])
        else:
            g.rect(hs)
        if rng.random() < .3:                   # rings the other way round, or closed
            for a in g.areas:
                for r in [a["outer"]] + a["holes"]:
                    if rng.random() < .5: r.reverse()
                    if rng.random() < .4: r.append(list(r[0]))
        for j in range(ntx or rng.choice([3, 5, 8])):
            n += 1
            t = "LOCATOR" if rng.random() < locators else rng.choice(["BEACON", "BEACON", "WIFI", "EDDYSTONE", "BLUETOOTH"])
            g.addtx(named("t", n), rng.uniform(.02, .98) * w, rng.uniform(.02, .98) * h,
                    A=-round(rng.uniform(55, 90), 2), B=round(rng.uniform(1.5, 6), 2), type=t, alt=rng.choice([rng.uniform(0, 3), rng.uniform(0, 3), 0.0, rng.uniform(-2, 14)]))
        if rng.random() < dup:                  # an id listed twice on the level, elsewhere
            for t in rng.sample(list(g.tx), min(2, len(g.tx))):
                g.addtx(t["id"], rng.uniform(.02, .98) * w, rng.uniform(.02, .98) * h, A=-round(rng.uniform(55, 90), 2), B=round(rng.uniform(1.5, 6), 2), type=t["type"])
        if i and rng.random() < shared:
            for t in rng.sample(sc.levels[0].tx, min(2, len(sc.levels[0].tx))):
                g.addtx(t["id"], rng.uniform(.02, .98) * w, rng.uniform(.02, .98) * h, A=-round(rng.uniform(55, 90), 2), B=3.0, type=t["type"])
        sc.levels.append(g)
    if rps:
        alltx = [(l, t) for l in sc.levels for t in l.tx]
        for l in sc.levels:
            k = rps if isinstance(rps, int) else rng.choice(rps)
            nx = max(1, int(round(math.sqrt(k))))
            # all over the level, in a corner of it, or up to its walls
            ox, oy, kx, ky = rng.choice([(0, 0, 1, 1), (0, 0, 1, 1), (rng.uniform(0, .7), rng.uniform(0, .7), .25, .25), (-.08, -.08, 1.16, 1.16)])
            for q in range(k):
                x = ((q % nx + rng.uniform(.2, .8)) / nx * kx + ox) * l.w
                y = ((q // nx + rng.uniform(.2, .8)) / max(1, math.ceil(k / nx)) * ky + oy) * l.h
                fp = {}
                for tl, t in alltx:
                    r = signal(rng, sc, tl, t["id"], l, x, y, 2.0)
                    if r > -92 and rng.random() < .9: fp[t["id"]] = r if neg_map else -r
                l.addrp(named("p", q) + l.id, x, y, fp)
    for l in sc.levels:
        if rng.random() < graph:
            nv = rng.choice([2, 3, 5, 2, 3, 5, 14, 40])
            for _ in range(nv): l.addv(rng.uniform(.05, .95) * l.w, rng.uniform(.05, .95) * l.h)
            if nv < 10:
                for a in range(nv - 1): l.ed.append([a, a + 1] if rng.random() < .5 else [a + 1, a])
                if nv > 3: l.ed.append([0, nv - 1])
            else:                               # some vertices on no edge, some edges listed twice
                for _ in range(nv): l.ed.append(rng.sample(range(nv), 2))
                l.ed.append(l.ed[0][::-1])
    return sc.levels

def signal(rng, sc, tl, id, lvl, x, y, noise):
    tx, ty = tl.txpos[id]
    d = math.hypot(tx - x, ty - y) * min(1.0, 110.0 / max(lvl.w, lvl.h)) + 1.0
    fl = abs(sc.levels.index(tl) - sc.levels.index(lvl))
    return -48 - 18 * math.log10(d) - 13 * fl + rng.gauss(0, noise)

RT = {"BEACON": "BEACON", "WIFI": "WIFI", "EDDYSTONE": "EDDYSTONE", "BLUETOOTH": "BLUETOOTH", "LOCATOR": "BEACON"}

class Walk:
    """Ground truth: level and position over time."""
    def __init__(self, rng, sc, dur, floors=True, stand=0.2, speed=1.2):
        self.seg, t, li = [], 0, rng.randrange(len(sc.levels))
        l = sc.levels[li]; p = (rng.uniform(.1, .9) * l.w, rng.uniform(.1, .9) * l.h)
        while t < dur:
            if floors and len(sc.levels) > 1 and rng.random() < .25:
                li = rng.randrange(len(sc.levels)); l = sc.levels[li]
            if rng.random() < stand:
                d = rng.choice([1000, 3000, 6000, 9000]); self.seg.append((t, t + d, li, p, p, False)); t += d; continue
            q = (rng.uniform(.05, .95) * l.w, rng.uniform(.05, .95) * l.h)
            d = max(500, int(1000 * math.dist(p, q) / speed)); d = min(d, 8000)
            k = min(1.0, speed * d / 1000 / max(.01, math.dist(p, q))); q = (p[0] + (q[0] - p[0]) * k, p[1] + (q[1] - p[1]) * k)
            self.seg.append((t, t + d, li, p, q, True)); t += d; p = q
    def at(self, t):
        for a, b, li, p, q, mv in self.seg:
            if t < b:
                k = (t - a) / (b - a); return li, p[0] + (q[0] - p[0]) * k, p[1] + (q[1] - p[1]) * k, mv
        a, b, li, p, q, mv = self.seg[-1]; return li, q[0], q[1], False

def stream(rng, sc, dur, radio_ms=250, hear=.7, gps_ms=0, acc_ms=0, gyr_ms=0, mag_ms=0, ori_ms=0, bar_ms=0, nmea_ms=0,
           bad=0.0, alien=0.0, gaps=(), gap_kinds="rg", floors=True, stand=.2, grid=50, noise=2.5, outlier=0.0, poor=0.0,
           outside=0.0, typemix=0.0, jitter=False, sats=(0, 3, 8, 12), speed=1.2, rtt=0.0, power=False, start=0, pressure=1000.0, walk=None):
    wk = walk or Walk(rng, sc, dur, floors, stand, speed)
    alltx = [(l, t) for l in sc.levels for t in l.tx]
    rt = {t["id"]: ("WIFI_RTT" if rng.random() < rtt else RT[t["type"]]) for _, t in alltx}
    pw = {t["id"]: rng.choice([0, 0, 0, -59, -12.5, 2.5, 6, 0.004]) if power else 0 for _, t in alltx}
    def cut(t, k): return any(a <= t < b for a, b in gaps) and k in gap_kinds
    def ticks(p, ph=None):
        t = (rng.randrange(0, max(1, p // grid)) * grid) if ph is None else ph
        while t < dur:
            yield t + (rng.randrange(0, 20) if jitter else 0)
            t += p if rng.random() < .9 else p * rng.choice([1, 2])
    out = []
    if radio_ms:
        for t in ticks(radio_ms):
            if cut(t, "r"): continue
            li, x, y, _ = wk.at(t)
            for l, tx in alltx:
                if rng.random() < hear:
                    s = signal(rng, sc, l, tx["id"], sc.levels[li], x, y, noise)
                    if rng.random() < bad: s = rng.choice([0.0, 5.25, -100.0, -100.5, -130.0, -85.0, -84.75]) - (0 if tx is alltx[0][1] else rng.random() * .2)   # no ties
                    elif s < -97: continue
                    ty = rng.choice(["BEACON", "WIFI", "BLUETOOTH", "EDDYSTONE", "WIFI_RTT"]) if rng.random() < typemix else rt[tx["id"]]
                    out.append(radio(t, tx["id"], s, ty, abs(rng.gauss(5, 2)), pw[tx["id"]]))
            if rng.random() < alien:
                out.append(radio(t, f"alien{rng.randrange(3)}", -60 - rng.random() * 20, rng.choice(["BEACON", "WIFI"])))
    if gps_ms:
        for t in ticks(gps_ms):
            if cut(t, "g"): continue
            li, x, y, _ = wk.at(t); l = sc.levels[li]
            if rng.random() < outlier: x += rng.choice([-8, 9, 25]); y += rng.choice([-7, 11])
            if rng.random() < outside: x = rng.choice([-12.0, l.w + 9]); 
            dv = rng.choice([3.0, 5.0, 7.5, 12.0, 20.0, 35.0]) + rng.random() * .9
            if rng.random() < poor: dv = rng.choice([60.0, 85.5, 150.0])
            out.append(gps(t, l, x + rng.gauss(0, 1), y + rng.gauss(0, 1), dv))
    for ms, ty in ((nmea_ms, "N"),):
        if ms:
            for t in ticks(ms): out.append(nmea(t, rng.choice([1, 1, 1, 2, 0]), rng.choice(sats)))
    if acc_ms:
        fr = rng.uniform(1.4, 2.2); amp = rng.uniform(1.2, 4)
        for t in ticks(acc_ms):
            mv = wk.at(t)[3]
            z = 9.81 + (amp * math.sin(2 * math.pi * fr * t / 1000.0) if mv else 0) + rng.gauss(0, .08)
            out.append(sensor(t, "ACC", rng.gauss(.2, .1), rng.gauss(-.1, .1), z))
    hd = rng.uniform(-3, 3); tilt = rng.uniform(-.6, .6)
    if gyr_ms:
        for t in ticks(gyr_ms): out.append(sensor(t, "GYR", rng.gauss(0, .1), rng.gauss(0, .1), rng.gauss(.1, .5)))
    if mag_ms:
        for t in ticks(mag_ms):
            a = hd + t / 5000.0
            out.append(sensor(t, "MAG", -22 * math.sin(a) + rng.gauss(0, 1), 22 * math.cos(a) + rng.gauss(0, 1), -40 * math.cos(tilt)))
    if ori_ms:
        for t in ticks(ori_ms):
            if not cut(t, "o"): out.append(sensor(t, "ORI", rng.uniform(-7, 7) if rng.random() < .9 else rng.choice([-40, -13.1, -3.1415, 3.1416, 12.3, 25])))
    if bar_ms:
        for t in ticks(bar_ms):
            out.append(sensor(t, "BAR", pressure - .4 * wk.at(t)[0] + rng.gauss(0, .02)))
    rng.shuffle(out)
    out.sort(key=lambda m: m["ts"])
    for m in out: m["ts"] += start
    return out

def split(rng, msgs, sizes=(1, 2, 3, 5, 8, 13), empty=.03):
    b, i = [], 0
    while i < len(msgs):
        if rng.random() < empty: b.append([])
        n = rng.choice(sizes); b.append(msgs[i:i + n]); i += n
    return b

def play(rng, sc, k, msgs, **kw):
    if msgs and rng.random() < .1:      # switched off for a while, in the middle
        at = rng.choice(msgs)["ts"]; d = rng.choice([61000, 3600007, 90000000, 1100000000])
        msgs = [dict(m, ts=m["ts"] + d) if m["ts"] > at else m for m in msgs]
    for b in split(rng, msgs, **kw): sc.call(k, b)

def joined(rng, sc):
    """The same messages in very few calls."""
    ms = [m for _, b in sc.calls for m in b]; k = sc.calls[0][0]; n = rng.choice([1, 2, 3])
    sc.calls = [(k, ms[i * len(ms) // n:(i + 1) * len(ms) // n]) for i in range(n)]
    return sc
def repeated(rng, sc, n):
    """The same walk several times, one after the other."""
    ts = [m["ts"] for _, b in sc.calls for m in b]; span = max(ts) - min(ts) + 700
    if span < 400000000: sc.calls = [(k, [dict(m, ts=m["ts"] + span * q) for m in b]) for q in range(n) for k, b in sc.calls]
    return sc

def sprinkled(rng, sc):
    """Other sensors report in between."""
    kinds = rng.sample(["BAR", "ORI", "GYR", "MAG", "ACC", "N"], rng.choice([1, 2, 3])); r = rng.choice([.1, .3, .6]); out = []; newest = -1e18
    for k, b in sc.calls:
        c = []
        for m in b:
            if rng.random() < r and m["ts"] >= newest:
                q = rng.choice(kinds); t = m["ts"]
                if c and rng.random() < .5: t = max(c[-1]["ts"], min(t, c[-1]["ts"] + rng.randrange(0, 30)))
                if q == "N": c.append(nmea(t, rng.choice([1, 1, 2, 0]), rng.choice([0, 3, 8, 12])))
                else:
                    x, y, z = {"BAR": (1000 + rng.random(), 0, 0), "ORI": (rng.uniform(-6, 6), 0, 0), "GYR": (rng.gauss(0, .1), rng.gauss(0, .1), rng.gauss(0, .4)),
                               "MAG": (rng.gauss(0, 20), rng.gauss(0, 20), -38), "ACC": (rng.gauss(.2, .1), rng.gauss(-.1, .1), rng.gauss(9.8, .3))}[q]
                    c.append(sensor(t, q, x, y, z))
            c.append(m); newest = max(newest, m["ts"])
        out.append((k, c))
    sc.calls = out
    return sc

def haunted(rng, sc, clients=None):
    """Another venue with the same names is loaded and used in the same process."""
    o = sc.other = Scenario("other"); mixed = rng.random() < .7      # the names on other levels
    sc.before = rng.choice([0, 1, 8])
    for g in sc.levels:
        h = Level(g.id, g.lat0 + (.3 if g.lat0 < 80 else -.3), g.lon0 - (.2 if g.lon0 > -179 else -.2), g.w * .7, g.h * 1.2, alt="4.5"); h.rect(); o.levels.append(h)
        for t in (rng.choice(sc.levels) if mixed else g).tx: h.addtx(t["id"], rng.uniform(.02, .98) * h.w, rng.uniform(.02, .98) * h.h, A=-66.0, B=4.5, type=t["type"])
        for r in g.rp: h.addrp(r["id"], rng.uniform(0, 1) * h.w, rng.uniform(0, 1) * h.h, {k: float(v) - 7 for k, v in r["fp"].items()})
        if g.vx:
            for _ in range(4): h.addv(rng.uniform(0, 1) * h.w, rng.uniform(0, 1) * h.h)
            h.ed = [[0, 1], [2, 1], [3, 1]]
    for k, st in (clients or {"x": {n: v for n, v in sc.set[sc.calls[0][0]].items() if n != "levels"}}).items(): o.client(k, **st, ab=abs_(rng, o))
    for b in split(rng, stream(rng, o, 9000, radio_ms=300, gps_ms=1200, acc_ms=150, ori_ms=700, hear=.7)): o.call(rng.choice(list(o.set)), b)
    return sc

def pick(rng, **opts): return {k: rng.choice(v) for k, v in opts.items()}

BASIC = dict(useAlgorithm="ZONES", signalsToUse="BOTH", useSmoothing=False)
def abs_(rng, sc):
    """Path loss of the levels; some unusual, so that accuracies are much under a metre or kilometres."""
    def one(): return (f(rng.uniform(-98, -40)), f(rng.uniform(1.2, 12))) if rng.random() < .3 else (f(rng.uniform(-90, -60)), f(rng.uniform(2, 6)))
    return {l.id: one() for l in sc.levels}

# ------------------------------------------------------------------ profiles
def framing(rng, i, n=26):
    """C01: batches with late messages, equal times, empty batches, all message kinds."""
    sc = Scenario(f"framing{i}"); mkworld(rng, sc, ntx=3)
    sc.client("a", **BASIC, ab=abs_(rng, sc))
    dur = 60000 if i % 20 == 13 else rng.choice([6000, 12000])      # a thousand messages, in one call
    ms = stream(rng, sc, dur, radio_ms=500, gps_ms=2000, acc_ms=400, ori_ms=900, nmea_ms=2500, bar_ms=1300, hear=.6)
    for b in split(rng, ms, sizes=(1, 2, 4, 9, 15), empty=.1):
        b = list(b)
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            if len(b) > 1:
                j = rng.randrange(1, len(b)); b[j] = dict(b[j]); b[j]["ts"] = b[rng.randrange(0, j)]["ts"] - rng.choice([0, 1, 50, 400, 3000])
        sc.call("a", b)
        if rng.random() < .05:   # whole batch in the past
            sc.call("a", [dict(m, ts=m["ts"] - rng.choice([100, 2000])) for m in b[:2] if m["k"] != "s"])
    return sc

def splitting(rng, i):
    """C02: the same messages in different batches, to interleaved clients with equal and with different settings."""
    sc = Scenario(f"split{i}"); mkworld(rng, sc, ntx=4, rps=6, graph=.5)
    st = dict(pick(rng, useAlgorithm=["ZONES", "KNN"], useTriangles=[True, False], useSmoothing=[True, False], useStops=[True, False],
                   useGps=[True], fuseGps=[True, False], useGraphProjection=[True, False], useAbFilter=[True, False], signalsToUse=["BOTH"],
                   minNumOfMeasurementsForPositionCalculation=[2, 4], sigAveragingTime=["1.0", "2.0"], sigWindowShift=["0", "0.5"]))
    ab = abs_(rng, sc)
    ks = ["a", "b", "c", "d"]
    for k in ("a", "b", "d"): sc.client(k, **st, ab=ab)
    sc.twins = ["a", "b", "d"]
    other = dict(pick(rng, useAlgorithm=["ZONES", "KNN"], useTriangles=[True, False], useDiffMode=[True, False], kNeighbors=[1, 3], useSmoothing=[True, False], useStops=[True, False],
                      useGps=[True, False], fuseGps=[True, False], useGraphProjection=[True, False], useAbFilter=[True, False], signalsToUse=["BOTH", "BLE"], useRadiomap=[True, False],
                      minNumOfMeasurementsForPositionCalculation=[1, 3], sigAveragingTime=["0.5", "1.5"], useEnuAzimuth=[True, False], deadReckoningTime=["1.0", "30.0"],
                      noSignalTimeThreshold=[3, 35], minGpsDeviation=["1.5", "9.0"], smoothing=["0.1", "0.9"], stepMultiplier=["2.0"], useCalculatedAzimuth=[True, False]))
    sc.client("c", **other, ab=abs_(rng, sc))
    ks.append("e"); sc.client("e", **pick(rng, useAlgorithm=["ZONES"], useSmoothing=[False], useGps=[False, True], signalsToUse=["BOTH", "WIFI"]), ab=abs_(rng, sc))
    ms = stream(rng, sc, 9000, radio_ms=400, gps_ms=1500, acc_ms=100, ori_ms=800, hear=.6)
    plans = {"a": [ms[j:j + 1] for j in range(len(ms))], "b": split(rng, ms, sizes=(5, 11, 30)), "c": split(rng, ms), "e": split(rng, [m for m in ms if rng.random() < .7]), "d": split(rng, ms, sizes=(60, 1, 200))}
    if rng.random() < .6:      # the same names, elsewhere: levels that were loaded separately
        haunted(rng, sc, {k: dict(st) for k in ("x", "y")})
    sc.threads = rng.random() < .4
    live = list(ks)
    while live:
        k = rng.choice(live)
        if not plans[k]: live.remove(k); continue
        sc.call(k, plans[k].pop(0))
    return sc

def admission(rng, i):
    """C03"""
    sc = Scenario(f"admission{i}"); mkworld(rng, sc, ntx=4, locators=.35, shared=.4)
    sc.client("a", **{**BASIC, **pick(rng, signalsToUse=["BLE", "WIFI", "BOTH"], measurementType=["RSSI", "RSSI", "RSSI", "DISTANCE_V1", "DISTANCE_V2"],
              useUnknownTransmitters=[False, False, True], useTracking=[False, False, True], sigCutOffRss=["-100", "-85", "-75.5", "-60"],
              sigAveragingTime=["0.5", "1.0"])}, ab=abs_(rng, sc))
    ms = stream(rng, sc, 8000, radio_ms=400, bad=.2, alien=.25, typemix=rng.choice([0, .1, .5]), rtt=rng.choice([0, .3, .6]), hear=.5, floors=rng.random() < .5)
    play(rng, sc, "a", ms)
    return sc

def window(rng, i):
    """C04: window length, shift, averaging, retention; keeping old measurements while standing."""
    dense = rng.random() < .1         # hundreds of measurements in one window
    huge = i % 20 == 7                # more than five hundred
    fp = i % 6 == 2                   # every signal of the window bears on the position
    sc = Scenario(f"window{i}"); mkworld(rng, sc, nlev=rng.choice([1, 1, 2]), ntx=9 if huge else 7 if fp else 6 if dense else 3, rps=6 if fp else 0, same_origin=1)
    sc.client("a", **{**BASIC, **pick(rng, sigAveragingTime=["3.5", "2.0"] if huge else ["0", "0.5", "1.0", "2.0", "3.5"], sigWindowShift=["0", "0.25", "0.5", "1.0", "5.0"],
              useStops=[False, False, True], stopDetectionTime=["1.0", "2.0"], useClosestAps=[False, False, True], numClosestAps=[1, 2, 3],
              stopUpdateTime=["0.5"], useStopsDistanceThresholdM=["1000"])}, ab=abs_(rng, sc))
    if fp: sc.set["a"].update(useAlgorithm="KNN", useTriangles=False, kNeighbors=4, minNumOfMeasurementsForPositionCalculation=1, **pick(rng, useClosestAps=[True, True, False], numClosestAps=[3, 4, 5, 6], useDiffMode=[True, False]))
    acc = sc.set["a"]["useStops"]; even = acc and rng.random() < .5      # moments that coincide
    ms = stream(rng, sc, 5500 if huge else 9000, radio_ms=20 if huge else 40 if dense else 100 if even else rng.choice([100, 250, 400, 700]), hear=.5, noise=5, acc_ms=100 if even else 80 if acc else 0, stand=.4, floors=False,
                gaps=[(4000, rng.choice([4000, 5500]))])
    play(rng, sc, "a", ms)
    return sc

def levels(rng, i):
    """C05"""
    close = i % 5 == 4; rm = rng.random() < .5 and not close
    sc = Scenario(f"levels{i}"); mkworld(rng, sc, nlev=rng.choice([2, 3, 4, 2, 3, 4, 9]), ntx=14 if i % 10 in (3, 9) else 4, shared=.5, rps=(15 if i % 5 == 1 else rng.choice([3, 5])) if rm else 0, neg_map=rng.random() < .7, same_origin=1)
    sc.client("a", **{**BASIC, **pick(rng, useTxPower=[True, False], useRadiomap=[rm], useBestRefPointLevel=[True, False], useClosestAps=[True, False, False],
              numClosestAps=[1, 2, 4], sigAveragingTime=["0.5", "1.0"], useUnknownTransmitters=[False, True], useAlgorithm=["ZONES", "PF_PDR", "KNN"] if rm else ["ZONES", "PF_PDR"],
              minNumOfMeasurementsForPositionCalculation=[2])}, ab=abs_(rng, sc))
    if close: return close_scores(rng, sc)
    if rm and i % 5 == 1:             # levels whose fingerprints look alike
        ids = sorted({x["id"] for l in sc.levels for x in l.tx}); sg = -1 if rng.random() < .7 else 1
        for l in sc.levels:
            for p in l.rp: p["fp"] = {q: f(sg * rng.uniform(52, 90)) for q in ids if rng.random() < .9}
    ms = stream(rng, sc, 10000, radio_ms=450, hear=.6, noise=6, alien=.1, speed=2, power=rng.random() < .5)
    play(rng, sc, "a", ms)
    return sc

def close_scores(rng, sc):
    """Levels whose scores differ by little: one window after the other."""
    st = sc.set["a"]; st["useClosestAps"] = False; st["sigAveragingTime"] = "0.5"; ms, t = [], 0
    for _ in range(24):
        t += 500; pool = [(l, x) for l in sc.levels for x in l.tx]; rng.shuffle(pool); heard, owned = {}, {}
        for l, x in pool[:rng.choice([3, 5, 8, 8, 16, 40])]: heard[x["id"]] = x
        for l in sc.levels: owned[l.id] = [x for x in l.tx if x["id"] in heard]
        base = rng.uniform(-66, -58); done = {}
        for l in sc.levels:
            new = [x for x in owned[l.id] if x["id"] not in done]
            if not new: continue
            w = 1 + .1 * len(owned[l.id]) / len(heard)
            a = sum(float(x["A"]) for x in owned[l.id]) / len(owned[l.id]) if st["useTxPower"] else 0
            goal = ((base + (-75 if st["useTxPower"] else 0) + rng.choice([.04, .2, .9]) * rng.choice([-1, 1]) * rng.uniform(.7, 1)) * w - a) * len(owned[l.id])
            goal -= sum(done[x["id"]] for x in owned[l.id] if x["id"] in done)
            for q, x in enumerate(new):                                        # pairs: one above, the other as much below (no two alike)
                if q % 2 == 0: d = rng.uniform(1, 4) if q + 1 < len(new) else 0
                done[x["id"]] = max(-98 + rng.random(), min(-2 + rng.random(), goal / len(new) + (-d if q % 2 else d)))
        ids = list(done); rng.shuffle(ids)
        for q in ids: ms.append(radio(t, q, done[q], RT[heard[q]["type"]]))
    play(rng, sc, "a", ms)
    return sc

def hysteresis(rng, i):
    """C06: few strong transmitters per level, many detections, frequent changes of the detected level."""
    sc = Scenario(f"hyst{i}"); mkworld(rng, sc, nlev=rng.choice([2, 3, 2, 3, 7]), ntx=1, same_origin=1, size=(20.0, 15.0))
    sc.client("a", **BASIC, sigAveragingTime="0.5", noSignalTimeThreshold=100, noActionTimeThreshold=100, ab=abs_(rng, sc))
    t, ms = 0, []
    cur = rng.randrange(len(sc.levels))
    for _ in range(220 if i % 20 == 9 else rng.choice([30, 50])):
        if rng.random() < .35: cur = rng.randrange(len(sc.levels))
        t += rng.choice([500, 500, 500, 250, 1000])
        ms.append(radio(t, sc.levels[cur].tx[0]["id"], -50 - rng.random() * 5, RT[sc.levels[cur].tx[0]["type"]]))
        if rng.random() < .15: ms.append(sensor(t + 50, "ORI", 1.0))
    play(rng, sc, "a", ms)
    return sc

def barometer(rng, i):
    """C07"""
    sc = Scenario(f"baro{i}"); mkworld(rng, sc, nlev=2, ntx=1, same_origin=1, size=(20.0, 15.0))
    sc.client("a", **BASIC, sigAveragingTime="0.5", useBarometer=True, noSignalTimeThreshold=200, noActionTimeThreshold=200, deadReckoningTime="200", ab=abs_(rng, sc))
    mode = rng.choice(["stairs", "flat", "drift", "bad", "short"])
    if i % 3 == 2: return wander(rng, sc)
    ms, t, p = [], 0, rng.uniform(990, 1015)
    tx = [l.tx[0] for l in sc.levels]; cur = rng.randrange(2)
    N = 120 if mode == "short" else rng.choice([240, 330])
    change = rng.randrange(90, N - 20); back = rng.randrange(change + 5, N + 60)
    for q in range(N):
        t += 250
        up = change < q < back
        dp = {"stairs": -.5, "flat": 0.0, "drift": -.21, "bad": 0.0, "short": -.5}[mode] * (min(1, (q - change) / 20) if up else 0)
        v = 0.0 if mode == "bad" and rng.random() < .995 else p + dp + rng.gauss(0, .01)
        ms.append(sensor(t, "BAR", v))
        if q % 3 == 0:
            s = tx[1 - cur] if up else tx[cur]
            if rng.random() < .05: s = rng.choice(tx)
            ms.append(radio(t + 50, s["id"], -50 - rng.random() * 5, RT[s["type"]]))
    play(rng, sc, "a", ms, sizes=(5, 20))
    return sc

def wander(rng, sc):
    """Pressure and radio go their own ways: changes that come back, and levels that nobody climbed to."""
    ms, t, p, dp, keep, tx, stay = [], 0, rng.uniform(990, 1015), 0.0, 205, [l.tx[0] for l in sc.levels], 0
    for q in range(420):
        t += 250
        if q >= keep: dp = rng.choice([0, 0, -.35, -.6, .5]); keep = q + rng.choice([12, 40, 70, 110])
        if q >= stay: cur = rng.randrange(len(tx)); stay = q + rng.choice([14, 20, 30, 60])
        ms.append(sensor(t, "BAR", p + dp + rng.gauss(0, .01)))
        if q % 2 == 0: ms.append(radio(t + 50, tx[cur]["id"], -50 - rng.random() * 5, RT[tx[cur]["type"]]))
    play(rng, sc, "a", ms, sizes=(5, 20))
    return sc

def loss(rng, i):
    """C08: silence of radio, sensors and GPS, around every timeout."""
    sc = Scenario(f"loss{i}"); mkworld(rng, sc, ntx=3, same_origin=1)
    sc.client("a", **{**BASIC, **pick(rng, noSignalTimeThreshold=[2, 5, 35], noActionTimeThreshold=[3, 4, 20], deadReckoningTime=["1.0", "2.5", "5.0", "12.0"],
              useGps=[False, True], gpsValidTimeWindowSec=["1.0", "2.5"], sigAveragingTime=["0.5", "1.0"], useSmoothing=[True, False])}, ab=abs_(rng, sc))
    dur = 26000; a = rng.choice([4000, 6000]); b = a + rng.choice([1500, 3000, 5000, 7000, 16000])
    gaps = [(a, b)] + ([(0, 2000)] if rng.random() < .3 else [])
    strange = rng.random() < .25      # at first nothing but satellites and transmitters nobody knows
    if strange: sc.set["a"].update(useGps=True, useUnknownTransmitters=True)
    ms = stream(rng, sc, dur, radio_ms=500, hear=.6, acc_ms=rng.choice([0, 120]), ori_ms=500, gps_ms=1000 if strange else rng.choice([0, 0, 1000]),
                gaps=gaps, gap_kinds="g" if strange else rng.choice(["r", "rg", "g"]), stand=.3, alien=.7 if strange else 0)
    if strange: ms = [m for m in ms if m["k"] != "r" or m["id"].startswith("alien") or m["ts"] > 20000]
    play(rng, sc, "a", ms, sizes=(1, 4, 10))
    return sc

def zone(rng, i):
    """C09"""
    sc = Scenario(f"zone{i}"); mkworld(rng, sc, ntx=rng.choice([None] * 9 + [30]), shared=.4, dup=.4)
    sc.client("a", **{**BASIC, **pick(rng, sigAveragingTime=["0.5", "1.0", "2.0"], useAlgorithm=["ZONES", "PF_PDR", "GRAPH", "PF_NOPDR"][:2], useUnknownTransmitters=[False, True],
              deadReckoningTime=["1.0", "5.0"], useClosestAps=[False, True], numClosestAps=[2])}, ab=abs_(rng, sc))
    ms = stream(rng, sc, 9000, radio_ms=450, hear=.5, noise=5, alien=.1)
    play(rng, sc, "a", ms)
    return sc

def knn(rng, i):
    """C10"""
    many = i % 15 in (4, 9)           # a large map: most of it a neighbour, or seventy triangles
    sc = Scenario(f"knn{i}"); mkworld(rng, sc, nlev=rng.choice([1, 2]), ntx=rng.choice([4, 5, 7, 4, 5, 7, 16]), rps=40 if many else rng.choice([3, 4, 6, 9, 3, 4, 6, 9, 21]), neg_map=rng.random() < .6, same_origin=1)
    sc.client("a", **{**BASIC, "useAlgorithm": "KNN", **pick(rng, useTriangles=[True, False], useDiffMode=[True, False], kNeighbors=[1, 2, 3, 8, 20],
              minNumOfMeasurementsForPositionCalculation=[1, 2, 4, 5], sigAveragingTime=["0.5", "1.0"], useBestRefPointLevel=[False, True])}, ab=abs_(rng, sc))
    if many: sc.set["a"].update(useTriangles=i % 15 == 9, kNeighbors=36, minNumOfMeasurementsForPositionCalculation=1)
    ms = stream(rng, sc, 6000 if many else 8000, radio_ms=450, hear=.8 if many else rng.choice([.4, .8]), noise=4, power=rng.random() < .7)
    play(rng, sc, "a", ms)
    return sc

def gpsprof(rng, i):
    """C11: GPS only (no radio), every acceptance rule."""
    null = i % 10 == 7                # a venue over the point where the equator meets the zero meridian
    sc = Scenario(f"gps{i}"); mkworld(rng, sc, ntx=2, same_origin=rng.choice([0, 1]), origin=(-rng.choice([3, 6]) * 1e-5, -rng.choice([4, 9]) * 1e-5) if null else None)
    sc.client("a", **{**BASIC, **pick(rng, useGps=[True], useGpsOutsideMap=[False, False, True], useGpsSigmaFilter=[False, True], sigmaFilterWindow=[1, 3, 5, 12, 20],
              sigmaFilterDelta=["0.5", "2.0", "6.0"], minNumSats=[4, 8, 20, 28], minGpsDeviation=["5.0", "1.5", "10.0"], maxGpsDeviation=["inf", "30.0", "50"],
              gpsValidTimeWindowSec=["1.0", "0.5", "3.0"], deadReckoningTime=["1.0", "5.0"], useInstantGpsPosition=[False, True])}, ab=abs_(rng, sc))
    ms = stream(rng, sc, 16000, radio_ms=rng.choice([0, 0, 1500]), hear=.4, gps_ms=rng.choice([500, 1000]), nmea_ms=rng.choice([0, 2000, 400]), sats=rng.choice([(0, 3, 8, 12), (0, 9, 12, 31, 45)]), ori_ms=450,
                outlier=.12, poor=.12, outside=.12, gaps=[(7000, rng.choice([8000, 10000, 12000]))], gap_kinds="g")
    if null:
        for m in ms:
            if m["k"] == "s" and m["type"] == "LOC" and rng.random() < .3: m.update({q: f(0, 10) for q in rng.choice(["x", "y", "xy"])})
    if rng.random() < .35:            # two fixes at once, or a millisecond apart
        out = []
        for m in ms:
            out.append(m)
            if m["k"] == "s" and m["type"] == "LOC" and rng.random() < .3:
                out.append(dict(m, x=f(float(m["x"]) + rng.uniform(-2e-5, 2e-5), 9), y=f(float(m["y"]) + rng.uniform(-2e-5, 2e-5), 9), ts=m["ts"] + rng.choice([0, 1])))
        ms = sorted(out, key=lambda m: m["ts"])
    play(rng, sc, "a", ms)
    return sc

def fusion(rng, i):
    """C12"""
    kn = rng.random() < .25
    sc = Scenario(f"fusion{i}"); mkworld(rng, sc, nlev=rng.choice([1, 1, 2]), ntx=4, rps=5 if kn else 0, same_origin=1)
    sc.client("a", **{**BASIC, "useAlgorithm": "KNN" if kn else "ZONES", "minNumOfMeasurementsForPositionCalculation": 3, "useTriangles": False,
              **pick(rng, useGps=[True, True, True, False], fuseGps=[True, True, False], preferIndoorSolution=[False, False, True], useInstantGpsPosition=[False, False, True],
              priorDeviation=["50.0", "10.0", "4.0"], fuseGpsBorderM=["10", "0", "3.5"], averageMovSpeed=["1.0", "0.25", "3.0"], positionIsTooOldSec=["20.0", "2.0", "4.5"],
              deadReckoningTime=["5.0", "15.0", "2.5"], gpsValidTimeWindowSec=["1.0", "2.0"], minGpsDeviation=["1.5", "5.0", "15.0"], useGpsOutsideMap=[False, False, True],
              noSignalTimeThreshold=[35, 6], sigAveragingTime=["1.0"])}, ab={l.id: (f(rng.uniform(-75, -60)), f(rng.uniform(5, 12))) for l in sc.levels})
    a = rng.randrange(8, 24) * 500; b = rng.randrange(8, 24) * 500
    if rng.random() < .3: b = a       # neither, while something else keeps arriving
    ms = stream(rng, sc, 20000, radio_ms=700, hear=.5, gps_ms=900, gaps=[(a, a + rng.choice([3000, 7000]))], gap_kinds="r", poor=.1, outlier=.2, floors=False, ori_ms=rng.choice([0, 800]))
    ms = [m for m in ms if not (m["k"] == "s" and m["type"] == "LOC" and b <= m["ts"] < b + 6000)]
    play(rng, sc, "a", ms)
    return sc

def shaping(rng, i):
    """C13: positions near and beyond the border, graph projection."""
    sc = Scenario(f"shape{i}"); mkworld(rng, sc, nlev=rng.choice([1, 2]), ntx=4, graph=.9, same_origin=1)
    for l in sc.levels:          # transmitters at and beyond the walls
        l.addtx(f"edge{l.id}", 0.003, l.h - 0.004, type="BEACON")
        l.addtx(f"out{l.id}", l.w + rng.choice([1.5, 6.0]), l.h * .4, type="BEACON")
        l.addtx(f"neg{l.id}", l.w * .5, -rng.choice([.8, 4.0]), type="BEACON")
    sc.client("a", **{**BASIC, **pick(rng, useGraphProjection=[True, True, False], graphProjDist=["5.0", "1.5", "100"], useGpsOutsideMap=[False, True, True], useGps=[True, False],
              useSmoothing=[False, False, True], deadReckoningTime=["5.0", "2.0"])}, ab=abs_(rng, sc))
    ms = stream(rng, sc, 12000, radio_ms=500, hear=.4, noise=9, gps_ms=1500, outside=.3)
    play(rng, sc, "a", ms)
    return sc

def stops(rng, i):
    """C14"""
    sc = Scenario(f"stops{i}"); mkworld(rng, sc, nlev=2 if i % 4 == 3 else 1, ntx=6, same_origin=1, size=rng.choice([(20.0, 15.0), (60.0, 44.0)]))
    sc.client("a", **{**BASIC, **pick(rng, useStops=[True, True, True, False], stopDetectionTime=["1.0", "2.0", "3.0"], stopUpdateTime=["0.5", "2.0", "4.0"],
              useStopsDistanceThresholdM=["3.0", "10.0", "1000"], sigAveragingTime=["0.5", "1.0"], noActionTimeThreshold=[60], useGps=[False, True], stepMultiplier=["1.0"])}, ab=abs_(rng, sc))
    if i % 4 == 1: sc.set["a"].update(pick(rng, useSmoothing=[True], useAbFilter=[True, False], smoothing=["0.5", "0.9"], useTimeSmoothing=[False, True]))
    w = Walk(rng, sc, 18000, i % 4 == 3, .5)
    if i % 4 == 3:      # the level changes around somebody who stands
        sc.set["a"]["sigAveragingTime"] = "0.5"; w.seg = []; li = rng.randrange(2)
        for t in range(0, 18000, 9000):
            p, q, r = [(rng.uniform(.1, .9) * sc.levels[0].w, rng.uniform(.1, .9) * sc.levels[0].h) for _ in range(3)]
            w.seg += [(t, t + 2500, li, p, q, True), (t + 2500, t + 4500, li, q, q, False), (t + 4500, t + 9000, 1 - li, r, r, False)]; li = 1 - li
    ms = stream(rng, sc, 18000, radio_ms=500, hear=.5, noise=6, acc_ms=100, walk=w, gaps=[(0, rng.choice([0, 7000]))], gap_kinds="r")
    play(rng, sc, "a", ms)
    return sc

def smoothing(rng, i):
    """C15"""
    sc = Scenario(f"smooth{i}"); mkworld(rng, sc, nlev=rng.choice([1, 1, 2]), ntx=5, holes=.6, same_origin=1, size=rng.choice([None, (20.0, 15.0), (12.0, 9.0)]))
    sc.client("a", **{**BASIC, **pick(rng, useSmoothing=[True, True, True, False], useAbFilter=[True, True, False], smoothing=["0.5", "0", "1.0", "0.8", "1.7", "-0.5"],
              useTimeSmoothing=[False, False, True], useAccuracyForSmoothing=[False, True], useSpeedConstraint=[True, False], useBarriers=[False, True],
              sigAveragingTime=["0.5", "1.0", "3.0"], sigWindowShift=["0", "0.5"], useGps=[False, True], gpsValidTimeWindowSec=["2.0"], minGpsDeviation=["2.0"],
              deadReckoningTime=["5.0", "30.0"])},
              ab={l.id: (f(rng.uniform(-75, -60)), f(rng.uniform(5, 12))) for l in sc.levels})
    a = rng.randrange(10, 20) * 500
    ms = stream(rng, sc, 16000, radio_ms=300, hear=.5, gps_ms=rng.choice([0, 700]), noise=3, gaps=[(a, a + rng.choice([1000, 4000, 11000]))], gap_kinds="r", floors=rng.random() < .3)
    if i % 10 == 6:                   # positions exactly so many seconds apart, silences of exactly so many
        ms, t = [], 0
        for gap in rng.sample([1, 3, 9, 10, 11, 10], 5) * 2:
            for _ in range(4):
                ms += [radio(t, x["id"], -55 - 30 * rng.random(), RT[x["type"]]) for x in sc.levels[0].tx]; t += 1000
            for u in range(t, t + 1000 * gap, 900): ms.append(sensor(u, "ORI", 1.0))
            t += 1000 * gap
        sc.set["a"].update(useSmoothing=True, useAbFilter=rng.random() < .8, useGps=False, sigAveragingTime=rng.choice(["0.5", "1.0"]), sigWindowShift="0", noSignalTimeThreshold=40, deadReckoningTime="30.0")
    play(rng, sc, "a", ms)
    return sc

def pedometer(rng, i):
    """C16"""
    sc = Scenario(f"ped{i}"); mkworld(rng, sc, nlev=1, ntx=1)
    sc.client("a", **BASIC, stepMultiplier=rng.choice(["1.0", "0.5", "2.0"]), noActionTimeThreshold=rng.choice([3, 60]), noSignalTimeThreshold=rng.choice([2, 60]))
    kind = "thrown" if i % 10 == 7 else rng.choice(["walk", "walk", "burst", "sparse", "random"])
    ms, t = [], 0
    fr, amp, base = rng.uniform(1.0, 3.2), rng.uniform(.3, 6), rng.uniform(9.5, 10.2)
    per = rng.choice([20, 40, 50, 100]) if kind != "sparse" else rng.choice([150, 250, 400])
    n = 260 if per <= 40 else 200
    if i % 30 == 13: kind, fr, amp, per, n = "march", rng.uniform(2.1, 2.6), 3.0, 100, 1300      # hundreds of steps
    on = True
    for q in range(n):
        t += per + (rng.randrange(0, 15) if rng.random() < .3 else 0)
        if rng.random() < .01: t += rng.choice([900, 2600, 6000])
        if rng.random() < .02 and kind != "march": on = not on
        if kind == "thrown": a = rng.choice([rng.uniform(.3, 3), rng.uniform(.3, 3), rng.uniform(9, 10), rng.uniform(18, 35)])
        elif kind == "random": a = base + rng.gauss(0, amp)
        elif kind == "burst": a = base + (amp * 3 if (q // 7) % 5 == 0 else rng.gauss(0, .2))
        else: a = base + (amp * math.sin(2 * math.pi * fr * t / 1000) if on else 0) + rng.gauss(0, .1)
        ms.append(sensor(t, "ACC", rng.gauss(0, .3), rng.gauss(0, .3), a))
        if rng.random() < .1: ms.append(radio(t, sc.levels[0].tx[0]["id"], -60 - rng.random(), RT[sc.levels[0].tx[0]["type"]]))
        if rng.random() < .05: ms.append(sensor(t, "GYR", .1, 0, .2))
    play(rng, sc, "a", ms, sizes=(1, 7, 20))
    return sc

def orientation(rng, i):
    """C17"""
    sc = Scenario(f"ori{i}"); mkworld(rng, sc, nlev=1, ntx=3)
    sc.client("a", **{**BASIC, **pick(rng, useCalculatedAzimuth=[True, True, False], useEnuAzimuth=[True, False], deviceAzimuthLifetimeSeconds=["1.0", "2.5", "10.0"],
              useGps=[False, True], noSignalTimeThreshold=[35, 3], deadReckoningTime=["5.0", "30.0"])}, ab=abs_(rng, sc))
    calc = sc.set["a"]["useCalculatedAzimuth"]
    ms = stream(rng, sc, 9000, radio_ms=500, hear=.7, gps_ms=rng.choice([0, 1000]), acc_ms=100 if calc else 500, gyr_ms=rng.choice([0, 100]), mag_ms=rng.choice([100, 250]) if calc else 500,
                bar_ms=rng.choice([0, 300, 900]), ori_ms=rng.choice([300, 1500]), gaps=[(2000, rng.choice([3000, 6000]))], gap_kinds=rng.choice(["o", "ro"]))
    play(rng, sc, "a", ms)
    return sc

def altitude(rng, i):
    """C24: distances to at least four transmitters, from signals or from ranging, more or less consistent."""
    sc = Scenario(f"alt{i}"); n = 13 if i % 10 == 6 else rng.choice([4, 5, 6, 8])
    mkworld(rng, sc, nlev=rng.choice([1, 2]), ntx=n, same_origin=1, dup=.2, shared=.2, size=rng.choice([(20.0, 15.0), (60.0, 44.0)]))
    flat = rng.random() < .25
    for l in sc.levels:
        l.alt = f(rng.choice([0, 3.2, -4.5, 150.75]))
        for t in l.tx: t["alt"] = "2.5" if flat else f(rng.uniform(.5, 9))
    off = rng.choice(["-1.5", "0", "2.25"]); mt = rng.choice(["RSSI", "RSSI", "DISTANCE_V1"])
    sc.client("a", **{**BASIC, "measurementType": mt, "wiFiRttOffset": off, **pick(rng, useAltitude=[True, True, True, False], sigAveragingTime=["0.5", "1.0"],
              useGps=[False, True], useClosestAps=[False, False, True], numClosestAps=[4, 5], useUnknownTransmitters=[False, True], deadReckoningTime=["5.0", "1.0"],
              useSmoothing=[False, True])}, ab=abs_(rng, sc))
    err = rng.choice([0, .3, 3.0, 12.0]); bias = rng.choice([0, 2.0, 6.0])
    w = Walk(rng, sc, 9000, speed=1.5); ms = []
    rtt = {t["id"]: mt != "RSSI" or rng.random() < .4 for l in sc.levels for t in l.tx}
    for t in range(0, 9000, 250):
        li, x, y, _ = w.at(t)
        for k, l in enumerate(sc.levels):
            for tx in {t["id"]: t for t in reversed(l.tx)}.values():
                if rng.random() > (.9 if n > 8 else .55) or k != li and rng.random() < .8: continue
                px, py = l.txpos[tx["id"]]; d = math.hypot(px - x, py - y, 1.5 + float(tx["alt"])) + bias + rng.gauss(0, err)
                d = max(.5, d)
                if rtt[tx["id"]]: ms.append(radio(t, tx["id"], -60 - rng.random() * 20, "WIFI_RTT", d + float(off) if rng.random() < .9 else rng.uniform(.1, 2)))
                else: ms.append(radio(t, tx["id"], max(-99 - rng.random() * .5, min(-1 - rng.random() * .5, float(tx["A"]) - float(tx["B"]) * math.log(d))), RT[tx["type"]]))
        if rng.random() < .2: ms.append(sensor(t, "ORI", 1.0))
        if rng.random() < .1: ms.append(gps(t, sc.levels[li], x, y, 6.0))
    play(rng, sc, "a", ms, sizes=(1, 4, 9))
    return sc

def worlds(rng, i):
    """C18: varied level descriptions; positions of transmitters and of GPS fixes on all of them."""
    sc = Scenario(f"world{i}"); mkworld(rng, sc, nlev=rng.choice([1, 2, 3, 4]), ntx=rng.choice([1, 3]), holes=.6, graph=.6, shared=.3, same_origin=.3, dup=.5)
    sc.client("a", **{**BASIC, **pick(rng, useGps=[True], useGraphProjection=[True, False], useInstantGpsPosition=[True, False], sigAveragingTime=["0.5"], useBarriers=[True, False],
              useSmoothing=[True, False])}, ab=abs_(rng, sc))
    ms = stream(rng, sc, 9000, radio_ms=500, hear=.8, gps_ms=600, outside=.1)
    play(rng, sc, "a", ms)
    return sc

ALL_BOOL = ["useEnuAzimuth", "useTxPower", "useRadiomap", "useStops", "useBestRefPointLevel", "useClosestAps", "useTriangles", "useDiffMode", "useSmoothing", "useGraphProjection",
            "useAccuracyForSmoothing", "useSpeedConstraint", "useBarriers", "useTimeSmoothing", "useAbFilter", "useGps", "fuseGps", "useGpsOutsideMap", "useGpsSigmaFilter",
            "preferIndoorSolution", "useInstantGpsPosition", "useCalculatedAzimuth", "useUnknownTransmitters", "useAltitude"]
def everything(rng, i):
    """All settings at random: interactions between the parts."""
    sc = Scenario(f"all{i}"); mkworld(rng, sc, ntx=4, rps=[4, 6], holes=.4, graph=.5, shared=.2, same_origin=.7, dup=.2)
    b = {k: rng.random() < .4 for k in ALL_BOOL}
    b["useSmoothing"] = rng.random() < .6
    sc.client("a", **b, **pick(rng, useAlgorithm=["ZONES", "KNN", "PF_PDR"], signalsToUse=["BOTH", "BOTH", "BLE", "WIFI"], numClosestAps=[1, 3, 5], sigAveragingTime=["0.5", "1.0", "2.0"],
              sigWindowShift=["0", "0.5"], kNeighbors=[1, 3], minNumOfMeasurementsForPositionCalculation=[1, 3], sigmaFilterDelta=["1.5", "5.0"], sigmaFilterWindow=[2, 4],
              minNumSats=[4, 9], deadReckoningTime=["2.5", "5.0"], noSignalTimeThreshold=[4, 35], noActionTimeThreshold=[4, 20], maxGpsDeviation=["inf", "40.0"],
              stopDetectionTime=["1.0", "3.0"], stopUpdateTime=["1.0", "4.0"], positionIsTooOldSec=["3.0", "20.0"], smoothing=["0.2", "0.7"]), ab=abs_(rng, sc))
    a = rng.randrange(6, 20) * 500
    ms = stream(rng, sc, 14000, radio_ms=500, hear=.5, gps_ms=1200, acc_ms=rng.choice([0, 120]), ori_ms=900, mag_ms=rng.choice([0, 500]), nmea_ms=3000, alien=.05, bad=.03,
                poor=.05, outside=.05, gaps=[(a, a + rng.choice([1000, 5000]))], gap_kinds=rng.choice(["r", "rg"]))
    play(rng, sc, "a", ms)
    return sc
