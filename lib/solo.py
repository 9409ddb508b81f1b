"""Scenarios for the standalone algorithms: random histories and exhaustive words."""
import itertools, math
from navlib import f

class Solo:
    """A list of commands; 'open' starts a new object, every command yields one result line."""
    def __init__(self, name): self.name, self.cmds = name, []
    def add(self, text, **line): self.cmds.append((text, line)); return self
    def driver_text(self): return [t for t, _ in self.cmds]
    def trace(self, results):
        out = []
        if len(results) < len(self.cmds) and not (results and "crash" in results[-1]): results = results + [{"crash": "missing results"}]
        for (_, line), r in zip(self.cmds, results):
            if "crash" in r: out.append({"e": "crash", "what": r["crash"]}); break
            out.append({**line, **r})
        return out

EPOCH = 1600000000000
def words(alphabet, depth): return itertools.product(range(len(alphabet)), repeat=depth)
def pack(name, alphabet, depth, start, parts=16):
    """Every word over the alphabet; letters are functions of (scenario, state dict)."""
    scs = [Solo(f"words-{name}-{i}") for i in range(parts)]
    for n, w in enumerate(words(alphabet, depth)):
        s = scs[n % parts]; st = start(s)
        for a in w: alphabet[a](s, st)
    return scs

# ---------------------------------------------------------------- trilateration
class Tri:
    @staticmethod
    def open(s): s.add("open", e="open", kind="trilat")
    @staticmethod
    def map(s, bs): s.add(f"map {len(bs)} " + " ".join(f"{i} {x} {y}" for i, x, y in bs), e="op", op="map", beacons=[{"id": i, "x": x, "y": y} for i, x, y in bs])
    @staticmethod
    def meas(s, ms): s.add(f"meas {len(ms)} " + " ".join(f"{i} {d} {r}" for i, d, r in ms), e="op", op="meas", meas=[{"id": i, "d": d} for i, d, r in ms])
    @staticmethod
    def calc(s): s.add("calc", e="op", op="calc")
    @staticmethod
    def copy(s): s.add("copy", e="op", op="copy")

MAPA = [("a", "1.5", "2.25"), ("b", "11.0", "3.5"), ("c", "6.25", "14.0"), ("d", "-3.0", "8.125")]
MAPB = [("c", "2.0", "2.0"), ("a", "9.5", "-4.0"), ("c", "30.0", "31.0"), ("e", "5.0", "5.5")]
def trilat_words(depth):
    M = [[("a", "2.5", "-60"), ("b", "7.1", "-70"), ("c", "9.4", "-71")],
         [("b", "3.0", "-66"), ("a", "4.0", "-60"), ("b", "8.0", "-80"), ("d", "6.5", "-71"), ("zz", "1.0", "-40"), ("b", "1.0", "-50")],
         [("a", "2.5", "-60"), ("b", "-7.1", "-70"), ("c", "9.4", "-71"), ("q", "1.5", "-71")],
         [("a", "2.5", "-60"), ("b", "7.1", "-70"), ("a", "9.4", "-71")],
         [("c", "0", "-60"), ("b", "7.1", "-70"), ("d", "0.5", "-71")],
         [("x", "1.2", "-60"), ("y", "7.1", "-70"), ("z", "0.5", "-71")],
         [("a", "1.2", "-60"), ("y", "7.1", "-70"), ("z", "0.5", "-71")]]
    def with_meas(m):
        def go(s, st): Tri.meas(s, m); Tri.calc(s)
        return go
    def to_b(s, st): Tri.map(s, MAPB); Tri.calc(s)
    def again(s, st): Tri.copy(s); Tri.calc(s)
    def start(s): Tri.open(s); Tri.map(s, MAPA); return {}
    return pack("trilat", [with_meas(m) for m in M] + [to_b, again], depth, start)

def trilat_random(rng, i):
    s = Solo(f"trilat-{i}"); Tri.open(s)
    n = rng.randint(1, 9)
    ids = [f"t{k}" for k in range(n)]; known = [x for x in ids if rng.random() < .8]
    if rng.random() < .8: Tri.map(s, [(x, f(rng.uniform(-60, 90)), f(rng.uniform(-60, 90))) for x in known + [rng.choice(ids) for _ in range(rng.randint(0, 2))]])
    for _ in range(rng.randint(4, 12)):
        q = rng.random()
        if q < .15: Tri.map(s, [(x, f(rng.uniform(-60, 90)), f(rng.uniform(-60, 90))) for x in rng.sample(ids, rng.randint(0, n))])
        elif q < .25: Tri.copy(s)
        elif q < .75:
            scale = rng.choice([1, 1, 20, 300, .01])
            ms = [(rng.choice(ids), f(abs(rng.gauss(0, scale)) if rng.random() > .04 else rng.choice([0.0, 0.0, -1.5]), 5), f(-rng.uniform(30, 95))) for _ in range(rng.randint(0, 12))]
            Tri.meas(s, ms)
        if q < .85: Tri.calc(s)
        if q > .95: Tri.calc(s)
    Tri.calc(s)
    return s

# ---------------------------------------------------------------- pedometer
class Ped:
    @staticmethod
    def open(s, epoch): s.add(f"open {EPOCH if epoch else 0}", e="open", kind="ped", epoch=epoch)
    @staticmethod
    def upd(s, b): s.add(f"upd {len(b)} " + " ".join(f"{t} {x} {y} {z}" for t, x, y, z in b), e="op", op="upd", batch=[{"ts": t, "x": x, "y": y, "z": z} for t, x, y, z in b])
    @staticmethod
    def steps(s): s.add("steps", e="op", op="steps")

def ped_words(depth):
    def letter(gap, zs, calc=True):
        def go(s, st):
            b = []
            for z in zs: st["t"] += gap; st["n"] += 1; b.append((st["t"], ".1", f(-.2 + .013 * st["n"]), z))
            Ped.upd(s, b)
            if calc: Ped.steps(s)
        return go
    def start(s):
        Ped.open(s, False); st = {"t": 900, "n": 0}
        letter(100, ["9.71", "9.93", "9.62", "9.84"])(s, st)
        return st
    def fresh(s): Ped.open(s, True); return {"t": 900, "n": 0}
    return pack("ped0", [letter(260, ["1.5"]), letter(260, ["24.5"]), letter(90, ["9.8", "19.7"])], depth + 1, fresh) + \
           pack("ped", [letter(100, ["9.6"]), letter(100, ["12.7"]), letter(250, ["11.2"]), letter(110, ["8.4", "13.1"]), letter(100, ["12.9"], False)], depth, start)

def ped_random(rng, i):
    s = Solo(f"ped-{i}"); epoch = rng.random() < .7
    Ped.open(s, epoch)
    t = rng.choice([0, 1, 7, 450]) if rng.random() < .3 else rng.randint(1000, 4000)
    rate = rng.choice([10, 17, 20, 33, 50, 100, 100, 180, 330])
    freq, amp, noise = rng.uniform(.8, 3.2), rng.choice([.4, 1.5, 3, 6]), rng.choice([.02, .3, 1.5])
    group = rng.choice([1, 1, 1, 3, 8, 20])
    total = rng.randint(20, 260) if rate < 60 else rng.randint(20, 110)
    b = []; ph = 0.0
    for k in range(total):
        if rng.random() < .03: amp = rng.choice([.1, .4, 1.5, 3, 6]); freq = rng.uniform(.8, 3.2)
        z = 9.81 + amp * math.sin(ph) + rng.gauss(0, noise)
        if i % 8 == 5: z = rng.choice([rng.uniform(.3, 3), rng.uniform(.3, 3), rng.uniform(9, 10), rng.uniform(18, 35)])      # thrown about
        ph += freq * 2 * math.pi * rate / 1000.0
        b.append((t, f(rng.gauss(0, noise), 5), f(rng.gauss(.4, noise), 5), f(z, 5)))
        if len(b) >= group or k == total - 1:
            Ped.upd(s, b); b = []
            if rng.random() < .93: Ped.steps(s)
            if rng.random() < .05: Ped.steps(s)
            if group > 1 and rng.random() < .1: group = rng.choice([1, 2, 5, 20])
        t += rate if rng.random() < .9 else rng.choice([0, 1, rate, 3 * rate, 700, 2500, 5001])
    Ped.steps(s)
    return s

# ---------------------------------------------------------------- orientation filter
class Cf:
    @staticmethod
    def open(s, gains=None):
        a, m, i = gains or ("0.1", "0.05", "0.0")
        s.add(f"open {EPOCH} " + ("default" if gains is None else f"{a} {m} {i}"), e="open", kind="cf", ka=a, km=m, ki=i)
    @staticmethod
    def msr(s, t, ts, x, y, z): s.add(f"msr {t} {ts} {x} {y} {z}", e="op", op="msr", type=t, ts=ts, x=x, y=y, z=z)

def cf_words(depth):
    def letter(t, dt, x, y, z):
        def go(s, st): st["t"] += dt; Cf.msr(s, t, st["t"], x, y, z)
        return go
    def start(s): Cf.open(s, ("0.25", "0.15", "0.02")); return {"t": 5000}
    return pack("cf", [letter("ACC", 10, ".6", "-1.2", "9.2"), letter("MAG", 20, "20.1", "-9.3", "-35.0"), letter("MAG", 20, "0", "0", "0"), letter("GYR", 30, ".4", "-.3", "1.7"),
                       letter("ORI", 15, "1.1", "0", "0"), letter("ACC", 50, "-9.1", ".3", "1.9"), letter("BAR", 40, "1000", "0", "0")], depth, start)

def cf_random(rng, i):
    s = Solo(f"cf-{i}"); t = rng.randint(0, 5000)
    Cf.open(s, None if rng.random() < .3 else (f(rng.choice([0, .02, .1, .5])), f(rng.choice([0, .05, .4])), f(rng.choice([0, .001, .05, 1e-9]), 10)))
    kinds = rng.choice([["ACC", "MAG", "GYR"], ["ACC", "MAG"], ["ACC", "GYR"], ["ACC", "MAG", "GYR", "ORI", "BAR", "LOC"], ["MAG"], ["MAG", "ORI"]])
    tilt = [rng.gauss(0, 1) for _ in range(3)]; tn = math.sqrt(sum(v * v for v in tilt)) or 1
    if rng.random() < .5: tilt = [.1, -.2, 1]; tn = 1.03
    noise = rng.choice([0, .05, .8])
    fld = [rng.gauss(0, 30) for _ in range(3)]; turn = [rng.gauss(0, rng.choice([.01, .5, 3])) for _ in range(3)]
    for _ in range(rng.randint(10, 120)):
        k = rng.choice(kinds); t += rng.choice([0, 5, 10, 10, 20, 20, 50, 100, 1000])
        if rng.random() < .02: fld = [rng.gauss(0, 30) for _ in range(3)]
        if k == "ACC": v = [9.81 * tilt[q] / tn + rng.gauss(0, noise) for q in range(3)]
        elif k == "MAG": v = [fld[q] + rng.gauss(0, 10 * noise) for q in range(3)]
        elif k == "GYR": v = [turn[q] + rng.gauss(0, noise) for q in range(3)]
        else: v = [rng.uniform(-7, 7) for _ in range(3)]
        if rng.random() < .02: v = [0, 0, 0]
        Cf.msr(s, k, t, f(v[0], 5), f(v[1], 5), f(v[2], 5))
    return s

# ---------------------------------------------------------------- nearest transmitter
class Zone:
    @staticmethod
    def open(s, txs, avg=None, shift=None, wifi=True, ble=True, epoch=True):
        a, h = (avg, shift) if avg is not None else ("3.0", "2.0")
        s.add(f"open {EPOCH if epoch else 0} " + ("default" if avg is None else f"{a} {h} {int(wifi)} {int(ble)}") + f" {len(txs)} " + " ".join(f"{i} {x} {y}" for i, x, y in txs),
              e="open", kind="zone", k={"avg": a, "shift": h, "wifi": wifi, "ble": ble}, txs=[{"id": i, "x": x, "y": y} for i, x, y in txs])
    @staticmethod
    def m(t, ts, id, rssi, dist="0"): return {"type": t, "ts": ts, "id": id, "rssi": rssi, "dist": dist}
    @staticmethod
    def text(m): return "{type} {ts} {id} {rssi} {dist}".format(**m)
    @staticmethod
    def upd(s, m): s.add("upd " + Zone.text(m), e="op", op="upd", m=m)
    @staticmethod
    def ext(s): s.add("ext", e="op", op="ext")
    @staticmethod
    def pos(s): s.add("pos", e="op", op="pos")
    @staticmethod
    def est(s, ms): s.add(f"est {len(ms)} " + " ".join(Zone.text(m) for m in ms), e="op", op="est")

TXS = [("a", "1.5", "2.0"), ("b", "9.25", "3.0"), ("c", "5.0", "12.0"), ("a", "2.5", "-1.0")]
def zone_words(depth):
    def letter(dt, t, id, rssi, dist="1.5", look=True):
        def go(s, st):
            st["t"] += dt; st["n"] += 1
            Zone.upd(s, Zone.m(t, st["t"], id, rssi if rssi[-1] == "!" or rssi == "0" else f(float(rssi) - .017 * st["n"]), f(float(dist) + .3 * st["n"])))
            if look: Zone.ext(s); Zone.pos(s)
        return go
    def start(s): Zone.open(s, TXS, "1.0", "0.5"); return {"t": 2000, "n": 0}
    return pack("zone", [letter(200, "BEACON", "a", "-60"), letter(300, "WIFI", "b", "-55", look=False), letter(500, "BEACON", "c", "-70"), letter(200, "BEACON", "u", "-40"),
                         letter(-150, "BEACON", "b", "-64"), letter(500, "WIFI", "c", "0"), letter(11000, "BEACON", "b", "-58")], depth, start)

def zone_random(rng, i):
    s = Solo(f"zone-{i}")
    n = rng.randint(1, 9); ids = [f"t{k}" for k in range(n)]
    txs = [(x, f(rng.uniform(-50, 80)), f(rng.uniform(-50, 80))) for x in ids if rng.random() < .85]
    if txs and rng.random() < .3: txs.append((rng.choice(txs)[0], f(rng.uniform(-50, 80)), f(rng.uniform(-50, 80))))
    if rng.random() < .3: Zone.open(s, txs)
    else: Zone.open(s, txs, f(rng.choice([.5, 1, 1, 2, 3, 5, 0])), f(rng.choice([0, .25, .5, 1, 2, 4])), rng.random() < .85, rng.random() < .85, rng.random() < .8)
    t = rng.randint(0, 5000); level = {x: rng.uniform(-99, -30) for x in ids}
    for _ in range(rng.randint(15, 140)):
        t += rng.choice([0, 20, 50, 100, 100, 200, 500, 1000] + [10001] * (rng.random() < .1))
        q = rng.random()
        if q < .75:
            x = rng.choice(ids); level[x] += rng.gauss(0, 3)
            r = rng.choice([0, 3.0, -100, -100.01, -99.99, -.01]) if rng.random() < .06 else max(-99.9, min(-1, level[x]))
            Zone.upd(s, Zone.m(rng.choice(["BEACON", "BEACON", "WIFI"]), max(0, t - (rng.choice([0, 30, 400, 1500, 4000]) if rng.random() < .25 else 0)), x, f(r), f(abs(rng.gauss(0, 9)))))
        if q > .6: Zone.ext(s); Zone.pos(s)
        if q > .95:
            ms = [Zone.m("BEACON", max(0, t - rng.choice([0, 0, 300, 4000])), rng.choice(ids + ["u"]), f(rng.choice([-55.5, -60.25, rng.uniform(-99, -20)]))) for _ in range(rng.randint(0, 5))]
            Zone.est(s, ms)
    Zone.ext(s); Zone.pos(s)
    return s
