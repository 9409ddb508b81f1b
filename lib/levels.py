"""Scenarios for the level collection, asked directly (C25)."""
import json, math
from navlib import *
import navgen
from solo import Solo, pack

class Lv:
    """The very same texts go to the real code and to the specification."""
    def __getattr__(self, op):
        def cmd(s, **a): s.add(f"{op} " + json.dumps(a, ensure_ascii=False), e="op", op=op, **a)
        return cmd
lv = Lv()
def start(s): s.add("open", e="open", kind="level")
def add(s, g): s.add("add " + json.dumps(g.json(), ensure_ascii=False), e="op", op="add", level=g.json())

def graph(s, n, ed): s.add("graph " + json.dumps({"n": n, "ed": ed}), e="op", op="graph", n=n, given=ed)

def inside(rng, w, h): return {"x": f(rng.uniform(-.05, 1.05) * w, 6), "y": f(rng.uniform(-.05, 1.05) * h, 6)}
def level_random(rng, i):
    s = Solo(f"levels-{i}"); start(s)
    w = Scenario("w"); navgen.mkworld(rng, w, nlev=rng.choice([1, 2, 3, 6]), holes=.7, graph=.7, rps=rng.choice([0, [3, 6]]), shared=.5, dup=.4, locators=.2, same_origin=.4)
    todo = list(w.levels)
    if rng.random() < .4:            # a level under a name that is there already, somewhere else
        g = rng.choice(w.levels); h = Level(g.id, g.lat0 - .4, g.lon0 + .3 if g.lon0 < 179 else g.lon0 - .5, g.w * 1.3, g.h * .8, alt="7.5"); h.rect()
        h.addtx(rng.choice(g.tx)["id"], 1.5, 1.25); h.addtx("only here", 2.5, 2.25); todo.append(h)
    for g in todo: g.alt = f(rng.choice([0, 3.0, 1.25, -6.5, 420.25]))
    if rng.random() < .3:            # an empty level
        g = Level("bare", 10.0, -20.0, 12.0, 7.0); g.rect(); todo.insert(rng.randrange(len(todo) + 1), g)
    names = [g.id for g in todo] + ["nowhere", "", todo[0].id + "x", todo[0].id.swapcase()]
    txs = [t["id"] for g in todo for t in g.tx] + ["unknown", "only here", ""]; txs += [x.upper() for x in txs[:2]] + [txs[0] + "0"]
    rps = [r["id"] for g in todo for r in g.rp] + ["none"]
    done = []
    while todo:
        for g in todo[:rng.choice([1, 1, 2, 4])]: add(s, g); done.append(g); todo.remove(g)
        for _ in range(rng.randint(3, 16)):
            q = rng.random(); g = rng.choice(done)
            if q < .06: lv.levels(s)
            elif q < .07:
                n = rng.choice([0, 1, 2, 5, 40]); graph(s, n, [[rng.randint(-1, n), rng.randint(-1, n)] if rng.random() < .3 or not n else [rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(0, 12))])
            elif q < .12: lv.has(s, id=rng.choice(names))
            elif q < .24: lv.find(s, tx=rng.choice(txs))
            elif q < .34: lv.level(s, id=rng.choice(names))
            elif q < .54: lv.tx(s, level=rng.choice(names) if rng.random() < .3 else g.id, tx=rng.choice(txs))
            elif q < .6: lv.rp(s, level=g.id, rp=rng.choice(rps))
            elif q < .68: lv.hear(s, level=g.id, ids=[rng.choice(txs) for _ in range(rng.randint(0, 9))])
            else:
                first = next(x for x in done if x.id == g.id)
                near = rng.random() < .5; a = inside(rng, first.w, first.h); path = [a]
                for _ in range(rng.choice([1, 1, 1, 2, 4])):
                    b = path[-1]
                    path.append({"x": f(float(b["x"]) + rng.gauss(0, .08) * first.w, 6), "y": f(float(b["y"]) + rng.gauss(0, .08) * first.h, 6)} if near else inside(rng, first.w, first.h))
                lv.path(s, level=g.id, path=path)
    for g in done: lv.level(s, id=g.id)
    for _ in range(rng.randint(2, 8)):
        b = [f(rng.choice([rng.uniform(-80, 80), 0.0, 89.0, -66.5]), 8), f(rng.choice([rng.uniform(-180, 180), 179.9999, -179.9999, 180.0, 0.0]), 8)]
        if rng.random() < .5: lv.local(s, lat=f(float(b[0]) + rng.uniform(-.01, .01), 9), lon=f((float(b[1]) + rng.uniform(-.01, .01) + 180) % 360 - 180, 9), bind=b)
        else: lv.geo(s, x=f(rng.uniform(-900, 900), 5), y=f(rng.uniform(-900, 900), 5), bind=b)
    return s

def level_words(depth):
    def made(id, lat, lon, w, h, alt, tx, shift=0.0):
        g = Level(id, lat, lon, w, h, alt); g.rect([[(w * .3, h * .3), (w * .6, h * .3), (w * .6, h * .7), (w * .3, h * .7)]] if w > 15 else [])
        for j, x in enumerate(tx): g.addtx(x, 1.3 + j + shift, 2.1 + .5 * j, A=-60.0 - j, B=2.5, type=["BEACON", "LOCATOR", "WIFI"][j % 3], alt=.5 * j)
        g.addv(1, 1); g.addv(5, 2); g.addv(3, 4); g.ed = [[0, 1], [2, 0], [1, 0]]
        g.addrp(f"r{id}", 2.2, 3.3, {x: -50.25 - j for j, x in enumerate(tx)})
        return g
    L = [made("a", 55.7, 37.6, 20.5, 11.25, "3.0", ["t1", "t2"]), made("b", -33.8, 179.99995, 14.0, 9.0, "-2.5", ["t2", "t3"]), made("a", 10.0, -20.0, 30.0, 25.0, "0", ["t3", "t4"], .7), made("c", 0.0, 0.0, 8.0, 6.0, "9.75", [])]
    def adding(g): return lambda s, st: (add(s, g), st.append(g))
    def asking(s, st):
        for x in "abc": lv.level(s, id=x); lv.has(s, id=x)
        for x in ("t1", "t2", "t3", "t4"):
            lv.find(s, tx=x)
            for l in "ab": lv.tx(s, level=l, tx=x)
        lv.levels(s); graph(s, 3, [[0, 1], [1, 0], [2, 2], [3, 0], [0, -1], [2, 0]][len(st) % 3:])
        for g in st:
            lv.hear(s, level=g.id, ids=["t3", "t1", "t9", "t2", "t3", "t4"]); lv.rp(s, level=g.id, rp="ra")
            for p in ([(.5, .7), (2.9, 4.1)], [(1.1, 1.7), (13.1, 8.3)], [(2.0, 5.6), (40.0, 6.0)], [(4.1, 9.9), (5.2, 9.1), (12.3, 9.7)]):
                lv.path(s, level=g.id, path=[{"x": f(x), "y": f(y)} for x, y in p])
    def begin(s): start(s); return []
    return pack("levels", [adding(g) for g in L] + [asking], depth, begin)
