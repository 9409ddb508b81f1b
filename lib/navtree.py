"""Exhaustive message sequences: every word over a small alphabet, per property.

Each function returns scenarios whose 'forest' is the full tree of words up to a
depth; the driver plays every word on a fresh client of the real code, and TLC
follows the same tree."""
import math
from navlib import *
from navgen import BASIC

def world(sc, graph=False, rps=False, n=2, locator=False, hole=False):
    ids = ["K7", "B3", "Z1"][:n]
    for i, lid in enumerate(ids):
        g = Level(lid, 55.75, 37.61, 24.5, 16.25, alt=f(3.0 * i))
        g.rect([[(10, 6), (14, 6), (14, 10), (10, 10)]] if hole else [])
        for j, (x, y) in enumerate([(3.1, 3.3), (20.7, 4.2), (12.3, 14.4)]):
            g.addtx(f"{lid}t{j}", x, y, A=-70.0 - j, B=6.0, type=["BEACON", "WIFI", "EDDYSTONE"][j])
        if locator: g.addtx(f"{lid}loc", 9.5, 9.5, type="LOCATOR")
        if graph:
            for p in [(2, 2), (20, 3), (20, 14)]: g.addv(*p)
            g.ed = [[0, 1], [2, 1]]
        sc.levels.append(g)
    if rps:
        for i, g in enumerate(sc.levels):
            for q, (x, y) in enumerate([(4, 4), (12, 3.5), (20, 5), (5, 13), (13, 12), (21, 12.5)]):
                fp = {}
                for k, h in enumerate(sc.levels):
                    for j, (id, (tx, ty)) in enumerate(h.txpos.items()):      # no two levels alike, up to a shift or not
                        fp[id] = -45.37 - 2.13 * math.hypot(tx - x, ty - y) - (14.2 + .61 * j) * abs(i - k) - 0.173 * q - .037 * i * j * (q + 2)
                g.addrp(f"p{q}{g.id}", x, y, fp)
    return sc

RT = ["BEACON", "WIFI", "EDDYSTONE"]
def r(l, j, rssi, t=0): return radio(t, f"{l.id}t{j}", rssi, RT[j])
def near(l, j, t=0, base=-55.0):
    """all transmitters of level l, j the strongest"""
    return [r(l, k, base - (0 if k == j else 9.31 + 1.7 * k), t) for k in range(3)]
def tick(): return [nmea(0, 2, 0)]
def acc(t, z): return sensor(t, "ACC", .1, -.2, z)
def stepbatch(): return [acc(-400, 9.8), acc(-300, 7.6), acc(-200, 7.9), acc(-100, 12.9), acc(0, 12.5)]

def mk(name, i, st, letters, depth, prefix=(), clock=0, **w):
    sc = world(Scenario(f"tree-{name}{i}"), **w)
    sc.client("a", **{**BASIC, **st}, ab={l.id: ("-62.0", "9.0") for l in sc.levels})
    L = letters(sc.levels) if callable(letters) else letters
    for b in (prefix(sc.levels) if callable(prefix) else prefix): sc.call("a", b)
    sc.tree("a", clock, depth, L)
    return sc

def framing(deep):
    def L(v):
        a, b = v
        return [(500, near(a, 0)), (500, [r(a, 0, -60.3), r(b, 1, -50.2, -1), r(a, 1, -58.4)]),
                (0, [acc(0, 9.9), gps(-700, a, 5, 5, 6.5), sensor(0, "ORI", 1.1)]),
                (1000, [gps(0, a, 8, 9, 7.1), r(a, 2, -51.7, -300), r(b, 0, -49.5, -1000), nmea(0, 1, 4)]),
                (-800, near(b, 2))]
    return [mk("framing", 0, dict(useGps=True, deadReckoningTime="2.0"), L, 4 + deep)]

def admission(deep):
    out = []
    def L(v):
        a, b = v
        return [(500, [r(a, 0, -60.3)]), (500, [r(a, 1, -58.1)]), (500, [radio(0, f"{a.id}t2", -59.2, "WIFI_RTT", 3.0)]),
                (500, [r(b, 0, 0.0)]), (500, [r(b, 0, -81.0)]), (500, [radio(0, "alien", -40.0)]), (500, [radio(0, f"{b.id}loc", -42.0)])]
    for i, s in enumerate([dict(signalsToUse="BLE"), dict(signalsToUse="WIFI"), dict(sigCutOffRss="-81"), dict(useTracking=True),
                           dict(useUnknownTransmitters=True), dict(measurementType="DISTANCE_V1")]):
        out.append(mk("admission", i, {"sigAveragingTime": "0.5", "sigCutOffRss": "-81.5", **s}, L, 3 + deep, locator=True))
    return out

def window(deep):
    def L(v):
        a, b = v
        return [(100, [r(a, 0, -60.3)]), (400, [r(a, 1, -57.2)]), (500, [r(a, 0, -71.9), r(a, 2, -66.0)]), (1000, [acc(0, 9.8)]), (2500, [r(a, 0, -50.0)])]
    return [mk("window", i, s, L, 5, n=2) for i, s in enumerate([dict(sigAveragingTime="1.0"), dict(sigAveragingTime="2.0", sigWindowShift="0.5")]
            + ([dict(sigAveragingTime="3.0", sigWindowShift="1.0"), dict(sigAveragingTime="0.5", sigWindowShift="1.0")] if deep else []))]

def levels(deep):
    def L(v):
        a, b = v
        return [(500, near(a, 0)), (500, near(b, 1)), (500, near(a, 2, base=-61.0) + near(b, 1, base=-60.4)),
                (500, [r(a, 1, -66.2), r(b, 0, -63.1), r(b, 2, -71.2)]), (500, [r(a, 0, -72.1)]), (500, [radio(0, "alien", -50.5)])]
    S = [dict(), dict(useTxPower=True), dict(useRadiomap=True), dict(useRadiomap=True, useBestRefPointLevel=True), dict(useClosestAps=True, numClosestAps=2)]
    return [mk("levels", i, {"sigAveragingTime": "0.5", "useUnknownTransmitters": True, **s}, L, 3 + deep, rps=True) for i, s in enumerate(S)]

def hysteresis(deep):
    def L2(v): return [(500, near(v[0], 0)), (500, near(v[1], 1))]
    def L3(v): return [(500, near(v[0], 0)), (500, near(v[1], 1)), (500, near(v[2], 2))]
    return [mk("hyst", 0, dict(sigAveragingTime="0.5"), L2, 10 + deep), mk("hyst", 1, dict(sigAveragingTime="0.5"), L3, 6 + deep, n=3),
            mk("hyst", 2, dict(sigAveragingTime="0.5"), lambda v: [(500, near(v[0], 0)), (500, near(v[1], 1)), (500, [acc(0, 9.8)])], 6 + deep,
               prefix=lambda v: [near(v[k], 0, t) for k, t in ((0, 0), (1, 500), (1, 1000), (1, 1500))], clock=1500)]

def barometer(deep):
    def P(p, n): return [sensor(-10 * (n - q), "BAR", p + .001 * (q % 3)) for q in range(n)]
    def many(l, j): return [m for q in range(5) for m in near(l, j, -2000 + 500 * q)]
    def L(v): return [(700, P(1000.0, 55)), (700, P(999.55, 55)), (3000, many(v[0], 0)), (3000, many(v[1], 1))]
    return [mk("baro", 0, dict(useBarometer=True, sigAveragingTime="0.5"), L, 4 + deep, prefix=lambda v: [near(v[0], 0, -2000)] + [P(1000.0, 100)] * 1, clock=0),
            mk("baro", 2, dict(useBarometer=True, sigAveragingTime="0.5"), lambda v: [(500, P(1000.0, 1)), (500, near(v[0], 0)), (500, near(v[1], 1))], 5 + deep,
               prefix=lambda v: [near(v[0], 0, -4000), P(1000.0, 200)] + [near(v[1], 1, -1 + 500 * q) for q in range(1, 5)], clock=2000),
            mk("baro", 1, dict(useBarometer=True, sigAveragingTime="0.5"), L, 3, prefix=lambda v: [many(v[0], 0), P(1000.0, 205)], clock=0)]

def loss(deep):
    def L(v):
        a, b = v
        return [(500, near(a, 0)), (500, near(b, 1)), (700, [gps(0, a, 9, 7, 6.5)]), (1000, tick()), (2000, [acc(0, 9.8)]), (300, [r(a, 0, -120.0)])]
    return [mk("loss", i, s, L, 5 + deep, prefix=lambda v: [near(v[0], 0, 0), near(v[0], 0, 500)], clock=500) for i, s in enumerate(
        [dict(noSignalTimeThreshold=3, deadReckoningTime="2.0", useGps=True, sigAveragingTime="0.5")]
        + [dict(noSignalTimeThreshold=30, noActionTimeThreshold=2, deadReckoningTime="3.0", sigAveragingTime="0.5")])] + [
        mk("loss", 7, dict(noSignalTimeThreshold=9, noActionTimeThreshold=2, deadReckoningTime="2.0", sigAveragingTime="0.5"),
           lambda v: [(500, near(v[0], 1)), (500, stepbatch()), (2000, tick()), (1000, tick())], 5 + deep,
           prefix=lambda v: [near(v[0], 0, 0)] + [stepbatch_at(1500)], clock=1500)]

def stepbatch_at(t): return [dict(m, ts=m["ts"] + t) for m in stepbatch()]

def zone(deep):
    def L(v):
        a, b = v
        return [(500, near(a, 0)), (500, near(a, 2, base=-77.0)), (500, [r(a, 1, -40.2), r(b, 0, -39.0)]), (500, [r(b, 2, -47.3)]), (500, [radio(0, "alien", -30.5)])]
    return [mk("zone", 0, dict(sigAveragingTime="0.5", useUnknownTransmitters=True), L, 4 + deep)]

def knn(deep):
    def L(v):
        a, b = v
        return [(500, near(a, 0) + [r(b, 0, -70.1), r(b, 1, -74.9)]), (500, near(a, 1, base=-50.0) + near(b, 1, base=-64.5)), (500, near(a, 2)),
                (500, [r(a, 0, -58.5), r(a, 1, -62.0)]), (500, near(b, 2) + near(a, 0, base=-68.0))]
    S = [dict(useTriangles=True, useDiffMode=True), dict(useTriangles=False, kNeighbors=1), dict(useTriangles=False, kNeighbors=3, useDiffMode=False), dict(useTriangles=True, useDiffMode=False)]
    return [mk("knn", i, {"useAlgorithm": "KNN", "minNumOfMeasurementsForPositionCalculation": 3, "sigAveragingTime": "0.5", **s}, L, 3 + deep, rps=True) for i, s in enumerate(S)]

def gpsprof(deep):
    def L(v):
        a = v[0]
        return [(500, [gps(0, a, 9, 7, 6.5)]), (500, [gps(0, a, 15, 12, 3.0)]), (500, [gps(0, a, 8, 7, 31.0)]), (500, [gps(0, a, -6, 7, 6.0)]), (500, [nmea(0, 1, 3)]), (0, [nmea(0, 1, 9)]), (600, tick()), (500, near(a, 0))]
    S = [dict(maxGpsDeviation="30.0", minNumSats=6, gpsValidTimeWindowSec="1.0"), dict(useGpsSigmaFilter=True, sigmaFilterWindow=2, sigmaFilterDelta="1.5", minGpsDeviation="5.0"), dict(useGpsOutsideMap=True, useInstantGpsPosition=True)]
    return [mk("gps", i, {"useGps": True, "deadReckoningTime": "2.0", "sigAveragingTime": "0.5", **s}, L, 4 if i < 2 or deep else 3) for i, s in enumerate(S)]

def fusion(deep):
    def L(v):
        a = v[0]
        return [(500, near(a, 0)), (500, near(a, 1, base=-70.0)), (500, [gps(0, a, 6, 6, 6.5)]), (500, [gps(0, a, 21.5, 15, 11.0)]), (2500, tick())]
    S = [dict(fuseGps=True, fuseGpsBorderM="3.5"), dict(preferIndoorSolution=True), dict(useInstantGpsPosition=True, preferIndoorSolution=True), dict(positionIsTooOldSec="2.0")]
    return [mk("fusion", i, {"useGps": True, "sigAveragingTime": "0.5", "deadReckoningTime": "4.5", "minGpsDeviation": "2.0", "priorDeviation": "10.0", **s}, L, (5 if i in (0, 3) else 4) + (deep if i == 0 else 0)) for i, s in enumerate(S)]

def shaping(deep):
    def L(v):
        a = v[0]
        return [(500, near(a, 0)), (500, near(a, 1)), (500, [gps(0, a, 24.4999, 0.0007, 6.5)]), (500, [gps(0, a, 24.9, 17.1, 5.0)]), (500, [gps(0, a, 20.3, 9.1, 5.5)])]
    S = [dict(useGraphProjection=True, graphProjDist="1.5"), dict(useGraphProjection=True, graphProjDist="50"), dict(useGpsOutsideMap=True), dict(useGpsOutsideMap=True, useGraphProjection=True)]
    return [mk("shape", i, {"useGps": True, "sigAveragingTime": "0.5", "minGpsDeviation": "1.0", "useInstantGpsPosition": True, **s}, L, 3 + deep, graph=True, prefix=lambda v: [near(v[0], 0)]) for i, s in enumerate(S)]

def stops(deep):
    def L(v):
        a = v[0]
        return [(500, near(a, 0)), (500, near(a, 1)), (500, near(a, 2)), (500, stepbatch()), (1500, tick())]
    P = lambda v: [near(v[0], 0, 0), stepbatch_at(1000), near(v[0], 2, 1500)]
    S = [dict(stopUpdateTime="1.0", useStopsDistanceThresholdM="13.0"), dict(stopUpdateTime="2.0", useStopsDistanceThresholdM="1000")]
    return [mk("stops", i, {"useStops": True, "stopDetectionTime": "1.0", "sigAveragingTime": "0.5", "noActionTimeThreshold": 60, **s}, L, 5 + (deep if i == 0 else 0), prefix=P, clock=1500) for i, s in enumerate(S)]

def smoothing(deep):
    def L(v):
        a, b = v
        return [(300, near(a, 0)), (1000, near(a, 1)), (500, near(a, 2)), (11000, near(a, 1)), (500, near(b, 1))]
    S = [dict(useSpeedConstraint=False), dict(useAccuracyForSmoothing=True, useSpeedConstraint=False), dict(useBarriers=True, useSpeedConstraint=False), dict(useAbFilter=False, sigAveragingTime="1.0", sigWindowShift="0.25"), dict(useTimeSmoothing=True), dict()]
    return [mk("smooth", i, {"useSmoothing": True, "sigAveragingTime": "0.25", "smoothing": "0.6", **s}, L, 4 + (deep if i in (0, 3) else 0), hole=s.get("useBarriers", False),
               prefix=lambda v: [near(v[0], 0, 0), near(v[0], 0, 600)], clock=600) for i, s in enumerate(S)]

def pedometer(deep):
    L = [(100, [acc(0, 9.6)]), (100, [acc(0, 12.7)]), (250, [acc(0, 11.2)])]
    return [mk("ped", 0, dict(stepMultiplier="1.5"), L, 7 + deep, prefix=[[acc(100 * q, 9.7 + .3 * (q % 3)) for q in range(6)]], clock=600, n=1)]

def orientation(deep):
    def L(v):
        return [(300, [sensor(0, "ORI", 3.9)]), (300, [sensor(0, "MAG", 20.1, -9.3, -35.0)]), (200, [sensor(0, "GYR", .1, -.2, 1.7)]), (100, [acc(0, 9.2)]), (1000, tick()), (500, near(v[0], 0))]
    S = [dict(), dict(useEnuAzimuth=True), dict(useCalculatedAzimuth=True), dict(useCalculatedAzimuth=True, useEnuAzimuth=True)]
    return [mk("ori", i, {"deviceAzimuthLifetimeSeconds": "0.5", "sigAveragingTime": "0.5", **s}, L, 4, prefix=lambda v: [near(v[0], 0)], n=1) for i, s in enumerate(S)]
