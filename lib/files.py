"""Documents for the file readers: systematic and random, as file text and as trace value."""
import json, math
from solo import Solo, EPOCH

class Num(str):                        # a decimal: itself in the file, a text in the trace
    pass
class Ts(int): pass                    # a time stamp: absolute in the file, relative in the trace
def text(x):
    if isinstance(x, Num): return str(x)
    if isinstance(x, Ts): return str(EPOCH + int(x))
    if isinstance(x, dict): return "{" + ",".join(json.dumps(k) + ":" + text(v) for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)): return "[" + ",".join(text(v) for v in x) + "]"
    return json.dumps(x)
def plain(x):
    if isinstance(x, Num): return str(x)
    if isinstance(x, Ts): return int(x)
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    return x
def num(v, d=4): return Num(repr(round(v, d)))

class Fil:
    @staticmethod
    def open(s): s.add(f"open {EPOCH}", e="open", kind="file")
    @staticmethod
    def msgs(s, doc): s.add("msgs " + json.dumps([text(d) for d in doc]), e="op", op="msgs", doc=plain(doc))
    @staticmethod
    def settings(s, doc): s.add("settings " + json.dumps(text(doc)), e="op", op="settings", doc=plain(doc))
    @staticmethod
    def none(s): s.add("settings null", e="op", op="nosettings")
    @staticmethod
    def map(s, doc, points, paths):
        s.add("map " + json.dumps({"text": text(doc), "points": [[float(v) for v in p] for p in points], "paths": [[[float(v) for v in p] for p in q] for q in paths]}),
              e="op", op="map", doc=plain(doc), points=plain(points), paths=plain(paths))

# ------------------------------------------------------------------ messages
RADIO, SENSOR = [201, 202, 203, 204, 205], [101, 102, 103, 104, 105, 106]
def message(rng, t):
    m = {"timestamp": Ts(rng.randint(-3000, 90000)), "type": t}
    if t in SENSOR: m["values"] = [num(rng.gauss(0, 20)) for _ in range(3)]
    elif t in RADIO:
        m["bssid"] = rng.choice(["(1,2,F7826DA6)", "AA:BB:CC:00:11:22", "x", "a b", ""])
        for k, lo, hi in (("rssi", -99, -20), ("distance", .1, 40), ("power", -90, 5), ("stddev", 0, 9)):
            if rng.random() < .6: m[k] = num(rng.uniform(lo, hi)) if rng.random() < .5 else Num(str(rng.randint(math.ceil(lo), int(hi))))
    elif t == 300: m["sentence_number"] = rng.randint(0, 12); m["num_sats"] = rng.randint(0, 30)
    else: m["comment"] = "turned left"
    if rng.random() < .2: m["note"] = {"by": "hand"}
    items = list(m.items()); rng.shuffle(items)
    return dict(items)

# ------------------------------------------------------------------ settings
BOOLS = """Use_enu_azimuth Differention_mode Use_beacon_power Use_radiomap Use_stops Use_tracking Use_best_ref_point_level Use_barometer Use_unknown_beacons Use_closest_aps
Use_projection_to_white_area Use_uniform_sampling Use_triangles Use_diff_mode Use_smoothing Use_graph_projection Use_accuracy_for_smoothing Use_speed_constraint Use_barriers
Use_time_smoothing Use_ab_filter Use_altitude Use_gps Use_instant_gps_position Prefer_indoor_solution Fuse_gps Use_gps_outside_map Use_gps_sigma_filter Use_calculated_azimuth
Has_accelerometer Has_gyroscope""".split()
ON = {"Use_triangles", "Use_diff_mode", "Use_smoothing", "Use_speed_constraint", "Use_ab_filter", "Has_accelerometer", "Has_gyroscope"}
REALS = """Correction_noise Stop_detection_time Min_deviation_m Average_speed Cutoff_rss Sig_averaging_time Sig_window_shift Resampling_threshold_num Gyro_noise_degree
Step_noise_deviation_meters Smoothing Dead_reckon_time Stop_update_time Graph_prog_distance Stopped_distance_threshold_m Sigma_filter_delta Prior_deviation Gps_deviation
Maximum_to_accept_gps_measurement Fuse_gps_border_m Position_old_for_fusing_sec Gps_valid_time_window_sec Device_azimuth_lifetime_seconds Step_multiplier WiFi_RTT_Offset""".split()
INTS = """N_closest_aps N_particles Min_msr_num_for_mutation Min_num_of_particles N_particles_around_closest_AP N_particles_to_mutate Num_sampling_attempts
Num_initialization_attempts K Min_num_of_measurements_for_position_calculation Sigma_filter_window Min_num_sats No_signal_time_threshold No_action_time_threshold""".split()
NAMES = {"Use_algorithm": ["PF_PDR", "PF_NOPDR", "ZONES", "GRAPH", "KNN"], "Measurement_type": ["rssi", "distance_v1", "distance_v2"], "Use_Signals": ["ble", "wifi", "both"]}
KEYS = BOOLS + REALS + INTS + list(NAMES)
def setting(rng, k):
    if k in BOOLS: return (k not in ON) if rng.random() < .75 else k in ON
    if k in REALS: return num(rng.uniform(-120, 120)) if rng.random() < .7 else Num(str(rng.randint(-9, 99)))
    if k in INTS: return rng.randint(0, 3000)
    return rng.choice(NAMES[k])
def level_settings(rng, n, ids):
    out = []
    for _ in range(n):
        l = {k: num(rng.uniform(-95, 5)) for k in ("A", "B") if rng.random() < .75}
        if rng.random() < .3: l["C"] = 1
        out.append({"level": rng.choice(ids), "settings": [l] + [{"A": Num("7")}] * (rng.random() < .2)})
    return out
def settings_doc(rng, keys):
    c = {k: setting(rng, k) for k in keys}
    if rng.random() < .3: c["Colour_of_the_map"] = "red"
    return {"level_settings": level_settings(rng, rng.randint(0, 4), ["0", "1", "first floor", "-1"]), "common_settings": [c] + [{"K": 4444}] * (rng.random() < .2)}

# ------------------------------------------------------------------ maps
M = 360 / 40008000.0                                     # a metre in degrees
def blob(rng, lat, lon, r, n, closed, cw):
    """A star-shaped ring around a point."""
    a = sorted((k + rng.uniform(.1, .9)) * 2 * math.pi / n for k in range(n))
    if cw: a.reverse()
    pts = [[num(lon + M * r * rng.uniform(.75, 1) * math.cos(w), 9), num(lat + M * r * rng.uniform(.75, 1) * math.sin(w), 9)] for w in a]
    return pts + pts[:1] if closed else pts
def polygon(rng, lat, lon, r):
    def ring(la, lo, rr): return blob(rng, la, lo, rr, rng.randint(4, 8), rng.random() < .6, rng.random() < .5)
    holes = []
    for k in range(rng.choice([0, 1, 2, 4])):
        w = k * math.pi / 2 + .3
        holes.append(ring(lat + M * r * .36 * math.sin(w), lon + M * r * .36 * math.cos(w), r * .13))
    return [ring(lat, lon, r)] + holes
def feature(t, level, geometry, coordinates, **props):
    return {"type": "Feature", "properties": {"type": t, "level": level, **props}, "geometry": {"type": geometry, "coordinates": coordinates}}
TYPES = ["WIFI", "BEACON", "BLUETOOTH", "EDDYSTONE", "LOCATOR", "UNKNOWN"]
def map_doc(rng):
    lat, lon = rng.choice([(59.95, 30.31), (-33.86, 151.2), (.01, -179.99), (55.7, -.0004)])
    ids = rng.sample(["0", "1", "-1", "10", "2", "B", "b", "first floor"], rng.randint(1, 4)); fs = []; points = []; paths = []
    near = lambda r: [num(lon + M * rng.uniform(-r, r), 9), num(lat + M * rng.uniform(-r, r), 9)]
    for l in ids + rng.choice([[], [], ["nowhere"]]):
        if l != "nowhere":
            polys = [polygon(rng, lat, lon, rng.uniform(20, 60))]
            if rng.random() < .4: polys.append(polygon(rng, lat + 150 * M, lon + 20 * M, 30))
            fs.append(feature("level", l, "MultiPolygon", polys))
        for k in range(rng.choice([0, 1, 3, 6])):
            p = {x: num(rng.uniform(-90, 4)) for x in ("A", "B") if rng.random() < .5}
            fs.append(feature("transmitter", l, "Point", near(50) + ([num(rng.uniform(-5, 20))] if rng.random() < .5 else []), uuid=f"t{k}-{l}", transmitter_type=rng.choice(TYPES), **p))
        for k in range(rng.choice([0, 0, 1, 3])):
            es = [{"bssid": b, "type": rng.choice(TYPES), "value": [{"rssi": v, "count": rng.randint(1, 9)} for v in rng.sample(range(-20, 99), rng.randint(1, 5))]}
                  for b in rng.sample(["a", "b", "c", "d", "(1,2,X)"], rng.randint(0, 4))]
            fs.append(feature("reference_point", l, "Point", near(50), uuid=f"r{k}", entries=es))
        if rng.random() < .7:
            grid = [[num(lon + M * 8 * (k % 4) / math.cos(math.radians(lat)), 9), num(lat + M * 8 * (k // 4), 9)] for k in range(rng.randint(2, 9))]
            def off(q, d):                  # d metres away in any direction
                w = rng.uniform(0, 2 * math.pi); k = 180 / math.pi / 6378000
                return [num(float(q[0]) + k * d * math.cos(w) / math.cos(math.radians(lat)), 9), num(float(q[1]) + k * d * math.sin(w), 9)]
            far = [off(q, rng.choice([rng.uniform(.09, .0975), rng.uniform(.1025, .115), rng.uniform(.1025, .4)])) if rng.random() < .4 else None for q in grid]
            def end(i):                     # sometimes the same point again, a few centimetres off; or one that is just the same, or just another
                return grid[i] if rng.random() < .5 else far[i] or off(grid[i], rng.uniform(0, .03))
            ls = [[end(i), end(j)] for i, j in (rng.sample(range(len(grid)), 2) for _ in range(rng.randint(1, 12)))]
            if rng.random() < .2: ls.append(ls[0][::-1])
            fs.append(feature("graph", l, "MultiLineString", ls))
    fs.append({"type": "Feature", "properties": {"type": "venue", "level": rng.choice(ids)}, "geometry": {"type": "Point", "coordinates": near(5)}})
    rng.shuffle(fs)
    for _ in range(rng.randint(4, 14)): points.append(near(70)[::-1])
    for _ in range(rng.randint(4, 14)): paths.append([near(rng.choice([10, 70]))[::-1] for _ in range(rng.choice([2, 2, 2, 3, 5]))])
    return {"type": "FeatureCollection", "features": fs}, points, paths

# ------------------------------------------------------------------ scenarios
def file_words(depth):
    """Every message type followed by every other; every setting alone; every setting left out."""
    import random
    rng = random.Random("files"); scs = [Solo(f"words-file-{i}") for i in range(8)]
    for s in scs: Fil.open(s); Fil.none(s)
    n = 0
    def turn():
        nonlocal n; n += 1; return scs[n % 8]
    types = SENSOR + RADIO + [300, 900]
    for a in types:
        for b in types:
            Fil.msgs(turn(), [message(rng, a), message(rng, b)] + [message(rng, rng.choice(types)) for _ in range(depth - 2)])
    for k in KEYS:
        for v in ([True, False] if k in BOOLS else NAMES[k] if k in NAMES else [setting(rng, k), setting(rng, k)]):
            Fil.settings(turn(), {"level_settings": [], "common_settings": [{k: v}]})
        Fil.settings(turn(), settings_doc(rng, [q for q in KEYS if q != k]))
    return scs
def file_random(rng, i):
    s = Solo(f"file-{i}"); Fil.open(s)
    for _ in range(rng.randint(3, 8)):
        q = rng.random()
        if q < .2: Fil.msgs(s, [message(rng, rng.choice(SENSOR + RADIO + [300, 900])) for _ in range(rng.randint(0, 30))])
        elif q < .4: Fil.settings(s, settings_doc(rng, rng.sample(KEYS, rng.randint(0, len(KEYS)))))
        elif q < .45: Fil.none(s)
        else: Fil.map(s, *map_doc(rng))
    return s
