// Plays scenarios on the level collection of the navigation core (public headers only).
#include "scen.h"
#include <nlohmann/json.hpp>
#include <navigine/navigation-core/barriers_geometry_builder.h>
#include <navigine/navigation-core/geolevel.h>
#include <navigine/navigation-core/level_collector.h>
using namespace navigine::navigation_core;
using json = nlohmann::json;

static std::string n17(double v) { std::string s = num(v); return s.substr(1, s.size() - 2); }
static double d(const json& j) { return strtod(j.get<std::string>().c_str(), nullptr); }
static std::string t(const json& j) { return j.get<std::string>(); }
static const char* NAMES[] = {"WIFI", "BEACON", "BLUETOOTH", "UNKNOWN", "EDDYSTONE", "LOCATOR"};
static TransmitterType type(const std::string& s) {
  static const TransmitterType T[] = {TransmitterType::WIFI, TransmitterType::BEACON, TransmitterType::BLUETOOTH, TransmitterType::UNKNOWN, TransmitterType::EDDYSTONE, TransmitterType::LOCATOR};
  for (int i = 0; i < 6; i++) if (s == NAMES[i]) return T[i];
  bad("type");
}
static const char* name(TransmitterType x) { for (auto n : NAMES) if (type(n) == x) return n; return "?"; }
static Ring ring(const json& r) { Ring g; for (const auto& p : r) boost::geometry::append(g, Point(d(p[0]), d(p[1]))); return g; }
template <class R> static json show(const R& r) { json j = json::array(); for (const auto& p : r) j.push_back({n17(p.x()), n17(p.y())}); return j; }

static GeoLevel build(const json& g) {
  GeoLevel l; l.id = LevelId(t(g["id"])); l.altitude = d(g["alt"]);
  std::list<Polygon> as;
  for (const auto& a : g["areas"]) {
    Polygon p; p.outer() = ring(a["outer"]);
    for (const auto& h : a["holes"]) p.inners().push_back(ring(h));
    as.push_back(p);
  }
  l.geometry = getGeometry(as);
  for (const auto& x : g["tx"])
    l.transmitters.emplace_back(TransmitterId(t(x["id"])), GeoPoint3D(d(x["lat"]), d(x["lon"]), d(x["alt"])), PathlossModel{d(x["A"]), d(x["B"]), 0.0}, type(t(x["type"])));
  for (const auto& r : g["rp"]) {
    std::map<TransmitterId, SignalStatistics> fp;
    for (auto e = r["fp"].begin(); e != r["fp"].end(); ++e) { SignalStatistics s = {}; s.mean = d(e.value()); s.type = TransmitterType::BEACON; s.nMeasurements = 1; fp[TransmitterId(e.key())] = s; }
    l.referencePoints.emplace_back(ReferencePointId(t(r["id"])), GeoPoint(d(r["lat"]), d(r["lon"])), fp);
  }
  for (const auto& v : g["vx"]) l.graph.addVertex(GeoPoint(d(v[0]), d(v[1])));
  for (const auto& e : g["ed"]) l.graph.addEdge(e[0].get<int>(), e[1].get<int>());
  return l;
}
static json level(const Level& l) {
  json j; j["found"] = true; j["name"] = l.id().value;
  j["bind"] = {n17(l.bindingPoint().latitude), n17(l.bindingPoint().longitude)};
  const Box& b = l.geometry().boundingBox();
  j["box"] = {n17(b.min_corner().x()), n17(b.min_corner().y()), n17(b.max_corner().x()), n17(b.max_corner().y())};
  j["areas"] = json::array(); j["rps"] = json::array(); j["vx"] = json::array(); j["ed"] = json::array();
  for (const auto& p : l.geometry().allowedArea()) {
    json h = json::array(); for (const auto& i : p.inners()) h.push_back(show(i));
    j["areas"].push_back({{"outer", show(p.outer())}, {"holes", h}});
  }
  for (const auto& r : l.radiomap().referencePoints()) {
    json f = json::object(); for (const auto& e : r.fingerprints) f[e.first.value] = n17(e.second.mean);
    j["rps"].push_back({{"id", r.id.value}, {"x", n17(r.point.x)}, {"y", n17(r.point.y)}, {"fp", f}});
  }
  for (auto v = l.graph().vertexBegin(); v != l.graph().vertexEnd(); ++v) j["vx"].push_back({n17(v->point.x), n17(v->point.y)});
  for (auto e = l.graph().edgesBegin(); e != l.graph().edgesEnd(); ++e) j["ed"].push_back({e->first, e->second});
  return j;
}

// absent: not contained, and refused when asked for all the same
template <class F> static bool refused(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

int main() {
  std::shared_ptr<LevelCollector> lc;
  return play([&](const std::string& op, std::istream& is) {
    std::string rest; std::getline(is, rest);
    json a = rest.empty() ? json() : json::parse(rest), r = json::object();
    if (op == "open") lc = createLevelCollector();
    else if (op == "add") lc->addGeoLevel(build(a));
    else if (op == "levels") { r["ids"] = json::array(); for (const auto& l : lc->levels()) r["ids"].push_back(l.id().value); }
    else if (op == "has") r["yes"] = lc->hasLevel(LevelId(t(a["id"])));
    else if (op == "find") { r["level"] = json::array(); if (auto l = lc->findLevelByTransmitterId(TransmitterId(t(a["tx"])))) r["level"].push_back(l->value); }
    else if (op == "level") {
      LevelId id(t(a["id"]));
      if (!lc->hasLevel(id)) r["found"] = !refused([&] { lc->level(id).id(); }); else r = level(lc->level(id));
    } else if (op == "tx") {
      LevelId id(t(a["level"])); TransmitterId x(t(a["tx"]));
      if (!lc->hasLevel(id) || !lc->level(id).containsTransmitter(x)) r["found"] = !refused([&] { lc->level(id).transmitter(x).id.value.size(); });
      else {
        const auto& q = lc->level(id).transmitter(x);
        r = {{"found", q.id == x}, {"x", n17(q.point.x)}, {"y", n17(q.point.y)}, {"z", n17(q.point.z)}, {"A", n17(q.pathlossModel.A)}, {"B", n17(q.pathlossModel.B)}, {"type", name(q.type)}};
      }
    } else if (op == "rp") {
      LevelId id(t(a["level"])); ReferencePointId x(t(a["rp"]));
      if (!lc->hasLevel(id) || !lc->level(id).radiomap().hasReferencePoint(x)) r["found"] = !refused([&] { lc->level(id).radiomap().getReferencePoint(x); });
      else { auto q = lc->level(id).radiomap().getReferencePoint(x); r = {{"found", q.id == x}, {"x", n17(q.point.x)}, {"y", n17(q.point.y)}}; }
    } else if (op == "graph") {
      Graph<XYPoint> g; int n = a["n"].get<int>();
      for (int i = 0; i < n; i++) if (g.addVertex(XYPoint(i, -i)).id != i) bad("vertex");
      r["refused"] = json::array(); r["ed"] = json::array(); r["has"] = json::array();
      for (const auto& e : a["ed"]) r["refused"].push_back(refused([&] { g.addEdge(e[0].get<int>(), e[1].get<int>()); }));
      for (auto e = g.edgesBegin(); e != g.edgesEnd(); ++e) r["ed"].push_back({e->first, e->second});
      for (int i = -1; i <= n; i++) {
        bool has = g.hasVertex(i), got = !refused([&] { if (g.vertex(i).id != i || g.getVertex(i).point.x != i || g.getVertex(i).point.y != -i) throw std::logic_error(""); });
        if (has || got) r["has"].push_back(has && got ? i : -100 - i);
      }
    } else if (op == "hear") {
      RadioMeasurementsData ms;
      for (const auto& x : a["ids"]) { RadioMeasurementData m = {}; m.type = RadioMeasurementData::Type::BEACON; m.id = TransmitterId(t(x)); m.rssi = -60; ms.push_back(m); }
      r["heard"] = json::array();
      for (const auto& m : getLevelRadioMeasurements(lc->level(LevelId(t(a["level"]))), ms)) r["heard"].push_back(m.id.value);
    } else if (op == "path") {
      Linestring l; for (const auto& p : a["path"]) boost::geometry::append(l, Point(d(p["x"]), d(p["y"])));
      r["blocked"] = lc->level(LevelId(t(a["level"]))).geometry().isPathTouchesBarriers(l);
    } else if (op == "local") {
      XYPoint p = gpsToLocal(GeoPoint(d(a["lat"]), d(a["lon"])), GeoPoint(d(a["bind"][0]), d(a["bind"][1]))); r["x"] = n17(p.x); r["y"] = n17(p.y);
    } else if (op == "geo") {
      GeoPoint p = localToGps(XYPoint(d(a["x"]), d(a["y"])), GeoPoint(d(a["bind"][0]), d(a["bind"][1]))); r["lat"] = n17(p.latitude); r["lon"] = n17(p.longitude);
    } else bad(op);
    fprintf(out, "%s\n", r.dump().c_str());
  });
}
