// Plays scenarios on the file readers in tools/verification.
#include "scen.h"
#include <fstream>
#include <nlohmann/json.hpp>
#include "helpers.h"
using namespace navigine::navigation_core;
using json = nlohmann::json;

static std::string dir;
static std::string file(const std::string& text) {
  std::string p = dir + "/input";
  std::ofstream(p, std::ios::trunc) << text;
  return p;
}
static std::string n17(double v) { std::string s = num(v); return s.substr(1, s.size() - 2); }
static const char* name(TransmitterType t) {
  switch (t) { case TransmitterType::WIFI: return "WIFI"; case TransmitterType::BEACON: return "BEACON"; case TransmitterType::BLUETOOTH: return "BLUETOOTH";
               case TransmitterType::UNKNOWN: return "UNKNOWN"; case TransmitterType::EDDYSTONE: return "EDDYSTONE"; case TransmitterType::LOCATOR: return "LOCATOR"; }
  return "?";
}
static const char* name(RadioMeasurementData::Type t) {
  using T = RadioMeasurementData::Type;
  switch (t) { case T::WIFI: return "WIFI"; case T::BEACON: return "BEACON"; case T::BLUETOOTH: return "BLUETOOTH"; case T::EDDYSTONE: return "EDDYSTONE"; case T::WIFI_RTT: return "WIFI_RTT"; }
  return "?";
}
static const char* name(SensorMeasurementData::Type t) {
  using T = SensorMeasurementData::Type;
  switch (t) { case T::ACCELEROMETER: return "ACC"; case T::MAGNETOMETER: return "MAG"; case T::GYROSCOPE: return "GYR"; case T::BAROMETER: return "BAR"; case T::LOCATION: return "LOC"; case T::ORIENTATION: return "ORI"; }
  return "?";
}

struct Dump : boost::static_visitor<json> {
  json operator()(const RadioMeasurementData& d) const {
    return {{"k", "radio"}, {"type", name(d.type)}, {"id", d.id.value}, {"rssi", n17(d.rssi)}, {"power", n17(d.power)}, {"distance", n17(d.distance)}, {"stddev", n17(d.stddev)}};
  }
  json operator()(const SensorMeasurementData& d) const {
    return {{"k", "sensor"}, {"type", name(d.type)}, {"x", n17(d.values.x)}, {"y", n17(d.values.y)}, {"z", n17(d.values.z)}};
  }
  json operator()(const NmeaMeasurementData& d) const { return {{"k", "nmea"}, {"sn", d.sentenceNumber}, {"ns", d.satellitesNumber}}; }
};

static json settings(const NavigationSettings& s) {
  const CommonSettings& c = s.commonSettings; json j;
  using U = CommonSettings::UseAlgorithm; using M = CommonSettings::MeasurementType; using G = CommonSettings::SignalsToUse;
  j["useAlgorithm"] = c.useAlgorithm == U::PF_PDR ? "PF_PDR" : c.useAlgorithm == U::PF_NOPDR ? "PF_NOPDR" : c.useAlgorithm == U::ZONES ? "ZONES" : c.useAlgorithm == U::GRAPH ? "GRAPH" : "KNN";
  j["measurementType"] = c.measurementType == M::RSSI ? "rssi" : c.measurementType == M::DISTANCE_V1 ? "distance_v1" : "distance_v2";
  j["signalsToUse"] = c.signalsToUse == G::BLE ? "ble" : c.signalsToUse == G::WIFI ? "wifi" : "both";
#define D(f) j[#f] = n17(c.f);
#define B(f) j[#f] = (bool)c.f;
#define I(f) j[#f] = (long long)c.f;
  D(lklCorrectionNoise) B(useEnuAzimuth) B(useDifferentionMode) B(useTxPower) B(useRadiomap) B(useStops) B(useTracking) D(stopDetectionTime) D(minDeviationM)
  D(averageMovSpeed) B(useBestRefPointLevel) B(useBarometer) B(useUnknownTransmitters) D(sigCutOffRss) B(useClosestAps) I(numClosestAps) D(sigAveragingTime)
  D(sigWindowShift) I(numParticles) I(minMsrNumForMutation) D(resamplingThreshold) I(minNumParticlesAlive) D(gyroNoiseDegree) D(stepNoiseDeviationMeters)
  B(useProjectionToWhiteArea) I(numParticlesAroundClosestAp) I(numParticlesToMutate) I(numSamplingAttempts) I(numInitializationAttempts) B(useUniformSampling)
  I(kNeighbors) B(useTriangles) B(useDiffMode) I(minNumOfMeasurementsForPositionCalculation) D(smoothing) D(deadReckoningTime) D(stopUpdateTime) D(graphProjDist)
  D(useStopsDistanceThresholdM) B(useSmoothing) B(useGraphProjection) B(useAccuracyForSmoothing) B(useSpeedConstraint) B(useBarriers) B(useTimeSmoothing) B(useAbFilter)
  B(useAltitude) B(useGps) B(useInstantGpsPosition) B(preferIndoorSolution) B(fuseGps) B(useGpsOutsideMap) B(useGpsSigmaFilter) I(sigmaFilterWindow) D(sigmaFilterDelta)
  I(minNumSats) D(priorDeviation) D(minGpsDeviation) D(maxGpsDeviation) D(fuseGpsBorderM) I(noSignalTimeThreshold) I(noActionTimeThreshold) D(positionIsTooOldSec)
  D(gpsValidTimeWindowSec) B(useCalculatedAzimuth) D(deviceAzimuthLifetimeSeconds) D(stepMultiplier) B(hasAccelerometer) B(hasGyroscope) D(wiFiRttOffset)
  return j;
}

static json point(double a, double b) { return json::array({n17(a), n17(b)}); }
template <class R> static json ring(const R& r) { json j = json::array(); for (const auto& p : r) j.push_back(point(p.x(), p.y())); return j; }
static json level(const GeoLevel& g, const json& probes) {
  json j; j["id"] = g.id.value; j["alt"] = n17(g.altitude);
  j["tx"] = json::array(); j["rp"] = json::array(); j["vx"] = json::array(); j["ed"] = json::array(); j["area"] = json::array(); j["in"] = json::array(); j["touch"] = json::array();
  for (const auto& t : g.transmitters)
    j["tx"].push_back({{"id", t.id.value}, {"lat", n17(t.point.latitude)}, {"lon", n17(t.point.longitude)}, {"alt", n17(t.point.altitude)},
                       {"A", n17(t.pathlossModel.A)}, {"B", n17(t.pathlossModel.B)}, {"type", name(t.type)}});
  for (const auto& r : g.referencePoints) {
    json f = json::array();
    for (const auto& e : r.fingerprints) f.push_back({{"id", e.first.value}, {"mean", n17(e.second.mean)}, {"n", (long long)e.second.nMeasurements}, {"type", name(e.second.type)}});
    j["rp"].push_back({{"id", r.id.value}, {"lat", n17(r.point.latitude)}, {"lon", n17(r.point.longitude)}, {"fp", f}});
  }
  for (auto v = g.graph.vertexBegin(); v != g.graph.vertexEnd(); ++v) j["vx"].push_back(point(v->point.latitude, v->point.longitude));
  for (auto e = g.graph.edgesBegin(); e != g.graph.edgesEnd(); ++e) {
    auto a = g.graph.getVertex(e->first).point, b = g.graph.getVertex(e->second).point;
    j["ed"].push_back(json::array({point(a.latitude, a.longitude), point(b.latitude, b.longitude)}));
  }
  for (const auto& p : g.geometry.allowedArea()) {
    json h = json::array(); for (const auto& i : p.inners()) h.push_back(ring(i));
    j["area"].push_back({{"outer", ring(p.outer())}, {"holes", h}});
  }
  const Box& b = g.geometry.boundingBox();
  j["box"] = json::array({n17(b.min_corner().x()), n17(b.min_corner().y()), n17(b.max_corner().x()), n17(b.max_corner().y())});
  for (const auto& p : probes.at("points")) j["in"].push_back(boost::geometry::within(Point(p[0].get<double>(), p[1].get<double>()), g.geometry.allowedArea()));
  for (const auto& q : probes.at("paths")) {
    Linestring l; for (const auto& p : q) boost::geometry::append(l, Point(p[0].get<double>(), p[1].get<double>()));
    j["touch"].push_back(g.geometry.isPathTouchesBarriers(l));
  }
  return j;
}

int main() {
  char t[] = "/tmp/verif-files-XXXXXX";
  if (!mkdtemp(t)) return 3;
  dir = t;
  long long base = 0;
  int rc = play([&](const std::string& op, std::istream& is) {
    json r;
    if (op == "open") { is >> base; fputs("{}\n", out); return; }
    std::string rest; std::getline(is, rest);
    json a = json::parse(rest); int err = -1;
    if (op == "msgs") {
      std::string text; for (const auto& l : a) text += l.get<std::string>() + "\n";
      r["list"] = json::array();
      for (const auto& m : GetNavMessages(file(text))) { json e = boost::apply_visitor(Dump(), m.data); e["ts"] = m.ts - base; r["list"].push_back(e); }
    } else if (op == "settings") {
      NavigationSettings s = CreateSettingsFromJson(a.is_null() ? dir + "/none" : file(a.get<std::string>()), err);
      r["err"] = err; r["common"] = settings(s); r["levels"] = json::array();
      for (const auto& l : s.levelsSettings) r["levels"].push_back({{"id", l.first.value}, {"A", n17(l.second.normalModeA)}, {"B", n17(l.second.normalModeB)}});
    } else if (op == "map") {
      GeoLevels g = ParseGeojson(file(a.at("text").get<std::string>()), err);
      r["err"] = err; r["levels"] = json::array();
      for (const auto& l : g) r["levels"].push_back(level(*l, a));
    } else bad(op);
    fprintf(out, "%s\n", r.dump().c_str());
  });
  remove((dir + "/input").c_str()); remove(dir.c_str());
  return rc;
}
