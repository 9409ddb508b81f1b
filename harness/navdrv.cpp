// Scenario player for the navigation core. Reads a scenario (text, one command
// per line) on stdin, drives the real library through its public interface
// only, and writes one JSON line per command that returns something.
// Every scenario runs in its own child process: a crash or a hang of the
// library becomes a "crash" line of the recorded trace.
#include <navigine/navigation-core/barriers_geometry_builder.h>
#include <navigine/navigation-core/geolevel.h>
#include <navigine/navigation-core/level_collector.h>
#include <navigine/navigation-core/navigation_client.h>
#include <navigine/navigation-core/navigation_input.h>
#include <navigine/navigation-core/navigation_output.h>
#include <navigine/navigation-core/navigation_settings.h>
#include <navigine/navigation-core/navigation_state.h>

#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <list>
#include <atomic>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#ifdef WITH_FILES
#include <cstdio>
#include <fstream>
#include <nlohmann/json.hpp>
#include "helpers.h"
static std::string dir;               // scratch
#endif

using namespace navigine::navigation_core;
using std::string;

static long long BASE = 1600000000000LL;  // trace times are relative to this

static string num(double v) { char b[64]; snprintf(b, sizeof b, "\"%.17g\"", v); return b; }
static string str(const string& s) { return "\"" + s + "\""; }

struct Player {
  std::map<string, std::shared_ptr<LevelCollector>> worlds;
  std::map<string, std::shared_ptr<NavigationClient>> clients;
  std::map<string, NavigationSettings> settingsOf;
  std::map<string, std::shared_ptr<LevelCollector>> worldOf;
  std::map<string, std::vector<std::vector<Measurement>>> history;  // calls made so far
  std::shared_ptr<LevelCollector> lc;
  std::vector<GeoLevel> levels;
  std::vector<std::list<Polygon>> areas;
  NavigationSettings st;

  static TransmitterType txType(const string& s) {
    static const std::map<string, TransmitterType> m = {
      {"WIFI", TransmitterType::WIFI}, {"BEACON", TransmitterType::BEACON},
      {"BLUETOOTH", TransmitterType::BLUETOOTH}, {"UNKNOWN", TransmitterType::UNKNOWN},
      {"EDDYSTONE", TransmitterType::EDDYSTONE}, {"LOCATOR", TransmitterType::LOCATOR}};
    return m.at(s);
  }
  static RadioMeasurementData::Type rType(const string& s) {
    using T = RadioMeasurementData::Type;
    static const std::map<string, T> m = {{"WIFI", T::WIFI}, {"BEACON", T::BEACON},
      {"BLUETOOTH", T::BLUETOOTH}, {"EDDYSTONE", T::EDDYSTONE}, {"WIFI_RTT", T::WIFI_RTT}};
    return m.at(s);
  }
  static SensorMeasurementData::Type sType(const string& s) {
    using T = SensorMeasurementData::Type;
    static const std::map<string, T> m = {{"ACC", T::ACCELEROMETER}, {"MAG", T::MAGNETOMETER},
      {"GYR", T::GYROSCOPE}, {"BAR", T::BAROMETER}, {"LOC", T::LOCATION}, {"ORI", T::ORIENTATION}};
    return m.at(s);
  }

  void set(const string& k, const string& v) {
    CommonSettings& c = st.commonSettings;
    using F = std::function<void(const string&)>;
    auto B = [](bool& x) -> F { return [&x](const string& v) { x = v == "1"; }; };
    auto D = [](double& x) -> F { return [&x](const string& v) { x = v == "inf" ? std::numeric_limits<double>::infinity() : strtod(v.c_str(), nullptr); }; };
    auto U = [](unsigned int& x) -> F { return [&x](const string& v) { x = strtoul(v.c_str(), nullptr, 10); }; };
    auto L = [](long long& x) -> F { return [&x](const string& v) { x = strtoll(v.c_str(), nullptr, 10); }; };
#define S(n, f) {#n, f(c.n)}
    std::map<string, F> m = {
      S(useEnuAzimuth, B), S(useTxPower, B), S(useRadiomap, B), S(useStops, B), S(useTracking, B),
      S(stopDetectionTime, D), S(averageMovSpeed, D), S(useBestRefPointLevel, B), S(useBarometer, B),
      S(useUnknownTransmitters, B), S(sigCutOffRss, D), S(useClosestAps, B), S(numClosestAps, U),
      S(sigAveragingTime, D), S(sigWindowShift, D), S(kNeighbors, U), S(useTriangles, B), S(useDiffMode, B),
      S(minNumOfMeasurementsForPositionCalculation, U), S(smoothing, D), S(deadReckoningTime, D),
      S(stopUpdateTime, D), S(graphProjDist, D), S(useStopsDistanceThresholdM, D), S(useSmoothing, B),
      S(useGraphProjection, B), S(useAccuracyForSmoothing, B), S(useSpeedConstraint, B), S(useBarriers, B),
      S(useTimeSmoothing, B), S(useAbFilter, B), S(useAltitude, B), S(useGps, B), S(useInstantGpsPosition, B),
      S(preferIndoorSolution, B), S(fuseGps, B), S(useGpsOutsideMap, B), S(useGpsSigmaFilter, B),
      S(sigmaFilterWindow, U), S(sigmaFilterDelta, D), S(minNumSats, U), S(priorDeviation, D),
      S(minGpsDeviation, D), S(maxGpsDeviation, D), S(fuseGpsBorderM, D), S(noSignalTimeThreshold, L),
      S(noActionTimeThreshold, L), S(positionIsTooOldSec, D), S(gpsValidTimeWindowSec, D),
      S(useCalculatedAzimuth, B), S(deviceAzimuthLifetimeSeconds, D), S(stepMultiplier, D), S(wiFiRttOffset, D)};
#undef S
    if (k == "useAlgorithm") {
      c.useAlgorithm = v == "KNN" ? CommonSettings::UseAlgorithm::KNN
                     : v == "ZONES" ? CommonSettings::UseAlgorithm::ZONES : CommonSettings::UseAlgorithm::PF_PDR;
    } else if (k == "measurementType") {
      c.measurementType = v == "RSSI" ? CommonSettings::MeasurementType::RSSI
                        : v == "DISTANCE_V1" ? CommonSettings::MeasurementType::DISTANCE_V1 : CommonSettings::MeasurementType::DISTANCE_V2;
    } else if (k == "signalsToUse") {
      c.signalsToUse = v == "BLE" ? CommonSettings::SignalsToUse::BLE
                     : v == "WIFI" ? CommonSettings::SignalsToUse::WIFI : CommonSettings::SignalsToUse::BOTH;
    } else
      m.at(k)(v);
  }

  Measurement readMsr() {
    string line;
    std::getline(std::cin, line);
    std::istringstream is(line);
    string k;
    Measurement m;
    is >> k >> m.ts;
    m.ts += BASE;
    if (k == "r") {
      RadioMeasurementData d;
      string t, rssi, dist, pw;
      is >> t >> d.id.value >> rssi >> dist >> pw;
      d.type = rType(t);
      d.rssi = strtod(rssi.c_str(), nullptr);
      d.distance = strtod(dist.c_str(), nullptr);
      d.power = strtod(pw.c_str(), nullptr);
      m.data = d;
    } else if (k == "s") {
      SensorMeasurementData d;
      string t, x, y, z;
      is >> t >> x >> y >> z;
      d.type = sType(t);
      d.values = Vector3d(strtod(x.c_str(), nullptr), strtod(y.c_str(), nullptr), strtod(z.c_str(), nullptr));
      m.data = d;
    } else {
      NmeaMeasurementData d;
      is >> d.sentenceNumber >> d.satellitesNumber;
      m.data = d;
    }
    return m;
  }

  static Polygon poly(std::istringstream& is) {
    size_t n; is >> n;
    Polygon p;
    for (size_t i = 0; i < n; i++) {
      string a, b; is >> a >> b;
      boost::geometry::append(p.outer(), Point(strtod(a.c_str(), nullptr), strtod(b.c_str(), nullptr)));
    }
    return p;
  }

  static string callJson(NavigationClient& client, const std::vector<Measurement>& batch) {
    std::vector<NavigationOutput> o = client.navigate(batch);
    std::vector<NavigationState> s = client.getStates();
    std::ostringstream os;
    os << "{\"outs\":[";
    for (size_t i = 0; i < o.size(); i++) {
      const char* pv = o[i].provider == Provider::GNSS ? "GNSS" : o[i].provider == Provider::INDOOR ? "INDOOR"
                     : o[i].provider == Provider::FUSED ? "FUSED" : "NONE";
      os << (i ? "," : "") << "{\"status\":" << (int)o[i].status << ",\"level\":" << str(o[i].posLevel.value)
         << ",\"lat\":" << num(o[i].posLatitude) << ",\"lon\":" << num(o[i].posLongitude) << ",\"alt\":" << num(o[i].posAltitude)
         << ",\"r\":" << num(o[i].posR) << ",\"ori\":" << num(o[i].posOrientation) << ",\"prov\":\"" << pv << "\"}";
    }
    os << "],\"sts\":[";
    for (size_t i = 0; i < s.size(); i++)
      os << (i ? "," : "") << "{\"ix\":" << num(s[i].getIndoorPosition().x) << ",\"iy\":" << num(s[i].getIndoorPosition().y)
         << ",\"ox\":" << num(s[i].getOutdoorPosition().x) << ",\"oy\":" << num(s[i].getOutdoorPosition().y)
         << ",\"steps\":" << s[i].getStepCounter() << ",\"len\":" << num(s[i].getStepLen()) << "}";
    os << "]}";
    return os.str();
  }

  // The calls between P and Q: every client on a thread of its own, all at the
  // same time, over and over; a run that differs from the usual one is reported.
  struct Call { string k; bool shown; std::vector<Measurement> batch; };
  std::vector<Call> calls;
  bool gather = false;
  void parallel() {
    std::map<string, std::vector<size_t>> mine;
    for (size_t i = 0; i < calls.size(); i++) mine[calls[i].k].push_back(i);
    std::vector<std::vector<string>> runs;
    std::map<std::vector<string>, int> seen;
    for (int run = 0; run < 40; run++) {
      std::vector<string> res(calls.size());
      std::atomic<int> waiting((int)mine.size());
      std::vector<std::thread> threads;
      for (auto& m : mine)
        threads.emplace_back([&] {
          waiting--;
          while (waiting > 0) {}
          auto client = createNavigationClient(worldOf.at(m.first), settingsOf.at(m.first));
          for (size_t i : m.second) res[i] = callJson(*client, calls[i].batch);
        });
      for (auto& t : threads) t.join();
      seen[res]++; runs.push_back(res);
    }
    size_t pick = 0; int usual = 0;
    for (auto& s : seen) usual = std::max(usual, s.second);
    for (size_t i = 0; i < runs.size(); i++) if (seen[runs[i]] < usual) pick = i;
    for (size_t i = 0; i < calls.size(); i++) if (calls[i].shown) puts(runs[pick][i].c_str());
  }

  struct Letter { long long adv; std::vector<Measurement> ms; };
  std::vector<Letter> letters;
  void readLetters(int A) {
    letters.clear();
    for (int i = 0; i < A; i++) {
      string line, c; std::getline(std::cin, line);
      std::istringstream is(line);
      Letter l; size_t n; is >> c >> l.adv >> n;
      for (size_t j = 0; j < n; j++) l.ms.push_back(readMsr());
      letters.push_back(l);
    }
  }
  // Every sequence of letters up to the given length, each on a fresh client
  // brought to the same history; one line per tree node, in preorder.
  void tree(const string& k, long long clock, int depth) {
    std::vector<size_t> path(depth, 0);
    int fresh = 0;   // from which position on the nodes are new
    for (;;) {
      auto client = createNavigationClient(lc, settingsOf.at(k));
      for (const auto& b : history.at(k)) client->navigate(b);
      long long t = clock;
      for (int i = 0; i < depth; i++) {
        const Letter& l = letters[path[i]];
        t += l.adv;
        std::vector<Measurement> b = l.ms;
        for (auto& m : b) m.ts += t;
        string r = callJson(*client, b);
        if (i >= fresh) puts(r.c_str());
      }
      int i = depth - 1;
      while (i >= 0 && path[i] + 1 == letters.size()) path[i--] = 0;
      if (i < 0) return;
      path[i]++; fresh = i;
    }
  }

#ifdef WITH_FILES
  // A walk played from its files, so many messages per call.
  static void files(const nlohmann::json& a) {
    auto file = [](const string& text) { string p = dir + "/input"; std::ofstream(p, std::ios::trunc) << text; return p; };
    int err = 0;
    GeoLevels levels = ParseGeojson(file(a.at("map").get<string>()), err);
    NavigationSettings st = CreateSettingsFromJson(file(a.at("settings").get<string>()), err);
    string log; for (const auto& l : a.at("log")) log += l.get<string>() + "\n";
    std::vector<Measurement> ms = GetNavMessages(file(log));
    if (err) { printf("{\"crash\":\"error %d\"}\n", err); return; }
    auto lc = createLevelCollector();
    for (const auto& l : levels) lc->addGeoLevel(*l);
    auto client = createNavigationClient(lc, st);
    size_t size = a.at("size").get<size_t>();
    for (size_t i = 0; i < ms.size(); i += size)
      puts(callJson(*client, {ms.begin() + i, ms.begin() + std::min(ms.size(), i + size)}).c_str());
  }
#endif

  void run() {
    string line;
    while (std::getline(std::cin, line)) {
      std::istringstream is(line);
      string c; is >> c;
      if (c == "END") return;
#ifdef WITH_FILES
      if (c == "F") { files(nlohmann::json::parse(line.substr(2))); continue; }
#endif
      if (c == "B") { is >> BASE; continue; }
      if (c == "W") { levels.clear(); areas.clear(); st = NavigationSettings(); }
      else if (c == "D") st = NavigationSettings();
      else if (c == "L") {
        GeoLevel g; string alt;
        is >> g.id.value >> alt;
        g.altitude = strtod(alt.c_str(), nullptr);
        levels.push_back(g); areas.push_back({});
      } else if (c == "O") areas.back().push_back(poly(is));
      else if (c == "H") { Polygon h = poly(is); areas.back().back().inners().push_back(h.outer()); }
      else if (c == "T") {
        string id, lat, lon, alt, A, B, t; is >> id >> lat >> lon >> alt >> A >> B >> t;
        levels.back().transmitters.emplace_back(TransmitterId(id),
          GeoPoint3D(strtod(lat.c_str(), nullptr), strtod(lon.c_str(), nullptr), strtod(alt.c_str(), nullptr)),
          PathlossModel{strtod(A.c_str(), nullptr), strtod(B.c_str(), nullptr), 0.0}, txType(t));
      } else if (c == "R") {
        string id, lat, lon; size_t n; is >> id >> lat >> lon >> n;
        std::map<TransmitterId, SignalStatistics> fp;
        for (size_t i = 0; i < n; i++) {
          string tx, mean; is >> tx >> mean;
          fp[TransmitterId(tx)] = SignalStatistics{TransmitterType::BEACON, strtod(mean.c_str(), nullptr), 1.0, 10};
        }
        levels.back().referencePoints.emplace_back(ReferencePointId(id), GeoPoint(strtod(lat.c_str(), nullptr), strtod(lon.c_str(), nullptr)), fp);
      } else if (c == "V") {
        string lat, lon; is >> lat >> lon;
        levels.back().graph.addVertex(GeoPoint(strtod(lat.c_str(), nullptr), strtod(lon.c_str(), nullptr)));
      } else if (c == "E") { int i, j; is >> i >> j; levels.back().graph.addEdge(i, j); }
      else if (c == "Z") {
        lc = createLevelCollector();
        for (size_t i = 0; i < levels.size(); i++) {
          levels[i].geometry = getGeometry(areas[i]);
          lc->addGeoLevel(levels[i]);
        }
      } else if (c == "S") { string k, v; is >> k >> v; set(k, v); }
      else if (c == "A") {
        string l, A, B; is >> l >> A >> B;
        LevelSettings ls; ls.normalModeA = strtod(A.c_str(), nullptr); ls.normalModeB = strtod(B.c_str(), nullptr);
        st.levelsSettings[LevelId(l)] = ls;
      } else if (c == "C") { string k; is >> k; clients[k] = createNavigationClient(lc, st); settingsOf[k] = st; worldOf[k] = lc; history[k].clear(); }
      else if (c == "P") gather = true;
      else if (c == "Q") { parallel(); gather = false; }
      else if (gather && (c == "N" || c == "M")) {
        Call q; q.shown = c == "N"; size_t n; is >> q.k >> n;
        for (size_t i = 0; i < n; i++) q.batch.push_back(readMsr());
        calls.push_back(q);
      } else if (c == "N" || c == "M") {      // M: played, not reported
        string k; size_t n; is >> k >> n;
        std::vector<Measurement> batch;
        for (size_t i = 0; i < n; i++) batch.push_back(readMsr());
        history[k].push_back(batch);
        string r = callJson(*clients.at(k), batch);
        if (c == "N") puts(r.c_str());
      } else if (c == "X") {
        string k; long long clock; int depth, A; is >> k >> clock >> depth >> A;
        readLetters(A);
        tree(k, clock, depth);
      } else { fprintf(stderr, "navdrv: bad command %s\n", line.c_str()); _exit(3); }
    }
  }
};

int main() {
#ifdef WITH_FILES
  char made[] = "/tmp/verif-play-XXXXXX"; if (!mkdtemp(made)) return 3;
  dir = made;
  struct Clean { ~Clean() { unlink((dir + "/input").c_str()); rmdir(dir.c_str()); } } clean;
#endif
  setvbuf(stdout, nullptr, _IOFBF, 1 << 20);
  std::ios::sync_with_stdio(false);
  string line;
  int hangs = 0;
  // stdin holds scenarios: BEGIN name <nlines> ... ; each is replayed in a child
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string b, name; size_t n; is >> b >> name >> n;
    std::string text;
    for (size_t i = 0; i < n; i++) { std::getline(std::cin, line); text += line + "\n"; }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      rlimit lim = {60, 60};          // a hang ends as a signal
      setrlimit(RLIMIT_CPU, &lim);
      alarm(400);
      std::istringstream in(text);
      std::cin.rdbuf(in.rdbuf());
      std::cerr.rdbuf(nullptr);
      std::cout.rdbuf(nullptr);       // results are written with puts
      try { Player p; p.run(); }
      catch (const std::exception& e) { printf("{\"crash\":\"exception\"}\n"); }
      fflush(stdout);
      _exit(0);
    }
    int stt; waitpid(pid, &stt, 0);
    if (!WIFEXITED(stt)) printf("{\"crash\":\"signal %d\"}\n", WTERMSIG(stt));
    else if (WEXITSTATUS(stt)) { fprintf(stderr, "navdrv: harness error\n"); return 3; }
    printf("{\"done\":\"%s\"}\n", name.c_str());
    fflush(stdout);
    if (!WIFEXITED(stt) && (WTERMSIG(stt) == SIGXCPU || WTERMSIG(stt) == SIGKILL || WTERMSIG(stt) == SIGALRM) && ++hangs >= 2) {
      puts("{\"stop\":1}");           // enough: the rest of the scenarios is not played
      return 0;
    }
  }
  return 0;
}
