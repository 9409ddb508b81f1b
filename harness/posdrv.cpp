// Plays scenarios on standalone_algorithms/position_estimation.
#include "scen.h"
#include <algorithm>
#include <memory>
#include "measurement_preprocessor.h"
#include "nearest_transmitter_estimator.h"
using namespace navigine::navigation_core;

int main() {
  std::unique_ptr<MeasurementsPreprocessor> p; std::unique_ptr<NearestTransmitterPositionEstimator> e; long long base = 0;
  std::vector<RadioMeasurement> last;
  auto msr = [&](std::istream& is) {
    RadioMeasurement m; std::string t; is >> t >> m.ts; m.ts += base;
    m.type = t == "WIFI" ? RadioMeasurement::Type::WIFI : RadioMeasurement::Type::BEACON;
    is >> m.id; m.rssi = real(is); m.distance = real(is);
    return m;
  };
  auto rel = [&](long long t) { return std::to_string(t < 0 ? t : t - base); };
  auto show = [&](const std::vector<RadioMeasurement>& v) {
    std::string s;
    for (const auto& m : v)
      s += std::string(s.empty() ? "" : ",") + "{\"id\":\"" + m.id + "\",\"ts\":" + rel(m.ts) + ",\"rssi\":" + num(m.rssi) + ",\"dist\":" + num(m.distance) + "}";
    return "[" + s + "]";
  };
  auto est = [&](const std::vector<RadioMeasurement>& v) {
    Position q = e->calculatePosition(v);
    return std::string("\"x\":") + num(q.x) + ",\"y\":" + num(q.y) + ",\"prec\":" + num(q.precision) + ",\"empty\":" + (q.isEmpty ? "true" : "false") + ",\"pts\":" + rel(q.ts);
  };
  return play([&](const std::string& op, std::istream& is) {
    if (op == "open") {
      is >> base; std::string a; is >> a; int w, b;
      if (a == "default") p.reset(new MeasurementsPreprocessor());
      else { double sh = real(is); is >> w >> b; p.reset(new MeasurementsPreprocessor(strtod(a.c_str(), nullptr), sh, w, b)); }
      size_t n; is >> n; std::vector<Transmitter> tx;
      for (size_t i = 0; i < n; i++) { std::string id; is >> id; double x = real(is), y = real(is); tx.push_back(Transmitter{id, x, y, Transmitter::Type::BEACON}); }
      e.reset(new NearestTransmitterPositionEstimator(tx));
      fprintf(out, "{}\n");
    } else if (op == "upd") { p->update(msr(is)); fprintf(out, "{\"now\":%s}\n", rel(p->getCurrentTs()).c_str()); }
    else if (op == "ext") { last = p->extractRadioMeasurements(); fprintf(out, "{\"list\":%s}\n", show(last).c_str()); }
    else if (op == "pos") { fprintf(out, "{\"list\":%s,%s}\n", show(last).c_str(), est(last).c_str()); }   // the list just extracted
    else if (op == "est") {
      size_t n; is >> n; std::vector<RadioMeasurement> v; for (size_t i = 0; i < n; i++) v.push_back(msr(is));
      fprintf(out, "{\"list\":%s,%s}\n", show(v).c_str(), est(v).c_str());
    } else bad(op);
  });
}
