// Plays pedometer scenarios on standalone_algorithms/pedometer.
#include "scen.h"
#include <memory>
#include <pedometer.h>
using namespace navigine::navigation_core;

int main() {
  std::unique_ptr<Pedometer> p; long long base = 0;
  return play([&](const std::string& op, std::istream& is) {
    if (op == "open") { is >> base; p.reset(new Pedometer()); fprintf(out, "{}\n"); }
    else if (op == "upd") {
      size_t n; is >> n; std::vector<SensorMeasurement> v(n);
      for (auto& m : v) { is >> m.ts; m.ts += base; double x = real(is), y = real(is), z = real(is); m.values = Vector3d(x, y, z); }
      p->update(v); fprintf(out, "{}\n");
    } else if (op == "steps") {
      std::string s;
      for (const auto& st : p->calculateSteps())
        s += std::string(s.empty() ? "" : ",") + "{\"ts\":" + std::to_string(st.ts - base) + ",\"len\":" + num(st.len) + "}";
      fprintf(out, "{\"steps\":[%s]}\n", s.c_str());
    } else bad(op);
  });
}
