// Plays orientation scenarios on standalone_algorithms/complementary_filter.
#include "scen.h"
#include <map>
#include <memory>
#include <complementary_filter.h>
using namespace navigine::navigation_core;

int main() {
  std::unique_ptr<ComplementaryFilter> f; long long base = 0;
  using T = SensorMeasurement::Type;
  const std::map<std::string, T> types = {{"ACC", T::ACCELEROMETER}, {"MAG", T::MAGNETOMETER}, {"GYR", T::GYROSCOPE},
                                          {"BAR", T::BAROMETER}, {"LOC", T::LOCATION}, {"ORI", T::ORIENTATION}};
  return play([&](const std::string& op, std::istream& is) {
    if (op == "open") {
      std::string d; is >> base >> d;
      if (d == "default") f.reset(new ComplementaryFilter());
      else { double a = strtod(d.c_str(), nullptr), m = real(is), i = real(is); f.reset(new ComplementaryFilter(a, m, i)); }
      fprintf(out, "{}\n");
    } else if (op == "msr") {
      SensorMeasurement m; std::string t; is >> t >> m.ts; m.ts += base; m.type = types.at(t);
      double x = real(is), y = real(is), z = real(is); m.values = Vector3d(x, y, z);
      f->update(m);
      Orientation o = f->getFusedOrientation();
      fprintf(out, "{\"mag\":%s,\"fused\":%s,\"dev\":%s,\"roll\":%s,\"pitch\":%s,\"yaw\":%s,\"now\":%lld}\n", num(f->getMagneticAzimuth()).c_str(),
              num(f->getFusedAzimuth()).c_str(), num(f->getDeviceAzimuth()).c_str(), num(o.roll).c_str(), num(o.pitch).c_str(), num(o.yaw).c_str(), o.ts - base);
    } else bad(op);
  });
}
