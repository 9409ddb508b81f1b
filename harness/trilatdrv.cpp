// Plays trilateration scenarios on standalone_algorithms/trilateteration.
#include "scen.h"
#include <memory>
#include "trilateration.h"

int main() {
  std::unique_ptr<Trilateration> t;
  return play([&](const std::string& op, std::istream& is) {
    if (op == "open") { t.reset(new Trilateration()); fprintf(out, "{}\n"); }
    else if (op == "map") {
      size_t n; is >> n; std::vector<Beacon> v;
      for (size_t i = 0; i < n; i++) { std::string id; is >> id; double x = real(is), y = real(is); Beacon b; b.fillData(x, y, id, "n" + id, "f"); v.push_back(b); }
      t->fillLocationBeacons(v); fprintf(out, "{}\n");
    } else if (op == "meas") {
      size_t n; is >> n; std::vector<BeaconMeas> v;
      for (size_t i = 0; i < n; i++) { std::string id; is >> id; BeaconMeas m; m.setBeaconId(id); m.setDistance(real(is)); m.setRssi(real(is)); v.push_back(m); }
      t->updateMeasurements(v); fprintf(out, "{}\n");
    } else if (op == "copy") { t.reset(new Trilateration(*std::unique_ptr<Trilateration>(std::move(t)))); fprintf(out, "{}\n"); }
    else if (op == "calc") {
      int r = t->calculateCoordinates();
      fprintf(out, "{\"r\":%d,\"x\":%s,\"y\":%s,\"msg\":%zu}\n", r, num(t->getX()).c_str(), num(t->getY()).c_str(), strlen(t->getErrorMessage()));
    } else bad(op);
  });
}
