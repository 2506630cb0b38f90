// Drives the running statistics.  Values are integers relative to an offset (2000000000: NaN,
// +-1999999999: infinite), means and variances in units of 1/256.
#include <nlohmann/json.hpp>

#include <cmath>
#include <fstream>
#include <memory>

#include "libstatistics_collector/moving_average_statistics/types.hpp"

#include "hardware_interface/types/statistics_types.hpp"
using json = nlohmann::json;

static double off = 0;
static double dec(int64_t v)
{
  if (v == 2000000000) return std::nan("");
  if (v == 1999999999) return INFINITY;
  if (v == -1999999999) return -INFINITY;
  return static_cast<double>(v) + off;
}
static int64_t enc(double v)
{
  if (std::isnan(v)) return 2000000000;
  if (std::fabs(v) > 1.9e9) return v > 0 ? 1999999999 : -1999999999;
  return std::llround(v);
}
template <class D> static json show(const D & d, double cur)
{
  return {{"n", d.sample_count}, {"avg", enc((d.average - off) * 256)}, {"mn", enc(d.min - off)}, {"mx", enc(d.max - off)},
          {"v", enc(d.standard_deviation * d.standard_deviation * 256)}, {"c", enc(cur - off)}};
}

int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::shared_ptr<ros2_control::MovingAverageStatistics> s;
  std::unique_ptr<ros2_control::MovingAverageStatisticsData> d;
  std::string line;
  while (std::getline(in, line))
    {
      const json o = json::parse(line);
      const std::string op = o["op"];
      if (op == "NEW")
      {
        off = o["off"].get<double>();
        s = std::make_shared<ros2_control::MovingAverageStatistics>();
        d = std::make_unique<ros2_control::MovingAverageStatisticsData>();
        if (o["win"].get<unsigned>() > 0) d->set_reset_statistics_sample_count(o["win"].get<unsigned>());
      }
      else if (op == "ADD") s->add_measurement(dec(o["x"]));
      else if (op == "RST") s->reset();
      else if (op == "UPD") d->update_statistics(s);
      else if (op == "DRST") d->reset();
      json e = o;
      auto q = s->get_statistics();
      e["s"] = show(q, s->get_current_measurement());
      e["d"] = show(d->get_statistics(), d->get_current_data());
      // the same through the other accessors
      e["g"] = s->get_count() == q.sample_count && enc((s->get_average() - q.average) * 256) == (std::isnan(q.average) ? 2000000000 : 0) &&
               enc(s->get_min() - off) == enc(q.min - off) && enc(s->get_max() - off) == enc(q.max - off) &&
               enc(s->get_standard_deviation() * 256) == enc(q.standard_deviation * 256) &&
               enc(s->get_statistics_const_ptr().max - off) == enc(q.max - off) &&
               enc(s->get_current_measurement_const_ptr() - off) == enc(s->get_current_measurement() - off);
      out << e.dump() << "\n";
    }
  return 0;
}
