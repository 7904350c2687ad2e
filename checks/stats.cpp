// C30: statistics against a two-pass reference over the samples since the last reset.
#include "hardware_interface/hardware_component_info.hpp"
#include "hardware_interface/types/statistics_types.hpp"
#include "pbt.hpp"
using namespace pbt;
using ros2_control::MovingAverageStatistics;
using ros2_control::MovingAverageStatisticsData;

struct Ref
{
  std::vector<double> s;  // finite samples
  double current = NAN;
  void reset() { s.clear(); current = NAN; }
  void add(double v)
  {
    current = v;
    if (std::isfinite(v)) s.push_back(v);
  }
};
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
template <class D>
static void compare(Case & c, const D & d, const std::vector<double> & s, const char * what)
{
  c.checkf(d.sample_count == s.size(), "count", "%s: count %zu, expected %zu", what, static_cast<size_t>(d.sample_count), s.size());
  if (s.empty())
  {
    c.checkf(std::isnan(d.average) && std::isnan(d.min) && std::isnan(d.max) && std::isnan(d.standard_deviation), "empty",
             "%s: without samples avg %s min %s max %s sd %s, expected NaN", what, num(d.average).c_str(), num(d.min).c_str(), num(d.max).c_str(), num(d.standard_deviation).c_str());
    return;
  }
  long double sum = 0;
  double mn = s[0], mx = s[0], big = 0;
  for (double v : s) sum += v, mn = std::min(mn, v), mx = std::max(mx, v), big = std::max(big, std::fabs(v));
  long double mean = sum / s.size(), var = 0;
  for (double v : s) var += (v - mean) * (v - mean);
  var /= s.size();
  double n = static_cast<double>(s.size());
  c.checkf(same(d.min, mn), "min", "%s: min %s, expected %s", what, num(d.min).c_str(), num(mn).c_str());
  c.checkf(same(d.max, mx), "max", "%s: max %s, expected %s", what, num(d.max).c_str(), num(mx).c_str());
  c.checkf(std::fabs(d.average - static_cast<double>(mean)) <= 4e-16 * (n + 4) * big + 1e-300, "average", "%s: average %s, expected %s", what, num(d.average).c_str(), num(static_cast<double>(mean)).c_str());
  double tol = 1e-14 * n * (mx - mn) * big + std::pow(1e-15 * n * big, 2) + 1e-290;
  double got = d.standard_deviation * d.standard_deviation;
  c.checkf(d.standard_deviation >= 0 && std::fabs(got - static_cast<double>(var)) <= tol, "deviation", "%s: deviation %s, expected %s", what, num(d.standard_deviation).c_str(), num(std::sqrt(static_cast<double>(var))).c_str());
}
static double sample(Case & c)
{
  switch (c.weighted({5, 3, 2, 2, 1}))
  {
    case 0: return c.range(-20, 20);
    case 1: return c.real(-100, 100);
    case 2: return 1000.0 + c.real(-1, 1);
    case 3: return c.pick<double>({NAN, INFINITY, -INFINITY, 0.0, -0.0});
    default: return c.real(-1, 1) * std::pow(10.0, c.range(-60, 60));
  }
}
static void test_history(Case & c)
{
  hardware_interface::HardwareComponentStatisticsCollector coll;
  auto other = coll.periodicity;
  auto st = c.coin() ? coll.execution_time : coll.periodicity;
  if (st == other) other = coll.execution_time;
  Ref r, ro;
  MovingAverageStatisticsData pub;
  std::vector<double> pub_s;
  double pub_cur = NAN;
  bool pub_started = false;
  unsigned limit = std::numeric_limits<unsigned>::max();
  size_t most = 0;
  unsigned resets = 0;
  while (c.more(40))
  {
    switch (c.weighted({30, 2, 6, 2, 1, 3}))
    {
      case 0:
      {
        double v = sample(c);
        c.note("sample %s", num(v).c_str());
        st->add_measurement(v);
        r.add(v);
        if (!std::isfinite(v)) c.label("non-finite sample");
        break;
      }
      case 1:
        c.note("reset");
        if (c.coin())
        {
          coll.reset_statistics();
          ro.reset();
        }
        else st->reset();
        r.reset();
        ++resets;
        break;
      case 2:
        c.note("publish");
        pub.update_statistics(st);
        if (!r.s.empty())
        {
          pub_s = r.s;
          pub_cur = r.current;
          pub_started = true;
        }
        if (r.s.size() >= limit)
        {
          r.reset();
          c.label("window reset");
          ++resets;
        }
        break;
      case 3:
        limit = static_cast<unsigned>(c.range(1, 8));
        c.note("window %u", limit);
        pub.set_reset_statistics_sample_count(limit);
        break;
      case 4:
        c.note("reset of the published data");
        pub.reset();
        pub_s.clear();
        pub_started = false;
        break;
      case 5:
      {
        double v = sample(c);
        other->add_measurement(v);
        ro.add(v);
        break;
      }
    }
    most = std::max(most, r.s.size());
    auto d = st->get_statistics();
    compare(c, d, r.s, "collector");
    compare(c, other->get_statistics(), ro.s, "other collector");
    compare(c, st->get_statistics_const_ptr(), r.s, "collector by reference");
    c.check(st->get_count() == r.s.size() && same(st->get_average(), d.average) && same(st->get_min(), d.min) && same(st->get_max(), d.max) && same(st->get_standard_deviation(), d.standard_deviation), "getters", "the getters differ from the statistics");
    c.checkf(same(st->get_current_measurement(), r.current) && same(st->get_current_measurement_const_ptr(), r.current), "current", "current value %s, expected %s", num(st->get_current_measurement()).c_str(), num(r.current).c_str());
    compare(c, pub.get_statistics(), pub_s, "published");
    if (pub_started) c.checkf(same(pub.get_current_data(), pub_cur), "current", "published current value %s, expected %s", num(pub.get_current_data()).c_str(), num(pub_cur).c_str());
  }
  c.nontrivial(most >= 2);
  if (resets) c.label("with resets");
}
int main(int argc, char ** argv)
{
  Options o;
  o.property = "C30";
  o.rule = "at least two finite samples in one window";
  o.quick_cases = 100000;
  o.thorough_cases = 20000000;
  o.assumptions = {"finite samples stay below 1e62, so that squares do not overflow"};
  return run(argc, argv, o, {{"history", 1, test_history}});
}
