// C17: transmission maps; C18: refusal and acceptance of transmission configurations, loaders.
#include "trans.hpp"

#include "hardware_interface/hardware_info.hpp"
#include "pbt.hpp"
#include "pluginlib/class_loader.hpp"
#include "transmission_interface/transmission_loader.hpp"
using namespace pbt;
using transmission_interface::ActuatorHandle;
using transmission_interface::JointHandle;
using V = std::vector<long double>;
using transmission_interface::Transmission;

enum Type { SIMPLE, DIFF, FOURBAR };
static const char * tnames[] = {"simple", "differential", "four bar linkage"};
static const char * kinds[] = {"position", "velocity", "effort", "torque", "force", "absolute_position", "acceleration", "position_raw", ""};
static int n_kinds(Type t) { return t == FOURBAR ? 3 : 6; }

// reference maps; with `mag` all terms count positively, which bounds the rounding error
struct Ref
{
  Type t;
  V ar, jr, off;
  long double s(long double v, bool mag) const { return mag ? std::fabs(v) : v; }
  V to_joint(int kind, const V & a, bool mag) const
  {
    auto A = [&](long double x) { return s(x, mag); };
    bool pos = kind == 0 || kind == 5, vel = kind == 1;
    auto minus = [&](long double x, long double y) { return mag ? std::fabs(x) + std::fabs(y) : x - y; };
    V j(2, 0);
    if (t == SIMPLE)
    {
      if (pos) j[0] = A(a[0] / jr[0]) + A(off[0]);
      else if (vel) j[0] = A(a[0] / jr[0]);
      else j[0] = A(a[0] * jr[0]);
    }
    else if (t == DIFF)
    {
      if (pos || vel)
      {
        long double x = A(a[0] / ar[0]), y = A(a[1] / ar[1]);
        j[0] = A((x + y) / (2 * jr[0]));
        j[1] = A(minus(x, y) / (2 * jr[1]));
        if (pos) j[0] += A(off[0]), j[1] += A(off[1]);
      }
      else
      {
        long double x = A(a[0] * ar[0]), y = A(a[1] * ar[1]);
        j[0] = A(jr[0] * (x + y));
        j[1] = A(jr[1] * minus(x, y));
      }
    }
    else
    {
      if (pos || vel)
      {
        long double x = A(a[0] / (jr[0] * ar[0]));
        j[0] = x;
        j[1] = A(minus(A(a[1] / ar[1]), x) / jr[1]);
        if (pos) j[0] += A(off[0]), j[1] += A(off[1]);
      }
      else
      {
        j[0] = A(jr[0] * ar[0] * a[0]) + A(ar[1] * a[1]);
        j[1] = A(jr[1] * ar[1] * a[1]);
      }
    }
    return j;
  }
  V to_actuator(int kind, const V & j, bool mag) const
  {
    auto A = [&](long double x) { return s(x, mag); };
    auto minus = [&](long double x, long double y) { return mag ? std::fabs(x) + std::fabs(y) : x - y; };
    bool pos = kind == 0, vel = kind == 1;
    V a(2, 0);
    V x(2, 0);
    for (size_t i = 0; i < (t == SIMPLE ? 1u : 2u); ++i) x[i] = pos ? minus(j[i], off[i]) : A(j[i]);
    if (t == SIMPLE) a[0] = (pos || vel) ? A(x[0] * jr[0]) : A(x[0] / jr[0]);
    else if (t == DIFF)
    {
      if (pos || vel)
      {
        long double p = A(x[0] * jr[0]), q = A(x[1] * jr[1]);
        a[0] = A(ar[0] * (p + q));
        a[1] = A(ar[1] * minus(p, q));
      }
      else
      {
        long double p = A(x[0] / jr[0]), q = A(x[1] / jr[1]);
        a[0] = A((p + q) / (2 * ar[0]));
        a[1] = A(minus(p, q) / (2 * ar[1]));
      }
    }
    else
    {
      if (pos || vel)
      {
        a[0] = A(jr[0] * ar[0] * x[0]);
        a[1] = A(ar[1] * (x[0] + A(jr[1] * x[1])));
      }
      else
      {
        a[0] = A(minus(x[0], A(x[1] / jr[1])) / (jr[0] * ar[0]));
        a[1] = A(x[1] / (jr[1] * ar[1]));
      }
    }
    return a;
  }
};

struct Rig
{
  Type t;
  Ref ref;
  size_t n;
  std::vector<std::string> jn, an;   // names in the order in which the transmission counts them
  double j[2][9], a[2][9];           // storage per joint/actuator and kind
  bool hj[2][9] = {}, ha[2][9] = {};  // a handle for it exists
  std::vector<JointHandle> jh;
  std::vector<ActuatorHandle> ah;
  bool paired(int k) const
  {
    for (size_t i = 0; i < n; ++i)
      if (!hj[i][k] || !ha[i][k]) return false;
    return true;
  }
};
static double factor(Case & c)
{
  double m = c.weighted({3, 1}) == 0 ? c.pick<double>({1, 2, 10, 0.5, 50, 100, 0.1, 3}) : std::pow(10.0, c.real(-3, 3));
  return c.coin() ? -m : m;
}
static std::vector<std::string> two_names(Case & c, const char * stem, size_t n)
{
  static const std::vector<std::string> suffix{"1", "2", "10", "a", "B", ""};
  std::vector<std::string> v;
  while (v.size() < n)
  {
    std::string s = stem + c.pick(suffix);
    if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
    else v.push_back(s + "_x");
  }
  std::sort(v.begin(), v.end());  // two-joint transmissions count in the order of the names
  return v;
}
// all existing handles, shuffled, plus bystanders
static void make_handles(Case & c, Rig & r)
{
  r.jh.clear();
  r.ah.clear();
  for (size_t i = 0; i < r.n; ++i)
    for (int k = 0; k < 9; ++k)
    {
      if (r.hj[i][k]) r.jh.emplace_back(r.jn[i], kinds[k], &r.j[i][k]);
      if (r.ha[i][k]) r.ah.emplace_back(r.an[i], kinds[k], &r.a[i][k]);
    }
  c.shuffle(r.jh);
  c.shuffle(r.ah);
}
static void fill(Case & c, Rig & r)
{
  for (int i = 0; i < 2; ++i)
    for (int k = 0; k < 9; ++k)
    {
      r.j[i][k] = c.chance(20) ? c.real(-1000, 1000) : c.range(-50, 50);
      r.a[i][k] = c.chance(20) ? c.real(-1000, 1000) : c.range(-50, 50);
    }
}
static Rig rig(Case & c, Type t)
{
  Rig r;
  r.t = t;
  r.n = t == SIMPLE ? 1 : 2;
  r.ref.t = t;
  for (int i = 0; i < 2; ++i)
  {
    r.ref.ar.push_back(factor(c));
    r.ref.jr.push_back(factor(c));
    r.ref.off.push_back(c.chance(70) ? c.real(-10, 10) : 0.0);
  }
  r.jn = two_names(c, "joint", r.n);
  r.an = two_names(c, c.coin() ? "act" : "joint", r.n);
  return r;
}
static TransPtr construct(const Rig & r, int n_args = 3)
{
  std::vector<double> ar, jr, off;
  for (size_t i = 0; i < r.n; ++i)
  {
    ar.push_back(static_cast<double>(r.ref.ar[i]));
    jr.push_back(static_cast<double>(r.ref.jr[i]));
    off.push_back(static_cast<double>(r.ref.off[i]));
  }
  return r.t == SIMPLE ? make_simple(ar, jr, off, n_args) : r.t == DIFF ? make_diff(ar, jr, off, n_args) : make_fb(ar, jr, off, n_args);
}
static void note_rig(Case & c, const Rig & r)
{
  c.note("%s ar %g %g jr %g %g off %g %g", tnames[r.t], (double)r.ref.ar[0], (double)r.ref.ar[1], (double)r.ref.jr[0], (double)r.ref.jr[1], (double)r.ref.off[0], (double)r.ref.off[1]);
  std::string s;
  for (auto & h : r.jh) s += h.get_name() + (h ? " " : "(null) ");
  s += "| ";
  for (auto & h : r.ah) s += h.get_name() + (h ? " " : "(null) ");
  c.notes(s);
}
static bool bits(double x, double y) { return memcmp(&x, &y, 8) == 0; }

static void check_maps(Case & c, Rig & r, Transmission & tr)
{
  double j0[2][9], a0[2][9];
  auto save = [&] { memcpy(j0, r.j, sizeof j0); memcpy(a0, r.a, sizeof a0); };
  auto others = [&](bool joints_written) {
    // nothing but the mapped side of complete pairs may have changed
    for (size_t i = 0; i < 2; ++i)
      for (int k = 0; k < 9; ++k)
      {
        bool mapped = i < r.n && k < n_kinds(r.t) && r.paired(k);
        if (!(mapped && joints_written)) c.checkf(bits(r.j[i][k], j0[i][k]), "touched", "joint %zu %s changed from %g to %g", i, kinds[k], j0[i][k], r.j[i][k]);
        if (!(mapped && !joints_written && k != 5)) c.checkf(bits(r.a[i][k], a0[i][k]), "touched", "actuator %zu %s changed from %g to %g", i, kinds[k], a0[i][k], r.a[i][k]);
      }
  };
  // actuator -> joint
  fill(c, r);
  save();
  tr.actuator_to_joint();
  others(true);
  for (int k = 0; k < n_kinds(r.t); ++k)
  {
    if (!r.paired(k)) continue;
    V a{r.a[0][k], r.a[1][k]}, want = r.ref.to_joint(k, a, false), mag = r.ref.to_joint(k, a, true);
    for (size_t i = 0; i < r.n; ++i)
      c.checkf(std::fabs(static_cast<double>(r.j[i][k] - want[i])) <= 1e-14 * static_cast<double>(mag[i]) + 1e-290, "formula", "joint %zu %s is %.17g, expected %.17g", i, kinds[k], r.j[i][k], (double)want[i]);
  }
  // power
  for (int k = 2; k <= 4; ++k)
    if (k < n_kinds(r.t) && r.paired(k) && r.paired(1))
    {
      long double pa = 0, pj = 0, m = 0;
      V mt = r.ref.to_joint(k, {r.a[0][k], r.a[1][k]}, true), mv = r.ref.to_joint(1, {r.a[0][1], r.a[1][1]}, true);
      for (size_t i = 0; i < r.n; ++i)
      {
        pa += static_cast<long double>(r.a[i][k]) * r.a[i][1];
        pj += static_cast<long double>(r.j[i][k]) * r.j[i][1];
        m += mt[i] * mv[i] + std::fabs(r.a[i][k] * r.a[i][1]);
      }
      c.checkf(std::fabs(static_cast<double>(pa - pj)) <= 1e-13 * static_cast<double>(m) + 1e-290, "power", "power %s x velocity: %.17g on the actuator side, %.17g on the joint side", kinds[k], (double)pa, (double)pj);
      c.label("power");
    }
  // and back: the original actuator values
  double orig[2][9];
  memcpy(orig, r.a, sizeof orig);
  for (int k = 0; k < n_kinds(r.t); ++k)
    if (k != 5)
      for (size_t i = 0; i < r.n; ++i)
        if (r.paired(k)) r.a[i][k] = -77;
  save();
  tr.joint_to_actuator();
  others(false);
  for (int k = 0; k < n_kinds(r.t); ++k)
    if (r.paired(k) && k != 5)
    {
      V m = r.ref.to_joint(k, {orig[0][k], orig[1][k]}, true);
      m = r.ref.to_actuator(k, m, true);
      for (size_t i = 0; i < r.n; ++i)
        c.checkf(std::fabs(r.a[i][k] - orig[i][k]) <= 1e-13 * static_cast<double>(m[i]) + 1e-290, "round-trip", "actuator %zu %s: %.17g became %.17g after the round trip", i, kinds[k], orig[i][k], r.a[i][k]);
    }
  // joint -> actuator with other values
  fill(c, r);
  save();
  tr.joint_to_actuator();
  others(false);
  for (int k = 0; k < n_kinds(r.t); ++k)
  {
    if (!r.paired(k) || k == 5) continue;
    V j{r.j[0][k], r.j[1][k]}, want = r.ref.to_actuator(k, j, false), mag = r.ref.to_actuator(k, j, true);
    for (size_t i = 0; i < r.n; ++i)
      c.checkf(std::fabs(static_cast<double>(r.a[i][k] - want[i])) <= 1e-14 * static_cast<double>(mag[i]) + 1e-290, "formula", "actuator %zu %s is %.17g, expected %.17g", i, kinds[k], r.a[i][k], (double)want[i]);
  }
}

static void test_map(Case & c)
{
  Rig r = rig(c, static_cast<Type>(c.below(3)));
  // complete or absent kinds on each side; at least one complete pair
  int must = static_cast<int>(c.below(static_cast<size_t>(n_kinds(r.t))));
  int np = 0;
  for (int k = 0; k < 8; ++k)
  {
    bool both = k == must || c.chance(40), jj = both || c.chance(20), aa = both || c.chance(20);
    if (both && k < n_kinds(r.t)) ++np;
    for (size_t i = 0; i < r.n; ++i) r.hj[i][k] = jj, r.ha[i][k] = aa;
    if (k >= n_kinds(r.t) && (jj || aa)) c.label("kind of another sort attached");
  }
  make_handles(c, r);
  note_rig(c, r);
  int n_args = (r.ref.off[0] == 0 && r.ref.off[1] == 0 && c.coin()) ? 2 : 3;
  auto tr = construct(r, n_args);
  tr->configure(r.jh, r.ah);
  c.checkf(tr->num_joints() == r.n && tr->num_actuators() == r.n, "count", "counts are %zu/%zu", tr->num_joints(), tr->num_actuators());
  check_maps(c, r, *tr);
  if (c.chance(20))
  {
    // configured again, with other handles
    for (int k = 0; k < 8; ++k)
    {
      bool both = k == must || c.chance(40);
      for (size_t i = 0; i < r.n; ++i) r.hj[i][k] = r.ha[i][k] = both;
    }
    make_handles(c, r);
    note_rig(c, r);
    tr->configure(r.jh, r.ah);
    check_maps(c, r, *tr);
    c.label("configured twice");
  }
  c.label(tnames[r.t]);
  c.nontrivial(np >= 2);
}

// ---- C18
static bool refused(const std::function<void()> & f, Case & c)
{
  try
  {
    f();
    return false;
  }
  catch (const transmission_interface::Exception &)
  {
    return true;
  }
  catch (const std::exception & e)
  {
    c.fail("exception", std::string("refused with another exception: ") + e.what());
  }
}
static void test_construct(Case & c)
{
  Type t = static_cast<Type>(c.below(3));
  auto vec = [&](bool reduction) {
    std::vector<double> v;
    size_t n = t == SIMPLE ? 1 : c.chance(80) ? 2 : c.below(5);
    for (size_t i = 0; i < n; ++i) v.push_back(reduction ? (c.chance(10) ? c.pick<double>({0.0, -0.0}) : factor(c)) : c.real(-5, 5));
    return v;
  };
  auto ar = vec(true), jr = vec(true), off = vec(false);
  bool bad = false;
  if (t == SIMPLE) bad = jr[0] == 0;
  else
  {
    bad = ar.size() != 2 || jr.size() != 2 || off.size() != 2;
    for (auto & v : {ar, jr})
      for (double x : v) bad = bad || x == 0;
  }
  c.note("%s: %zu actuator reductions, %zu joint reductions, %zu offsets, %s", tnames[t], ar.size(), jr.size(), off.size(), bad ? "bad" : "good");
  bool r = refused([&] { auto p = t == SIMPLE ? make_simple(ar, jr, off, 3) : t == DIFF ? make_diff(ar, jr, off, 3) : make_fb(ar, jr, off, 3); }, c);
  c.checkf(r == bad, "construct", "construction was %s", r ? "refused" : "accepted");
  c.label(bad ? "bad construction" : "good construction");
  c.nontrivial();
}
static void test_configure(Case & c)
{
  Rig r = rig(c, static_cast<Type>(c.below(3)));
  fill(c, r);
  auto tr = construct(r);
  // arbitrary handles: names, kinds, null pointers, duplicates
  struct H { std::string name; int kind; bool null; };
  auto names = [&](const std::vector<std::string> & own) {
    auto v = own;
    if (c.chance(15)) v.push_back("zz_extra");
    if (v.size() > 1 && c.chance(10)) v.pop_back();
    return v;
  };
  bool tidy = c.chance(70);  // mostly complete kinds, so that acceptance is frequent
  auto gen = [&](const std::vector<std::string> & own) {
    std::vector<H> h;
    auto nm = names(own);
    if (c.chance(3)) return h;
    for (int k = 0; k < 8; ++k)
    {
      bool all = c.chance(50);
      for (auto & n : nm)
        if (tidy ? all && !c.chance(2) : c.chance(40)) h.push_back({n, k, c.chance(tidy ? 2 : 10)});
    }
    if (!h.empty() && c.chance(6)) h.push_back(h[c.below(h.size())]);
    c.shuffle(h);
    return h;
  };
  auto hj = gen(r.jn), ha = gen(r.an);
  double dummy[2] = {0, 0};
  for (auto & h : hj) r.jh.emplace_back(h.name, kinds[h.kind], h.null ? nullptr : &dummy[0]);
  for (auto & h : ha) r.ah.emplace_back(h.name, kinds[h.kind], h.null ? nullptr : &dummy[1]);
  note_rig(c, r);
  auto count = [](const std::vector<H> & v, int k) {
    size_t n = 0;
    for (auto & h : v) n += h.kind == k && !h.null;
    return n;
  };
  auto distinct = [](const std::vector<H> & v) {
    std::set<std::string> s;
    for (auto & h : v) s.insert(h.name);
    return s.size();
  };
  bool bad = hj.empty() || ha.empty() || distinct(hj) != r.n || distinct(ha) != r.n;
  bool open = false;  // not settled by the documentation
  if (r.t == SIMPLE)
  {
    bool vj = false, va = false;
    for (int k = 0; k < 6; ++k)
    {
      vj = vj || count(hj, k) > 0;
      va = va || count(ha, k) > 0;
      // the same kind twice, once without a value: which one counts is not specified
      auto total = [&](const std::vector<H> & v) { size_t n = 0; for (auto & h : v) n += h.kind == k; return n; };
      open = open || total(hj) > 1 || total(ha) > 1;
    }
    bad = bad || !vj || !va;
  }
  else
  {
    bool pair = false;
    for (int k = 0; k < n_kinds(r.t); ++k)
    {
      size_t nj = count(hj, k), na = count(ha, k);
      // a kind may be attached twice to one joint and not at all to the other one: then it does not pair up
      pair = pair || (nj == 2 && na == 2);
      auto each_once = [&](const std::vector<H> & v) {
        std::set<std::string> s;
        for (auto & h : v) if (h.kind == k && !h.null) s.insert(h.name);
        return s.size() == 2;
      };
      if ((nj == 2 && !each_once(hj)) || (na == 2 && !each_once(ha))) open = true;
      if (r.t == DIFF) bad = bad || (nj != 0 && nj != 2) || (na != 0 && na != 2);
    }
    bad = bad || !pair;
  }
  if (open) c.discard();
  bool ref = refused([&] { tr->configure(r.jh, r.ah); }, c);
  c.checkf(ref == bad, "configure", "the configuration was %s although it is %s", ref ? "refused" : "accepted", bad ? "bad" : "good");
  c.label(bad ? "bad configuration" : "good configuration");
  c.label(std::string(tnames[r.t]) + (bad ? " refused" : " accepted"));
  c.nontrivial(hj.size() > 1 && ha.size() > 1);
}
static void test_load(Case & c)
{
  static pluginlib::ClassLoader<transmission_interface::TransmissionLoader> cl("transmission_interface", "transmission_interface::TransmissionLoader");
  Rig r = rig(c, static_cast<Type>(c.below(3)));
  auto loader = cl.createUniqueInstance(r.t == SIMPLE ? "transmission_interface/SimpleTransmission" : r.t == DIFF ? "transmission_interface/DifferentialTransmission" : "transmission_interface/FourBarLinkageTransmission");
  hardware_interface::TransmissionInfo info;
  info.name = "t";
  info.type = "x";
  size_t nj = c.chance(85) ? r.n : c.below(r.n), na = c.chance(85) ? r.n : c.below(r.n);
  bool zero = false;
  for (size_t i = 0; i < nj; ++i)
  {
    hardware_interface::JointInfo j;
    j.name = r.jn[i];
    j.role = "joint" + std::to_string(i + 1);
    if (c.chance(5)) r.ref.jr[i] = 0, zero = true;
    j.mechanical_reduction = static_cast<double>(r.ref.jr[i]);
    j.offset = static_cast<double>(r.ref.off[i]);
    info.joints.push_back(j);
  }
  for (size_t i = 0; i < na; ++i)
  {
    hardware_interface::ActuatorInfo a;
    a.name = r.an[i];
    a.role = "actuator" + std::to_string(i + 1);
    if (r.t == SIMPLE) a.mechanical_reduction = 1;
    else if (c.chance(5)) r.ref.ar[i] = 0, zero = true;
    if (r.t != SIMPLE) a.mechanical_reduction = static_cast<double>(r.ref.ar[i]);
    info.actuators.push_back(a);
  }
  if (r.t == SIMPLE) na = r.n;  // the simple transmission is described by its joint
  bool bad = zero || nj < r.n || na < r.n;
  c.note("%s: %zu joints, %zu actuators, %s", tnames[r.t], nj, na, bad ? "bad" : "good");
  auto tr = loader->load(info);
  c.checkf((tr == nullptr) == bad, "load", "the loader returned %s", tr ? "a transmission" : "nothing");
  c.label(bad ? "bad description" : "good description");
  if (tr)
  {
    bool all = c.coin();
    for (int k = 0; k < n_kinds(r.t); ++k)
      for (size_t i = 0; i < r.n; ++i) r.hj[i][k] = r.ha[i][k] = all || k < 3;
    make_handles(c, r);
    note_rig(c, r);
    tr->configure(r.jh, r.ah);
    check_maps(c, r, *tr);
  }
  c.nontrivial();
}

int main(int argc, char ** argv)
{
  Options o;
  o.property = getenv("PBT_PROPERTY") ? getenv("PBT_PROPERTY") : "C17";
  if (o.property == "C17")
  {
    o.rule = "at least two interface kinds are attached on both sides";
    o.quick_cases = 200000;
    o.thorough_cases = 15000000;
    o.assumptions = {"reductions between 1e-3 and 1e3 in magnitude, values below 1000: no overflow"};
    return run(argc, argv, o, {{"maps", 1, test_map}});
  }
  o.rule = "every construction and load; configurations with at least two handles on each side";
  o.quick_cases = 300000;
  o.thorough_cases = 20000000;
  return run(argc, argv, o, {{"construct", 1, test_construct}, {"configure", 4, test_configure}, {"load", 1, test_load}});
}
