// C02: state / command / loaned interface values against a map-like reference model.
#include <condition_variable>
#include <cxxabi.h>
#include <mutex>
#include <shared_mutex>
#include <thread>

#include "hardware_interface/handle.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "pbt.hpp"
using namespace pbt;
namespace hi = hardware_interface;
using hi::CommandInterface;
using hi::Handle;
using hi::LoanedCommandInterface;
using hi::LoanedStateInterface;
using hi::StateInterface;

using Value = std::variant<double, float, bool, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t>;
static const char * type_names[] = {"double", "float32", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32"};

template <class T>
static bool same(T a, T b)
{
  return memcmp(&a, &b, sizeof a) == 0;
}
template <class T>
static bool same_num(T a, T b)  // NaN payloads do not survive a float<->double conversion by contract
{
  return same(a, b) || (a != a && b != b);
}
static std::string show(const Value & v)
{
  return std::visit([](auto x) -> std::string {
    if constexpr (std::is_floating_point_v<decltype(x)>) return num(x);
    else return std::to_string(x);
  }, v);
}
static float any_float(Case & c)
{
  if (c.chance(30))
  {
    uint32_t b = static_cast<uint32_t>(c.draw(UINT32_MAX));
    float f;
    memcpy(&f, &b, 4);
    return f;
  }
  double d = c.any_double();
  if (std::isfinite(d) && std::fabs(d) > std::numeric_limits<float>::max()) d = std::copysign(std::numeric_limits<float>::max(), d);
  return static_cast<float>(d);
}
template <class I>
static I any_int(Case & c)
{
  switch (c.weighted({2, 1, 1, 2}))
  {
    case 0: return static_cast<I>(c.range(0, 100));
    case 1: return std::numeric_limits<I>::max();
    case 2: return std::numeric_limits<I>::min();
    default: return static_cast<I>(c.draw(UINT32_MAX));
  }
}
static Value gen_value(Case & c, int type)
{
  switch (type)
  {
    case 0: return c.any_double();
    case 1: return any_float(c);
    case 2: return c.coin();
    case 3: return any_int<uint8_t>(c);
    case 4: return any_int<int8_t>(c);
    case 5: return any_int<uint16_t>(c);
    case 6: return any_int<int16_t>(c);
    case 7: return any_int<uint32_t>(c);
    default: return any_int<int32_t>(c);
  }
}
static Value default_value(int type)
{
  switch (type)
  {
    case 0: return std::numeric_limits<double>::quiet_NaN();
    case 1: return std::numeric_limits<float>::quiet_NaN();
    case 2: return false;
    case 3: return std::numeric_limits<uint8_t>::max();
    case 4: return std::numeric_limits<int8_t>::max();
    case 5: return std::numeric_limits<uint16_t>::max();
    case 6: return std::numeric_limits<int16_t>::max();
    case 7: return std::numeric_limits<uint32_t>::max();
    default: return std::numeric_limits<int32_t>::max();
  }
}

enum Kind { K_HANDLE, K_STATE, K_COMMAND };
static const char * kind_names[] = {"Handle", "StateInterface", "CommandInterface"};
struct Model
{
  std::string prefix, iface;
  int type = 0;
  Value value = 0.0;
  std::shared_ptr<double> ext;  // legacy handles: storage outside of the handle
  bool empty = false;           // name-only handle: no storage at all
  std::string name() const { return prefix + "/" + iface; }
  Value get() const { return ext ? Value(*ext) : value; }
};
struct Slot
{
  Kind kind;
  std::shared_ptr<Handle> h;
  std::shared_ptr<StateInterface> s;
  std::shared_ptr<CommandInterface> cmd;
  Model m;
  bool moved_from = false;
  int limiter = 0;  // 0: none; 1: clamp to [-1,1]
  bool limited = false;
  Handle & base() { return kind == K_HANDLE ? *h : kind == K_STATE ? static_cast<Handle &>(*s) : static_cast<Handle &>(*cmd); }
};

// read one handle completely and compare with the model
static void verify(Case & c, Slot & sl, const char * when)
{
  if (sl.moved_from) return;
  Handle & h = sl.base();
  auto & m = sl.m;
  c.checkf(h.get_name() == m.name() && h.get_prefix_name() == m.prefix && h.get_interface_name() == m.iface, "name",
           "%s: name is %s (%s,%s), expected %s", when, h.get_name().c_str(), h.get_prefix_name().c_str(), h.get_interface_name().c_str(), m.name().c_str());
  c.checkf(h.get_data_type().to_string() == type_names[m.type], "type", "%s: %s has type %s, expected %s", when, m.name().c_str(), h.get_data_type().to_string().c_str(), type_names[m.type]);
  c.checkf(h.is_castable_to_double(), "castable", "%s: %s not castable", when, m.name().c_str());
  c.checkf(h.is_valid() == !m.empty, "valid", "%s: %s is_valid()=%d", when, m.name().c_str(), h.is_valid());
  if (m.empty)
  {
    bool threw = false;
    try { (void)h.get_optional<double>(); } catch (const std::exception &) { threw = true; }
    c.check(threw, "empty-read", "reading a handle without storage does not throw");
    return;
  }
  Value want = m.get();
  std::visit([&](auto w) {
    using T = decltype(w);
    std::optional<T> got = h.get_optional<T>();
    c.checkf(got.has_value(), "read-refused", "%s: read of %s gave nothing", when, m.name().c_str());
    c.checkf(same(*got, w), "value", "%s: %s reads %s, expected %s", when, m.name().c_str(), show(Value(*got)).c_str(), show(want).c_str());
  }, want);
}
template <class F>
static bool throws(F f)
{
  try
  {
    f();
    return false;
  }
  catch (const std::exception &)
  {
    return true;
  }
}

static void test_history(Case & c)
{
  std::vector<Slot> slots;
  static const std::vector<std::string> prefixes{"j1", "joint2", "", "arm/j3", "a_rather_long_prefix_name_that_does_not_fit_in_place"};
  static const std::vector<std::string> ifaces{"position", "velocity", "x", "a_rather_long_interface_name_without_small_buffer"};
  auto create = [&]() {
    Slot sl;
    sl.kind = static_cast<Kind>(c.below(3));
    sl.m.prefix = c.pick(prefixes);
    sl.m.iface = c.pick(ifaces);
    size_t how = c.weighted({6, 3, 2, 1});
    auto mk = [&](auto... a) {
      if (sl.kind == K_HANDLE) sl.h = std::make_shared<Handle>(a...);
      else if (sl.kind == K_STATE) sl.s = std::make_shared<StateInterface>(a...);
      else sl.cmd = std::make_shared<CommandInterface>(a...);
    };
    if (how == 2)
    {
      sl.m.ext = std::make_shared<double>(c.any_double());
      mk(sl.m.prefix, sl.m.iface, sl.m.ext.get());
      c.note("create legacy %s %s = %s", kind_names[sl.kind], sl.m.name().c_str(), num(*sl.m.ext).c_str());
      c.label("legacy pointer handle");
    }
    else if (how == 3)
    {
      sl.m.prefix = "";
      sl.m.empty = true;
      if (c.coin()) mk(sl.m.iface);
      else mk(sl.m.iface.c_str());
      c.note("create name-only %s %s", kind_names[sl.kind], sl.m.name().c_str());
    }
    else
    {
      sl.m.type = static_cast<int>(c.below(9));
      std::string init;
      sl.m.value = default_value(sl.m.type);
      if (c.coin())
      {
        Value v = gen_value(c, sl.m.type);
        std::visit([&](auto x) {
          using T = decltype(x);
          if constexpr (std::is_same_v<T, bool>) init = x ? "true" : "False";
          else if constexpr (std::is_floating_point_v<T>)
          {
            if (std::isfinite(x) && (x == 0 || std::fabs(x) >= std::numeric_limits<T>::min()))
            {
              char b[64];
              snprintf(b, sizeof b, std::is_same_v<T, float> ? "%.9g" : "%.17g", static_cast<double>(x));
              init = b;
            }
            else v = default_value(sl.m.type);
          }
          else init = std::to_string(x);
        }, v);
        sl.m.value = v;
      }
      if (how == 1)
      {
        hi::InterfaceInfo info{};
        info.name = sl.m.iface;
        info.data_type = type_names[sl.m.type];
        info.initial_value = init;
        mk(hi::InterfaceDescription(sl.m.prefix, info));
      }
      else mk(sl.m.prefix, sl.m.iface, std::string(type_names[sl.m.type]), init);
      c.note("create %s %s %s = '%s'", kind_names[sl.kind], sl.m.name().c_str(), type_names[sl.m.type], init.c_str());
    }
    slots.push_back(sl);
    verify(c, slots.back(), "after creation");
  };
  create();
  unsigned writes = 0, moves = 0;
  while (c.more(25))
  {
    size_t op = c.weighted({10, 4, 4, 6, 5, 2, 3, 2, 2});
    if (op == 1 && slots.size() < 8)
    {
      create();
      continue;
    }
    if (op == 6 && slots.size() > 1)
    {
      // destroy
      size_t i = c.below(slots.size());
      c.note("destroy #%zu %s", i, slots[i].m.name().c_str());
      slots.erase(slots.begin() + static_cast<long>(i));
      c.label("destroy");
      continue;
    }
    size_t i = c.below(slots.size());
    Slot & sl = slots[i];
    if ((op == 0 || op == 1 || op == 6) && !sl.moved_from && !sl.m.empty)
    {
      // write, own type
      Value v = gen_value(c, sl.m.type);
      Handle & h = sl.base();
      size_t how = c.below(sl.kind == K_COMMAND ? 5 : 3);
      c.note("#%zu write(%zu) %s", i, how, show(v).c_str());
      Value stored = v;
      bool ok = std::visit([&](auto x) {
        using T = decltype(x);
        switch (how)
        {
          case 0: return h.set_value(x);
          case 1: return h.set_value(x, c.coin());
          case 2: { std::unique_lock<std::shared_mutex> lk(h.get_mutex()); return h.set_value(lk, x); }
          default:
          {
            if constexpr (std::is_same_v<T, double>)
            {
              if (sl.limiter)
              {
                stored = std::min(1.0, std::max(-1.0, x));
                sl.limited = !same(std::get<double>(stored), x);
              }
              else sl.limited = false;
            }
            if (how == 3) return sl.cmd->set_limited_value(x);
            LoanedCommandInterface l(sl.cmd);
            return l.set_value(x);
          }
        }
      }, v);
      c.check(ok, "write-refused", "write of an unlocked interface was refused");
      if (sl.m.ext) *sl.m.ext = *sl.m.ext;  // written through by the handle: nothing to do in the model
      if (sl.m.ext) c.checkf(same(*sl.m.ext, std::get<double>(stored)), "value", "legacy storage holds %s, expected %s", num(*sl.m.ext).c_str(), show(stored).c_str());
      else sl.m.value = stored;
      if (sl.kind == K_COMMAND) c.checkf(sl.cmd->is_limited() == sl.limited, "is-limited", "is_limited()=%d expected %d", sl.cmd->is_limited(), sl.limited);
      ++writes;
      c.label(std::string("write ") + type_names[sl.m.type]);
    }
    else if (op == 2 && !sl.moved_from)
    {
      // access under another type
      int t = static_cast<int>(c.below(9));
      if (t == sl.m.type || sl.m.empty) continue;
      bool rd = c.coin();
      Handle & h = sl.base();
      c.note("#%zu %s as %s", i, rd ? "read" : "write", type_names[t]);
      Value v = gen_value(c, t);
      if (rd && t == 0 && sl.m.type == 2)
      {
        auto g = h.get_optional<double>();
        c.check(g && *g == (std::get<bool>(sl.m.value) ? 1.0 : 0.0), "bool-as-double", "boolean read as number is not 0/1");
        double d = 7;
        c.check(h.get_value(d, false) && d == (std::get<bool>(sl.m.value) ? 1.0 : 0.0), "bool-as-double", "boolean read as number is not 0/1");
      }
      else
        std::visit([&](auto x) {
          using T = decltype(x);
          bool th;
          if (rd)
          {
            T y = x;
            th = c.coin() ? throws([&] { (void)h.get_optional<T>(); }) : throws([&] { (void)h.get_value(y, c.coin()); });
            c.check(same(x, y), "wrong-type-read", "refused read changed its output");
          }
          else if (sl.kind == K_COMMAND && c.coin())
          {
            th = throws([&] { (void)sl.cmd->set_limited_value(x); });
            if (t == 0) sl.limited = sl.cmd->is_limited();
          }
          else th = throws([&] { (void)h.set_value(x); });
          c.checkf(th, "wrong-type", "%s of a %s interface as %s was not refused", rd ? "read" : "write", type_names[sl.m.type], type_names[t]);
        }, v);
      c.label("wrong type");
    }
    else if (op == 3)
    {
      // copy (not for commands)
      if (sl.kind == K_COMMAND || sl.moved_from) continue;
      if (c.coin() && slots.size() < 8)
      {
        Slot n;
        n.kind = sl.kind;
        n.m = sl.m;
        if (n.kind == K_HANDLE) n.h = std::make_shared<Handle>(*sl.h);
        else n.s = std::make_shared<StateInterface>(*sl.s);
        c.note("copy #%zu -> #%zu", i, slots.size());
        slots.push_back(n);
      }
      else
      {
        size_t j = c.below(slots.size());
        if (slots[j].kind == K_COMMAND || (slots[j].kind == K_STATE && true)) 
        {
          if (slots[j].kind == K_COMMAND) continue;
          // StateInterface has no assignment of its own; assign through the base
        }
        c.note("assign #%zu = #%zu", j, i);
        slots[j].base() = static_cast<const Handle &>(sl.base());
        if (j != i)
        {
          slots[j].m = sl.m;
          slots[j].moved_from = false;
        }
        else c.label("self assignment");
      }
      ++moves;
      c.label("copy");
    }
    else if (op == 4)
    {
      if (sl.moved_from) continue;
      if (c.coin() && slots.size() < 8)
      {
        Slot n;
        n.kind = sl.kind;
        n.m = sl.m;
        if (n.kind == K_HANDLE) n.h = std::make_shared<Handle>(std::move(*sl.h));
        else if (n.kind == K_STATE) n.s = std::make_shared<StateInterface>(std::move(*sl.s));
        else
        {
          n.cmd = std::make_shared<CommandInterface>(std::move(*sl.cmd));
          n.limiter = sl.limiter;
          n.limited = sl.limited;
        }
        sl.moved_from = true;
        c.note("move #%zu -> #%zu", i, slots.size());
        slots.push_back(n);
      }
      else
      {
        size_t j = c.below(slots.size());
        if (slots[j].kind == K_COMMAND || sl.kind == K_COMMAND) continue;
        c.note("move-assign #%zu = #%zu", j, i);
        slots[j].base() = std::move(sl.base());
        if (j != i)
        {
          slots[j].m = sl.m;
          slots[j].moved_from = false;
          sl.moved_from = true;
        }
        else c.label("self move");
      }
      ++moves;
      c.label("move");
    }
    else if (op == 5)
    {
      // access while another thread holds the interface
      if (sl.moved_from || sl.m.empty) continue;
      bool unique = c.coin();
      c.note("#%zu access while locked %s", i, unique ? "exclusively" : "shared");
      Handle & h = sl.base();
      Value v = gen_value(c, sl.m.type), cur = sl.m.get();
      std::mutex mx;
      std::condition_variable cv;
      int state = 0;
      std::thread holder([&] {
        std::unique_lock<std::shared_mutex> u(h.get_mutex(), std::defer_lock);
        std::shared_lock<std::shared_mutex> s(h.get_mutex(), std::defer_lock);
        if (unique) u.lock(); else s.lock();
        std::unique_lock<std::mutex> l(mx);
        state = 1;
        cv.notify_all();
        cv.wait(l, [&] { return state == 2; });
      });
      {
        std::unique_lock<std::mutex> l(mx);
        cv.wait(l, [&] { return state == 1; });
      }
      std::string err;
      std::visit([&](auto x) {
        using T = decltype(x);
        bool w;
        if (sl.kind == K_COMMAND && c.coin())
        {
          bool lim = sl.cmd->is_limited();
          LoanedCommandInterface l(sl.cmd);
          w = l.set_value(x, 2u);
          sl.limited = std::is_same_v<T, double> ? sl.cmd->is_limited() : lim;
        }
        else w = h.set_value(x, false);
        if (w) err = "write succeeded although somebody else holds the interface";
        auto g = h.get_optional<T>();
        T out = x;
        bool gv = h.get_value(out, false);
        if (unique && (g || gv)) err = "read succeeded although somebody else is writing";
        if (unique && !same(out, x)) err = "refused read changed its output";
        if (!unique && (!g || !gv || !same(*g, std::get<T>(cur)) || !same(out, std::get<T>(cur)))) err = "read refused or wrong while somebody else only reads";
      }, v);
      {
        std::unique_lock<std::mutex> l(mx);
        state = 2;
        cv.notify_all();
      }
      holder.join();
      c.check(err.empty(), "locked-access", err);
      c.label("locked");
    }
    else if (op == 7)
    {
      // loaned views and limiter
      if (sl.moved_from) continue;
      if (sl.kind == K_COMMAND && c.coin())
      {
        sl.limiter = 1 - sl.limiter;
        if (sl.limiter)
          sl.cmd->set_on_set_command_limiter([](double v, bool & lim) {
            double o = std::min(1.0, std::max(-1.0, v));
            lim = !same(o, v);
            return o;
          });
        else
          sl.cmd->set_on_set_command_limiter([](double v, bool & lim) { lim = false; return v; });
        c.label("limiter");
      }
      else if (sl.kind != K_HANDLE && !sl.m.empty)
      {
        unsigned released = 0;
        std::visit([&](auto w) {
          using T = decltype(w);
          auto use = [&](auto && first) {
            using L = std::decay_t<decltype(first)>;
            L second(std::move(first));
            auto g = second.template get_optional<T>();
            c.check(g && same(*g, w), "value", "loaned interface reads another value");
            c.check(second.get_name() == sl.m.name() && second.get_prefix_name() == sl.m.prefix && second.get_interface_name() == sl.m.iface && second.get_data_type().to_string() == type_names[sl.m.type], "name", "loaned interface has another identity");
          };
          if (sl.kind == K_STATE)
          {
            LoanedStateInterface l(sl.s, [&] { ++released; });
            use(std::move(l));
          }
          else
          {
            LoanedCommandInterface l(sl.cmd, [&] { ++released; });
            use(std::move(l));
          }
        }, sl.m.get());
        c.checkf(released == 1, "release", "the loan was released %u times", released);
        c.label("loan");
      }
    }
    else if (op == 8)
    {
      if (sl.moved_from || sl.m.empty) continue;
      // a read that may wait, into a variable
      std::visit([&](auto w) {
        using T = decltype(w);
        T out{};
        c.check(sl.base().get_value(out, c.coin()) && same(out, w), "value", "get_value differs from the last write");
        std::shared_lock<std::shared_mutex> lk(sl.base().get_mutex());
        auto g = sl.base().get_optional<T>(lk);
        c.check(g && same(*g, w), "value", "get_optional(lock) differs from the last write");
        std::shared_lock<std::shared_mutex> none;
        c.check(!sl.base().get_optional<T>(none), "lock", "a read with a lock that is not held succeeds");
      }, sl.m.get());
    }
    for (auto & s : slots) verify(c, s, "after the step");
  }
  c.nontrivial(writes >= 1 && moves >= 1);
}

static void test_construction(Case & c)
{
  // refusal of unknown types and of initial values that are not of the type
  static const std::vector<std::string> bad_types{"", "int", "float", "float64", "Double", "DOUBLE", "uint64", "int64", "double ", "string", "unknown", "bool_", "int 8"};
  if (c.chance(30))
  {
    std::string t = c.pick(bad_types);
    c.note("type '%s'", t.c_str());
    bool th = throws([&] { Handle h("p", "i", t, c.coin() ? "1" : ""); });
    c.checkf(th, "bad-type", "a handle of type '%s' was created", t.c_str());
    hi::HandleDataType d(t);
    c.check(!d.is_castable_to_double() && d.to_string() == "unknown", "bad-type", "unknown type is reported as known");
    c.check(throws([&] { (void)d.cast_to_double(1.0); }), "bad-type", "unknown type casts to double");
    c.label("bad type");
    c.nontrivial();
    return;
  }
  int t = static_cast<int>(c.below(9));
  hi::HandleDataType d{std::string(type_names[t])};
  c.check(d.to_string() == type_names[t] && d.is_castable_to_double(), "type", "type name does not round-trip");
  Value v = gen_value(c, t);
  std::visit([&](auto x) {
    double want = static_cast<double>(x), got = d.cast_to_double(hi::HANDLE_DATATYPE(x));
    c.checkf(same_num(want, got), "cast", "cast of %s %s gives %s", type_names[t], show(v).c_str(), num(got).c_str());
  }, v);
  static const std::vector<std::string> bad{"abc", "1.5x", "--1", "0x", "tru", "1 2", "1,5", "99999999999999999999", "-129x", "."};
  std::string init = c.pick(bad);
  bool th = throws([&] { Handle h("p", "i", type_names[t], init); });
  if (!(init[0] == '9' && t <= 1)) c.checkf(th, "bad-initial", "type %s accepts the initial value '%s'", type_names[t], init.c_str());
  // one beyond the range of the type
  if (t >= 3)
  {
    static const long long lo[] = {0, -128, 0, -32768, 0, -2147483648LL}, hi_[] = {255, 127, 65535, 32767, 4294967295LL, 2147483647LL};
    long long out = c.coin() ? hi_[t - 3] + 1 + c.range(0, 1000) : lo[t - 3] - 1 - c.range(0, 1000);
    c.note("%s initial %lld", type_names[t], out);
    c.checkf(throws([&] { Handle h("p", "i", type_names[t], std::to_string(out)); }), "range", "type %s accepts the initial value %lld", type_names[t], out);
  }
  c.nontrivial();
}

// several threads on one interface: what is read was written, the end state is a last write
static void test_threads(Case & c)
{
  bool cmd = c.coin();
  auto ci = std::make_shared<CommandInterface>("j", "i", "double", "0");
  unsigned nw = 1 + static_cast<unsigned>(c.below(3)), n = 20 + static_cast<unsigned>(c.below(80));
  std::vector<double> last(nw, -1);
  std::atomic<bool> bad{false}, stop{false};
  std::vector<std::thread> th;
  // values carry a pattern: integer part = 16 * k + writer
  for (unsigned w = 0; w < nw; ++w)
    th.emplace_back([&, w] {
      LoanedCommandInterface l(ci);
      for (unsigned k = 1; k <= n; ++k)
      {
        double v = 16.0 * k + w;
        if (cmd ? l.set_value(v) : ci->set_value(v, k % 2 == 0)) last[w] = v;
      }
    });
  std::vector<double> seen(nw, 0);
  std::thread rd([&] {
    while (!stop)
    {
      auto g = ci->get_optional<double>();
      if (!g) continue;
      double v = *g;
      unsigned w = static_cast<unsigned>(std::fmod(v, 16.0));
      if (v == 0) continue;
      if (v != std::floor(v) || v < 0 || v > 16.0 * n + 15 || w >= nw || v < seen[w]) bad = true;
      else seen[w] = v;
    }
  });
  for (auto & t : th) t.join();
  stop = true;
  rd.join();
  c.check(!bad, "threads", "a reader saw a value nobody wrote, or one writer's values out of order");
  auto g = ci->get_optional<double>();
  c.check(g && (std::find(last.begin(), last.end(), *g) != last.end() || (*g == 0 && *std::max_element(last.begin(), last.end()) < 0)), "threads", "the final value is no writer's last successful write");
  c.nontrivial(nw > 1);
  c.label("threads");
}

int main(int argc, char ** argv)
{
  Options o;
  o.property = "C02";
  o.rule = "the history has at least one write and one copy/move (history test), a type/initial value pair was checked (construction test), or several writers ran (thread test)";
  o.quick_cases = 120000;
  o.thorough_cases = 6000000;
  o.assumptions = {"a moved-from interface is only destroyed or assigned to", "legacy handles refer to storage that outlives them"};
  return run(argc, argv, o, {{"history", 20, test_history}, {"construction", 5, test_construction}, {"threads", 1, test_threads}});
}
