// C33: prefix, container, text and ordering helpers against their definitions.
#include "controller_interface/helpers.hpp"
#include "controller_interface/tf_prefix.hpp"
#include "hardware_interface/helpers.hpp"
#include "hardware_interface/loaned_command_interface.hpp"
#include "hardware_interface/loaned_state_interface.hpp"
#include "pbt.hpp"
using namespace pbt;

static std::string small_text(Case & c, const char * alphabet, unsigned avg)
{
  std::string s;
  size_t n = strlen(alphabet);
  while (c.more(avg) && s.size() < 40) s += alphabet[c.below(n)];
  return s;
}
static void test_prefix(Case & c)
{
  std::string p = small_text(c, "/~ab/", 5), ns = small_text(c, "/n/m", 4);
  if (c.chance(10)) ns = "/";
  c.note("prefix '%s' namespace '%s'", p.c_str(), ns.c_str());
  std::string got = controller_interface::resolve_tf_prefix(p, ns), want;
  if (!p.empty())
  {
    std::string x;
    bool done = false;
    for (char ch : p)
      if (ch == '~' && !done) x += ns, done = true;
      else x += ch;
    size_t i = 0;
    while (i < x.size() && x[i] == '/') ++i;
    want = x.substr(i);
    if (!want.empty() && want[want.size() - 1] != '/') want += '/';
  }
  c.checkf(got == want, "prefix", "resolves to '%s', expected '%s'", got.c_str(), want.c_str());
  c.nontrivial(p.size() > 1);
}
template <class T>
static std::vector<T> items(Case & c, const std::function<T()> & g)
{
  std::vector<T> v;
  while (c.more(5)) v.push_back(g());
  return v;
}
template <class T>
static void containers(Case & c, const std::function<T()> & g)
{
  using namespace ros2_control;
  auto v = items<T>(c, g), w = items<T>(c, g);
  T x = g();
  auto in = [](const std::vector<T> & a, const T & b) {
    for (auto & e : a) if (e == b) return true;
    return false;
  };
  bool any = false, all = true;
  for (auto & e : w) (in(v, e) ? any : all) = in(v, e);
  std::map<T, int> m;
  std::unordered_map<T, int> um;
  for (auto & e : v) m[e] = 1, um[e] = 1;
  c.check(has_item(v, x) == in(v, x) && has_item(m, x) == in(v, x) && has_item(um, x) == in(v, x), "has_item", "has_item is wrong");
  auto it = get_item_iterator(v, x);
  size_t first = 0;
  while (first < v.size() && !(v[first] == x)) ++first;
  c.check(static_cast<size_t>(it - v.cbegin()) == first, "iterator", "get_item_iterator does not give the first match");
  c.check(has_any_item(v, w) == any && has_any_item(m, w) == any && has_any_item(um, w) == any, "any", "has_any_item is wrong");
  c.check(has_all_items(v, w) == all && has_all_items(m, w) == all && has_all_items(um, w) == all, "all", "has_all_items is wrong");
  bool uniq = true;
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < i; ++j) uniq = uniq && !(v[i] == v[j]);
  auto before = v;
  c.check(is_unique(v) == uniq, "unique", "is_unique is wrong");
  c.check(v == before, "unique", "is_unique changed the container");
  {
    auto a = v, b = v;
    add_item(a, x);
    if (!in(b, x)) b.push_back(x);
    c.check(a == b, "add", "add_item is wrong");
    a = v, b = v;
    add_items(a, w);
    for (auto & e : w)
      if (!in(b, e)) b.push_back(e);
    c.check(a == b, "add", "add_items is wrong");
  }
  {
    auto a = v, b = v;
    bool r = remove_item(a, x);
    if (first < b.size()) b.erase(b.begin() + static_cast<long>(first));
    c.check(r == (first < v.size()) && a == b, "remove", "remove_item is wrong");
  }
  c.nontrivial(v.size() >= 2 && w.size() >= 1);
}
static void test_containers(Case & c)
{
  if (c.coin()) containers<int>(c, [&] { return c.range(0, 6); });
  else containers<std::string>(c, [&] { return small_text(c, "ab", 1); });
}
static void test_strip(Case & c)
{
  std::string s = small_text(c, " \t\n\r\f\vab.\xc2\xa0 ", 8);
  auto ws = [](char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\f' || ch == '\v'; };
  size_t i = 0, j = s.size();
  while (i < j && ws(s[i])) ++i;
  while (j > i && ws(s[j - 1])) --j;
  std::string want(s.begin() + static_cast<long>(i), s.begin() + static_cast<long>(j)), got = ros2_control::strip(s);
  c.note("text %zu bytes, %zu after stripping", s.size(), want.size());
  c.check(got == want, "strip", "stripped to '" + got + "', expected '" + want + "'");
  c.nontrivial(s.size() > want.size() && !want.empty());
}
template <class L, class I>
static void ordered(Case & c)
{
  // distinct full names
  std::vector<std::string> joints{"j1", "j2", "j10", "arm/j1", "j", ""}, types{"position", "velocity", "effort", "x/position", "1"};
  std::set<std::string> used;
  std::vector<std::shared_ptr<I>> own;
  std::vector<L> loans;
  while (c.more(6))
  {
    auto i = std::make_shared<I>(c.pick(joints), c.pick(types), "double", "");
    if (!used.insert(i->get_name()).second) continue;
    own.push_back(i);
  }
  loans.reserve(own.size());
  for (auto & i : own) loans.emplace_back(i);
  std::string type = c.chance(60) ? c.pick(types) : "";
  std::vector<std::string> names;
  std::set<std::string> seen;
  while (c.more(4))
  {
    std::string n;
    if (!own.empty() && c.chance(70))
    {
      auto & o = own[c.below(own.size())];
      n = type.empty() ? o->get_name() : o->get_prefix_name();
    }
    else n = c.pick(joints);
    if (seen.insert(n).second) names.push_back(n);
  }
  std::vector<std::reference_wrapper<L>> out;
  size_t cap = c.chance(15) ? c.below(names.size() + 1) : names.size();
  out.reserve(cap);
  c.note("%zu interfaces, %zu names, type '%s', capacity %zu", own.size(), names.size(), type.c_str(), cap);
  std::vector<std::string> want;
  for (auto & n : names)
  {
    std::string full = type.empty() ? n : n + "/" + type;
    if (used.count(full)) want.push_back(full);
  }
  if (out.capacity() < names.size())
  {
    bool threw = false;
    try { (void)controller_interface::get_ordered_interfaces(loans, names, type, out); } catch (const std::range_error &) { threw = true; }
    c.check(threw && out.empty(), "capacity", "too small a capacity is not refused");
    c.label("too small capacity");
    return;
  }
  auto data = out.data();
  bool r = controller_interface::get_ordered_interfaces(loans, names, type, out);
  c.checkf(r == (want.size() == names.size()), "all-found", "returned %d with %zu of %zu found", r, want.size(), names.size());
  std::vector<std::string> got;
  for (auto & o : out) got.push_back(o.get().get_name());
  c.check(got == want, "order", "the interfaces are not those of the names in their order");
  c.check(out.data() == data, "allocation", "the result was reallocated");
  for (auto & o : out)
  {
    bool is_one = false;
    for (auto & l : loans) is_one = is_one || &l == &o.get();
    c.check(is_one, "identity", "the result refers to something else");
  }
  c.nontrivial(want.size() >= 2);
}
static void test_ordered(Case & c)
{
  if (c.coin()) ordered<hardware_interface::LoanedStateInterface, hardware_interface::StateInterface>(c);
  else ordered<hardware_interface::LoanedCommandInterface, hardware_interface::CommandInterface>(c);
  std::vector<std::string> l = items<std::string>(c, [&] { return small_text(c, "ab", 1); });
  std::string x = small_text(c, "ab", 1);
  c.check(controller_interface::interface_list_contains_interface_type(l, x) == (std::count(l.begin(), l.end(), x) > 0), "contains", "interface_list_contains_interface_type is wrong");
}
int main(int argc, char ** argv)
{
  Options o;
  o.property = "C33";
  o.rule = "prefix of at least two characters; containers with at least two and one items; text with both blanks and content; at least two interfaces found";
  o.quick_cases = 800000;
  o.thorough_cases = 40000000;
  o.assumptions = {"interfaces handed to the ordering helper have distinct full names, as the resource manager guarantees"};
  return run(argc, argv, o, {{"prefix", 3, test_prefix}, {"containers", 3, test_containers}, {"strip", 2, test_strip}, {"ordered", 3, test_ordered}});
}
