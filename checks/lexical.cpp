// C11: text to number/boolean/array conversion, against an independent grammar + strtod in the C locale.
#include <clocale>
#include <locale.h>
#include <locale>

#include "hardware_interface/lexical_casts.hpp"
#include "pbt.hpp"
using namespace pbt;
namespace hi = hardware_interface;

static locale_t c_loc;
static bool have_de = false;
static bool is_digit(char c) { return c >= '0' && c <= '9'; }
static bool is_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

enum Verdict { ACCEPT, REFUSE, EITHER };
// [+-] digits [. digits] [e [+-] digits]
static bool real_grammar(const std::string & s)
{
  size_t i = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  size_t nd = 0;
  while (i < s.size() && is_digit(s[i])) ++i, ++nd;
  if (i < s.size() && s[i] == '.')
  {
    ++i;
    while (i < s.size() && is_digit(s[i])) ++i, ++nd;
  }
  if (!nd) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
  {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t ne = 0;
    while (i < s.size() && is_digit(s[i])) ++i, ++ne;
    if (!ne) return false;
  }
  return i == s.size();
}
template <class F>
static Verdict ref_real(const std::string & s, F & v)
{
  if (!real_grammar(s)) return REFUSE;
  if constexpr (std::is_same_v<F, double>)
    v = strtod_l(s.c_str(), nullptr, c_loc);
  else
    v = strtof_l(s.c_str(), nullptr, c_loc);
  if (!std::isfinite(v)) return REFUSE;
  if (v == 0)
  {
    // a mantissa with a non-zero digit that underflows does not fit the type
    for (char c : s)
    {
      if (c == 'e' || c == 'E') break;
      if (c >= '1' && c <= '9') return REFUSE;
    }
  }
  else if (std::fabs(v) < std::numeric_limits<F>::min())
    return EITHER;  // subnormal: the value must be right if accepted
  return ACCEPT;
}
// optional sign, digits; leading blanks are not specified
static Verdict ref_int(const std::string & s, __int128 & v)
{
  size_t i = 0;
  bool blanks = false;
  while (i < s.size() && is_space(s[i])) ++i, blanks = true;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  size_t nd = 0;
  v = 0;
  for (; i < s.size() && is_digit(s[i]); ++i, ++nd)
    if (v < (static_cast<__int128>(1) << 100)) v = v * 10 + (s[i] - '0');
  if (neg) v = -v;
  if (!nd || i != s.size()) return REFUSE;
  return blanks ? EITHER : ACCEPT;
}
static std::string show(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) o += c < 0x20 || c >= 0x7f ? strf("\\x%02x", c) : std::string(1, static_cast<char>(c));
  return o + "\"";
}

static std::string rnd_digits(Case & c, unsigned avg)
{
  std::string s;
  do
  {
    s += static_cast<char>('0' + c.below(10));
  } while (c.more(avg));
  return s;
}
static std::string boundary_int(Case & c)
{
  int bits = c.pick<int>({7, 8, 15, 16, 31, 32, 63, 64, 65, 24, 53});
  __int128 v = (static_cast<__int128>(1) << bits) + c.range(-2, 2);
  // also full multiples of 2^64 plus a little (wrap candidates)
  if (c.chance(25)) v = (static_cast<__int128>(1) << 64) * c.range(1, 3) - c.range(-300, 300);
  bool neg = c.coin();
  std::string d;
  while (v > 0)
  {
    d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
    v /= 10;
  }
  if (d.empty()) d = "0";
  if (neg) return "-" + d;
  return (c.chance(20) ? "+" : "") + d;
}
static std::string printed_real(Case & c)
{
  double d = c.any_double();
  char b[400];
  switch (c.below(5))
  {
    case 0: snprintf(b, sizeof b, "%.17g", d); break;
    case 1: snprintf(b, sizeof b, "%g", d); break;
    case 2: snprintf(b, sizeof b, "%f", d); break;
    case 3: snprintf(b, sizeof b, "%e", d); break;
    default: snprintf(b, sizeof b, "%.9g", static_cast<double>(static_cast<float>(d))); break;
  }
  return b;
}
static std::string spelled_real(Case & c)
{
  std::string s = c.pick<std::string>({"", "-", "+"});
  if (!c.chance(10)) s += rnd_digits(c, c.chance(10) ? 40 : 3);
  if (c.chance(60))
  {
    s += c.chance(95) ? "." : ",";
    if (!c.chance(15)) s += rnd_digits(c, c.chance(10) ? 60 : 3);
  }
  if (c.chance(30))
  {
    s += c.pick<std::string>({"e", "E"}) + c.pick<std::string>({"", "-", "+"});
    s += c.chance(50) ? rnd_digits(c, 1) : std::to_string(c.pick<int>({0, 308, 309, 307, 323, 324, 325, 38, 39, 45, 46, 400}));
  }
  return s;
}
static std::string garbage(Case & c)
{
  static const std::string alpha = "0123456789+-.,eExX nNaAiIfFtTruUlLsS[]'_\t\n\v\r\f";
  std::string s;
  while (c.more(6)) s += c.chance(3) ? static_cast<char>(c.below(256)) : alpha[c.below(alpha.size())];
  return s;
}
static std::string mutate(Case & c, std::string s)
{
  static const std::string ins = " +-.,eE0x1,\t\n[]'_fdlu";
  unsigned n = static_cast<unsigned>(c.range(1, 2));
  while (n--)
    switch (c.below(4))
    {
      case 0: s.insert(c.below(s.size() + 1), 1, ins[c.below(ins.size())]); break;
      case 1:
        if (!s.empty()) s.erase(c.below(s.size()), 1);
        break;
      case 2: s += ins[c.below(ins.size())]; break;
      default: s.insert(0, 1, ins[c.below(ins.size())]);
    }
  return s;
}
static std::string token(Case & c)
{
  std::string s;
  switch (c.weighted({3, 3, 3, 1, 1}))
  {
    case 0: s = boundary_int(c); break;
    case 1: s = spelled_real(c); break;
    case 2: s = printed_real(c); break;
    case 3:
      s = c.pick<std::string>(
        {"inf", "-inf", "nan", "NaN", "infinity", "0x10", "0x1p3", "1e5", "1.", ".5", ".", "-", "+", "e5", "1e", "1e+", "",
         " 1", "1 ", "1,5", "1.5,", "1'000", "1_000", "1.2.3", "--1", "+-1", "-+1", "++1", "1f", "1.0f", "1d", "0b1", "true", "TRUE"});
      break;
    default: s = garbage(c);
  }
  if (c.chance(25)) s = mutate(c, s);
  return s;
}
static void set_locale(Case & c)
{
  switch (c.weighted({2, 1, 1}))
  {
    case 0:
      setlocale(LC_ALL, "C");
      std::locale::global(std::locale::classic());
      break;
    case 1:
      if (have_de)
      {
        std::locale::global(std::locale::classic());
        setlocale(LC_ALL, "de_DE.UTF-8");
        c.label("locale:de_DE");
      }
      break;
    default:
    {
      struct P : std::numpunct<char>
      {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
      };
      setlocale(LC_ALL, "C");
      std::locale::global(std::locale(std::locale::classic(), new P));
      c.label("locale:punct");
    }
  }
}

template <class F, class Fn>
static void check_real(Case & c, const std::string & s, const char * name, Fn fn)
{
  F want{};
  Verdict v = ref_real<F>(s, want);
  bool got = false;
  F r{};
  try
  {
    r = fn(s);
    got = true;
  }
  catch (const std::invalid_argument &)
  {
  }
  catch (const std::out_of_range &)
  {
  }
  if (v == ACCEPT) c.nontrivial();
  c.label(std::string(name) + (v == ACCEPT ? ":valid" : v == REFUSE ? ":invalid" : ":unspecified"));
  if (v == REFUSE)
    c.checkf(!got, "accepted-invalid", "%s accepted %s as %.17g", name, show(s).c_str(), static_cast<double>(r));
  else
  {
    if (v == ACCEPT) c.checkf(got, "refused-valid", "%s refused %s", name, show(s).c_str());
    if (got)
      c.checkf(memcmp(&r, &want, sizeof r) == 0, "wrong-value", "%s of %s is %.17g instead of %.17g", name,
               show(s).c_str(), static_cast<double>(r), static_cast<double>(want));
  }
}
template <class I, class Fn>
static void check_int(Case & c, const std::string & s, const char * name, Fn fn)
{
  __int128 want = 0;
  Verdict v = ref_int(s, want);
  bool fits = want >= std::numeric_limits<I>::min() && want <= std::numeric_limits<I>::max();
  if (v != REFUSE && !fits) v = REFUSE;
  bool got = false;
  I r{};
  std::string ex;
  try
  {
    r = fn(s);
    got = true;
  }
  catch (const std::invalid_argument &)
  {
  }
  catch (const std::out_of_range &)
  {
  }
  if (v == ACCEPT) c.nontrivial();
  c.label(std::string(name) + (v == ACCEPT ? ":valid" : v == REFUSE ? (fits ? ":invalid" : ":out-of-range") : ":unspecified"));
  if (v == REFUSE)
    c.checkf(!got, "accepted-invalid", "%s accepted %s as %lld", name, show(s).c_str(), static_cast<long long>(r));
  else
  {
    if (v == ACCEPT) c.checkf(got, "refused-valid", "%s refused %s", name, show(s).c_str());
    if (got) c.checkf(r == want, "wrong-value", "%s of %s is %lld", name, show(s).c_str(), static_cast<long long>(r));
  }
}
static Verdict ref_bool(const std::string & s, bool & v)
{
  std::string l;
  for (char ch : s) l += ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch;
  if (l == "true") return v = true, ACCEPT;
  if (l == "false") return v = false, ACCEPT;
  return REFUSE;
}

static void scalars(Case & c)
{
  set_locale(c);
  std::string s = token(c);
  c.notes("text " + show(s));
  check_real<double>(c, s, "stod", [](auto & x) { return hi::stod(x); });
  check_real<float>(c, s, "stof", [](auto & x) { return hi::stof(x); });
  check_int<int8_t>(c, s, "stoi8", [](auto & x) { return hi::stoi8(x); });
  check_int<int16_t>(c, s, "stoi16", [](auto & x) { return hi::stoi16(x); });
  check_int<int32_t>(c, s, "stoi32", [](auto & x) { return hi::stoi32(x); });
  check_int<uint8_t>(c, s, "stoui8", [](auto & x) { return hi::stoui8(x); });
  check_int<uint16_t>(c, s, "stoui16", [](auto & x) { return hi::stoui16(x); });
  check_int<uint32_t>(c, s, "stoui32", [](auto & x) { return hi::stoui32(x); });
}
static std::string bool_text(Case & c)
{
  std::string s = c.coin() ? "true" : "false";
  for (auto & ch : s)
    if (c.chance(40)) ch = static_cast<char>(ch - 32);
  if (c.chance(30)) s = mutate(c, s);
  if (c.chance(5)) s = token(c);
  return s;
}
static void booleans(Case & c)
{
  set_locale(c);
  std::string s = bool_text(c);
  c.notes("text " + show(s));
  bool want = false, r = false, got = false;
  Verdict v = ref_bool(s, want);
  try
  {
    r = hi::parse_bool(s);
    got = true;
  }
  catch (const std::invalid_argument &)
  {
  }
  c.nontrivial(v == ACCEPT);
  c.checkf(got == (v == ACCEPT), "bool-acceptance", "parse_bool(%s) %s", show(s).c_str(), got ? "accepted" : "refused");
  if (got) c.checkf(r == want, "bool-value", "parse_bool(%s) = %d", show(s).c_str(), r);
  // lower casing: ASCII letters only change case
  std::string l = hi::to_lower_case(s);
  c.check(l.size() == s.size(), "lower", "to_lower_case changed the length of " + show(s));
  for (size_t i = 0; i < s.size(); ++i)
  {
    char e = s[i] >= 'A' && s[i] <= 'Z' ? static_cast<char>(s[i] + 32) : s[i];
    if (static_cast<unsigned char>(s[i]) < 0x80) c.check(l[i] == e, "lower", "to_lower_case of " + show(s) + " is " + show(l));
  }
}

// [ ws* (item (ws* , ws* item)*)? ws* ]   items without white space, brackets and commas
static bool split_array(const std::string & s, std::vector<std::string> & out)
{
  out.clear();
  if (s.size() < 2 || s.front() != '[' || s.back() != ']') return false;
  std::string in = s.substr(1, s.size() - 2);
  bool blank = true;
  for (char ch : in)
  {
    if (ch == '[' || ch == ']') return false;
    if (!is_space(ch)) blank = false;
  }
  if (blank) return true;
  size_t i = 0;
  while (true)
  {
    while (i < in.size() && is_space(in[i])) ++i;
    std::string it;
    while (i < in.size() && !is_space(in[i]) && in[i] != ',') it += in[i++];
    if (it.empty()) return false;
    out.push_back(it);
    while (i < in.size() && is_space(in[i])) ++i;
    if (i == in.size()) return true;
    if (in[i] != ',') return false;
    ++i;
  }
}
template <class T, class Conv>
static void check_array(Case & c, const std::string & s, const char * name, Conv conv)
{
  std::vector<std::string> items;
  bool ok = split_array(s, items);
  std::vector<T> want;
  bool either = false;
  if (ok)
    for (auto & it : items)
    {
      T v{};
      Verdict r = conv(it, v);
      if (r == REFUSE) ok = false;
      if (r == EITHER) either = true;
      want.push_back(v);
    }
  bool got = false;
  std::vector<T> r;
  try
  {
    if constexpr (std::is_same_v<T, std::string>)
      r = c.coin() ? hi::parse_string_array(s) : hi::parse_array<T>(s);
    else
      r = hi::parse_array<T>(s);
    got = true;
  }
  catch (const std::invalid_argument &)
  {
  }
  catch (const std::out_of_range &)
  {
  }
  c.label(std::string(name) + (ok ? ":valid" : ":invalid"));
  if (ok && items.size() > 1) c.nontrivial();
  if (!ok)
  {
    std::string v;
    if (got)
      for (const auto & x : r)
      {
        std::ostringstream os;
        os << x;
        v += os.str() + " ";
      }
    c.checkf(!got, "array-accepted-invalid", "%s array accepted %s as { %s}", name, show(s.substr(0, 200)).c_str(), v.c_str());
  }
  else
  {
    if (!either) c.checkf(got, "array-refused-valid", "%s array refused %s", name, show(s.substr(0, 200)).c_str());
    if (got) c.checkf(r == want, "array-wrong-value", "%s array of %s has wrong values", name, show(s.substr(0, 200)).c_str());
  }
}
static std::string ws(Case & c)
{
  std::string s;
  while (c.chance(35)) s += c.pick<std::string>({" ", "  ", "\t", "\n"});
  return s;
}
static void arrays(Case & c)
{
  set_locale(c);
  int kind = static_cast<int>(c.below(4));
  std::string s = "[" + ws(c);
  unsigned n = static_cast<unsigned>(c.weighted({1, 2, 3, 3, 2, 1}));
  if (c.chance(1)) n = static_cast<unsigned>(c.range(20, 3000));
  for (unsigned i = 0; i < n; ++i)
  {
    if (i) s += "," + ws(c);
    std::string t;
    if (n > 20)
      t = kind == 3 ? "true" : "7";
    else if (kind == 0)
      t = c.chance(70) ? std::to_string(c.range(-1000, 1000)) : token(c);
    else if (kind == 1)
      t = c.chance(60) ? num(c.real(-100, 100)) : token(c);
    else if (kind == 2)
      t = c.chance(80) ? c.pick<std::string>({"a", "joint1", "x/y", "0", "-", "\"q\"", "ab.c"}) : token(c);
    else
      t = bool_text(c);
    s += t + ws(c);
  }
  s += "]";
  if (n > 20 && c.coin()) s = c.coin() ? s.substr(0, s.size() - 1) : s + "[";
  else if (c.chance(25)) s = mutate(c, s);
  if (c.chance(3)) s = garbage(c);
  c.notes("array text " + show(s.substr(0, 300)));
  std::locale::classic();
  check_array<int>(c, s, "int",
    [](const std::string & t, int & v) -> Verdict
    {
      double d = 0;
      Verdict r = ref_real<double>(t, d);
      if (r == ACCEPT && (d != std::floor(d) || d < -2147483648.0 || d > 2147483647.0)) return REFUSE;
      if (r == EITHER) return REFUSE;  // subnormal is no integer
      if (r == ACCEPT) v = static_cast<int>(d);
      return r;
    });
  check_array<uint8_t>(c, s, "uint8",
    [](const std::string & t, uint8_t & v) -> Verdict
    {
      double d = 0;
      Verdict r = ref_real<double>(t, d);
      if (r == ACCEPT && (d != std::floor(d) || d < 0 || d > 255)) return REFUSE;
      if (r == EITHER) return REFUSE;
      if (r == ACCEPT) v = static_cast<uint8_t>(d);
      return r;
    });
  check_array<double>(c, s, "double", [](const std::string & t, double & v) { return ref_real<double>(t, v); });
  check_array<std::string>(c, s, "string", [](const std::string & t, std::string & v) { return v = t, ACCEPT; });
  check_array<bool>(c, s, "bool",
    [](const std::string & t, bool & v) { return ref_bool(t, v); });
}

int main(int argc, char ** argv)
{
  Options o;
  o.property = "C11";
  o.rule =
    "texts: boundary integers, spelled and printed reals, documented oddities, garbage, mutations; arrays of them; under "
    "the C, de_DE and a custom comma locale. Non-trivial: the reference accepts the text for at least one type (arrays: "
    "at least two items).";
  o.quick_cases = 1500000;
  o.thorough_cases = 40000000;
  o.worker_init = []
  {
    c_loc = newlocale(LC_ALL_MASK, "C", nullptr);
    have_de = setlocale(LC_ALL, "de_DE.UTF-8") != nullptr;
    setlocale(LC_ALL, "C");
  };
  o.assumptions = {"reference: hand-written grammar and strtod/strtof of the C library in the C locale"};
  c_loc = newlocale(LC_ALL_MASK, "C", nullptr);
  return run(argc, argv, o, {{"scalars", 4, scalars}, {"booleans", 1, booleans}, {"arrays", 2, arrays}});
}
