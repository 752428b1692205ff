// P28: configuration files.
#include "gen.h"
#include <ConfigLoader.hh>
#include <Exceptions.h>
#include <deque>
#include <fstream>
#include <list>
#include <regex>
#include <sys/stat.h>
#include <unistd.h>
using namespace oxv;
PLAN("P28", 60000, 1500000,
     "Configuration texts of 0..12 sections, subsections and fields with every layout (blanks, tabs, CR, comments, no final "
     "newline), values that are numbers at and over the ends of each type, lists and arbitrary text; texts broken in one "
     "place; and random lines over the characters that matter, read by an independent reader in the harness. Every field is "
     "loaded as text, ten numeric types and eight containers. Histories of opens, failing opens, closes and loads. "
     "Distinct = (shape of the text, outcome).")

namespace
{
typedef std::map<std::string, std::map<std::string, std::string>> Conf;
std::string dir()
{
  static std::string d;
  if (d.empty())
  {
    char b[] = "/tmp/oxv_p28_XXXXXX";
    if (!mkdtemp(b))
      throw std::runtime_error("no scratch directory");
    d = b;
    std::atexit([] { unlink((d + "/c.ini").c_str()), rmdir(d.c_str()); });
  }
  return d;
}
std::string trim(const std::string &s)
{
  size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
std::string write(const std::string &text)
{
  std::string n = dir() + "/c.ini";
  std::ofstream o(n, std::ios::binary);
  o << text;
  return n;
}
std::string quote(const std::string &s)
{
  std::string o;
  for (char x : s)
    o += x == '\n' ? "\\n" : x == '\r' ? "\\r" : x == '\t' ? "\\t" : std::string(1, x);
  return "'" + o + "'";
}
// What the text says: 1 well formed, 0 malformed, -1 not for us to say.
int read(const std::string &text, Conf &out)
{
  struct Node
  {
    std::map<std::string, Node> sub;
    std::map<std::string, std::string> val;
  } top;
  std::vector<Node *> path{&top};
  size_t at = 0;
  int verdict = 1;
  while (at < text.size())
  {
    size_t e = text.find('\n', at);
    std::string raw = text.substr(at, e == std::string::npos ? e : e - at), l = trim(raw);
    at = e == std::string::npos ? text.size() : e + 1;
    if (raw.size() && (raw[0] == '#' || raw[0] == ';'))
      continue;
    if (l.empty())
      continue;
    if (l[0] == '[')
    {
      size_t d = l.find_first_not_of('[');
      if (d == std::string::npos)
        return 0;
      size_t t = l.size() - 1 - l.find_last_not_of(']');
      if (t < d)
        return 0;
      std::string n = l.substr(d, l.size() - 2 * d);
      if (t > d || n.empty() || n != trim(n) || n.find_first_of("[]") != std::string::npos)
        verdict = -1;
      if (l.size() < 2 * d)
        return -1;
      if (d > path.size())
        return verdict < 0 ? -1 : 0;
      path.resize(d);
      if (path.back()->sub.count(n))
        return verdict < 0 ? -1 : 0;
      path.push_back(&path.back()->sub[n]);
      continue;
    }
    size_t q = l.find('=');
    if (q == std::string::npos)
      return verdict < 0 ? -1 : 0;
    std::string k = trim(l.substr(0, q));
    if (k.empty())
      verdict = -1;
    if (path.back()->val.count(k))
      return verdict < 0 ? -1 : 0;
    path.back()->val[k] = trim(l.substr(q + 1));
  }
  out.clear();
  for (auto &s : top.sub)
    out[s.first] = s.second.val;
  return verdict;
}
template <class F>
bool refused(F f, const std::string &what)
{
  ++stats().checks;
  try
  {
    f();
  }
  catch (const OXSXException &)
  {
    current()->count("refusals");
    return true;
  }
  catch (const std::exception &e)
  {
    fail("foreign-exception", cat(what, ": ", e.what()));
  }
  return false;
}

const std::regex integer("[+-]?[0-9]+"), decimal("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?"),
    special("[+-]?(0[xX].*|inf.*|nan.*|INF.*|NAN.*)");
// 1: worth v, 0: not one of these, -1: not for us to say
template <class T>
int worth(const std::string &s, T &v)
{
  if (std::is_same<T, bool>::value)
  {
    if (s == "0" || s == "1")
      return v = s == "1", 1;
    return std::regex_match(s, integer) && s.find_first_not_of("+-01") == std::string::npos ? -1 : 0;
  }
  if (std::is_same<T, char>::value)
  {
    if (s.size() == 1)
      return v = T(s[0]), 1;
    return 0;
  }
  if (std::is_floating_point<T>::value)
  {
    if (std::regex_match(s, special))
      return -1;
    if (!std::regex_match(s, decimal))
      return 0;
    errno = 0;
    double big = std::is_same<T, float>::value ? double(std::strtof(s.c_str(), nullptr)) : std::strtod(s.c_str(), nullptr);
    if (std::isinf(big))
      return 0;
    if (errno == ERANGE)
      return -1;
    v = T(big);
    return 1;
  }
  if (!std::regex_match(s, integer))
    return 0;
  if (s[0] == '-' && !std::numeric_limits<T>::is_signed)
    return s.find_first_not_of("-0") == std::string::npos ? -1 : 0;
  errno = 0;
  if (s[0] == '-')
  {
    long long x = std::strtoll(s.c_str(), nullptr, 10);
    if (errno || x < (long long)std::numeric_limits<T>::lowest())
      return 0;
    v = T(x);
    return 1;
  }
  unsigned long long x = std::strtoull(s.c_str(), nullptr, 10);
  if (errno || x > (unsigned long long)std::numeric_limits<T>::max())
    return 0;
  v = T(x);
  return 1;
}
template <class T>
void number(const std::string &sec, const std::string &f, const std::string &text, const char *type)
{
  T want{}, got = T(42), before = got;
  int w = worth(text, want);
  bool no = refused([&] { ConfigLoader::Load(sec, f, got); }, cat("loading ", quote(text), " as ", type));
  if (no)
  {
    check(w != 1, "number", quote(text), " can't be loaded as ", type);
    check(got == before, "target", "a failed load of ", quote(text), " as ", type, " changed the target");
    return;
  }
  check(w != 0, "unconvertible", quote(text), " was loaded as ", type, " ", got);
  if (w == 1)
    check(got == want, "number", quote(text), " was loaded as ", type, " ", got);
  current()->count("numbers");
}
std::vector<std::string> elements(const std::string &s)
{
  std::vector<std::string> v;
  std::stringstream in(s);
  std::string x;
  while (std::getline(in, x, ','))
    if (x.size())
      v.push_back(x);
  return v;
}
template <class C>
void numbers(const std::string &sec, const std::string &f, const std::string &text, const char *type)
{
  typedef typename C::value_type T;
  C got, want;
  bool before = current()->r.coin();
  if (before)
    got.insert(got.end(), T(7)), want = got;
  C untouched = got;
  int w = 1;
  for (auto &x : elements(text))
  {
    T v{};
    int k = worth(trim(x), v);
    w = k == 0 ? 0 : k < 0 && w ? -1 : w;
    want.insert(want.end(), v);
  }
  bool no = refused([&] { ConfigLoader::Load(sec, f, got); }, cat("loading ", quote(text), " as ", type));
  if (no)
  {
    check(w != 1, "list", quote(text), " can't be loaded as ", type);
    check(got == untouched, "target", "a failed load of ", quote(text), " as ", type, " changed the target");
    return;
  }
  check(w != 0, "unconvertible", quote(text), " was loaded as ", type);
  if (w == 1)
    check(got == want, "list", quote(text), " gave other elements as ", type, ": ", got.size(), " of ", want.size());
  current()->count("lists");
}
template <class C>
void texts(const std::string &sec, const std::string &f, const std::string &text, const char *type)
{
  C got, want;
  if (current()->r.coin(0.3))
    got.insert(got.end(), "there already"), want = got;
  ConfigLoader::Load(sec, f, got);
  for (auto &x : elements(text))
    want.insert(want.end(), trim(x));
  C trimmed;
  for (auto &x : got)
    trimmed.insert(trimmed.end(), trim(x));
  check(trimmed == want, "list", quote(text), " gave other elements as ", type, ": ", got.size(), " of ", want.size());
  current()->count("lists");
}
void loadAll(const Conf &conf, Rng &r, bool light = false)
{
  std::set<std::string> sections;
  for (auto &s : conf)
    sections.insert(s.first);
  check(ConfigLoader::ListSections() == sections, "sections", "listed ", str(ConfigLoader::ListSections()), " are ", str(sections));
  for (auto &s : conf)
  {
    for (auto &f : s.second)
    {
      const std::string &t = f.second;
      std::string got = "before";
      ConfigLoader::Load(s.first, f.first, got);
      check(got == t, "text", s.first, "/", f.first, " is ", quote(t), " and loads as ", quote(got));
      current()->count("texts");
      if (light)
        continue;
      const std::string &a = s.first, &b = f.first;
      number<int>(a, b, t, "int");
      number<unsigned>(a, b, t, "unsigned");
      number<short>(a, b, t, "short");
      number<unsigned short>(a, b, t, "unsigned short");
      number<long>(a, b, t, "long");
      number<size_t>(a, b, t, "size_t");
      number<float>(a, b, t, "float");
      number<double>(a, b, t, "double");
      number<bool>(a, b, t, "bool");
      number<char>(a, b, t, "char");
      numbers<std::vector<int>>(a, b, t, "vector<int>");
      numbers<std::vector<double>>(a, b, t, "vector<double>");
      numbers<std::list<long>>(a, b, t, "list<long>");
      numbers<std::set<unsigned>>(a, b, t, "set<unsigned>");
      numbers<std::deque<float>>(a, b, t, "deque<float>");
      texts<std::vector<std::string>>(a, b, t, "vector<string>");
      texts<std::set<std::string>>(a, b, t, "set<string>");
      texts<std::list<std::string>>(a, b, t, "list<string>");
    }
    std::string got = "before";
    check(refused([&] { ConfigLoader::Load(s.first, "no such field", got); }, "a missing field") && got == "before", "missing-field",
          "a field that isn't in ", s.first, " was loaded: ", got);
  }
  std::string sec = r.coin() ? "no such section" : "", got = "before";
  double d = -7;
  std::vector<int> v{1};
  if (!conf.count(sec))
  {
    check(refused([&] { ConfigLoader::Load(sec, "x", got); }, "a missing section") && got == "before", "missing-section", "loaded ", got);
    check(refused([&] { ConfigLoader::Load(sec, "x", d); }, "a missing section") && d == -7, "missing-section", "loaded ", d);
    check(refused([&] { ConfigLoader::Load(sec, "x", v); }, "a missing section") && v.size() == 1, "missing-section", "loaded a list");
  }
  // nothing asked for should have been made by asking
  check(ConfigLoader::ListSections() == sections, "sections", "asking changed the sections to ", str(ConfigLoader::ListSections()));
}
std::string genNumber(Rng &r)
{
  switch (r.ri(0, 9))
  {
  case 0:
    return cat(r.ri(-100, 100));
  case 1:
    return r.pick<std::string>({"32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
                                "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                                "-9223372036854775809", "18446744073709551615", "18446744073709551616"});
  case 2:
    return cat(r.uni(-1e3, 1e3));
  case 3:
    return r.pick<std::string>({"1e308", "1e400", "-1e400", "3e38", "4e38", "1e-300", "1e-310", ".5", "5.", "-.25", "+3", "1E5", "1e+5", "007", "-0", "+0"});
  case 4:
    return r.pick<std::string>({"inf", "nan", "0x10", "1e", "1e+", ".", "-", "+", "--1", "1-2", "5abc", "1 2", "1.2.3", "1,", ",1", "e5", "5 x", "true", "0", "1", "2"});
  case 5:
    return cat(r.uni(-1, 1) * 1e-5);
  case 6:
    return cat(long(r.next() >> 1));
  case 7:
    return r.coin() ? "0" : "1";
  default:
    return cat(r.ri(0, 9));
  }
}
std::string genText(Rng &r)
{
  std::string s;
  int n = int(r.ri(0, 12));
  for (int i = 0; i < n; ++i)
    s += r.pick<std::string>({"a", "Z", "_", " ", "\t", "=", "[", "]", "#", ";", ",", "-", ".", "5", "/", ":", "\"", "%s"});
  return trim(s);
}
std::string genValue(Rng &r)
{
  if (r.coin(0.003))
  { // a long line
    std::string s;
    bool list = r.coin();
    for (size_t n = size_t(r.ri(200, 6000)); s.size() < n;)
      s += list ? (s.empty() ? "" : ",") + cat(r.ri(-9, 9)) : r.pick<std::string>({"a", "Z", "_", " ", "=", "#", "-", ".", "5"});
    return trim(s);
  }
  if (r.coin(0.4))
    return genNumber(r);
  if (r.coin(0.5))
  {
    std::string s;
    int n = int(r.ri(1, 6));
    for (int i = 0; i < n; ++i)
      s += (i ? r.pick<std::string>({",", ",", ", ", " ,", ",,"}) : "") + (r.coin(0.8) ? cat(r.ri(-9, 9)) : r.coin() ? genNumber(r) : genText(r));
    return trim(s);
  }
  return genText(r);
}
std::string genKey(Rng &r)
{
  std::string s;
  int n = int(r.ri(1, 5));
  for (int i = 0; i < n; ++i)
    s += r.pick<std::string>({"a", "b", "K", "_", "1", ".", "-", i && i + 1 < n ? " " : "x"});
  return s;
}
std::string pad(Rng &r) { return r.coin(0.6) ? "" : r.pick<std::string>({" ", "\t", "  "}); }
std::vector<std::string> genLines(Rng &r, Conf &conf)
{
  std::vector<std::string> lines;
  auto noise = [&] {
    if (r.coin(0.2))
      lines.push_back(r.pick<std::string>({"", "   ", "\t", "# comment", ";[x]", "#a=b", "#"}));
  };
  auto fields = [&](std::map<std::string, std::string> &m) {
    int n = int(r.ri(0, 4));
    for (int i = 0; i < n; ++i)
    {
      std::string k = genKey(r), v = genValue(r);
      if (m.count(k))
        continue;
      m[k] = v;
      std::string p = pad(r);
      if ((k[0] == '#' || k[0] == ';') && p.empty())
        p = " ";
      lines.push_back(p + k + pad(r) + "=" + pad(r) + v + pad(r));
      noise();
    }
  };
  std::map<std::string, std::string> loose;
  noise();
  if (r.coin(0.2))
    fields(loose); // belongs to no section
  int n = int(r.ri(0, 4));
  for (int i = 0; i < n; ++i)
  {
    std::string s = genKey(r);
    if (conf.count(s))
      continue;
    lines.push_back(pad(r) + "[" + s + "]" + pad(r));
    noise();
    fields(conf[s]);
    if (r.coin(0.3))
    {
      std::map<std::string, std::string> sub;
      lines.push_back("[[" + genKey(r) + "]]");
      fields(sub);
    }
  }
  return lines;
}
std::string join(Rng &r, const std::vector<std::string> &l)
{
  std::string t, nl = r.coin(0.3) ? "\r\n" : "\n";
  for (size_t i = 0; i < l.size(); ++i)
    t += l[i] + (i + 1 == l.size() && r.coin(0.3) ? "" : nl);
  return t;
}
bool opens(const std::string &text)
{
  std::string n = write(text);
  LOG << "open " << quote(text);
  try
  {
    ConfigLoader::Open(n);
  }
  catch (const std::exception &e)
  {
    current()->count("refused files");
    return false;
  }
  current()->count("opened files");
  return true;
}
void mayLoad(const Conf &conf) // after a failed open: as before, or not at all
{
  for (auto &s : conf)
    for (auto &f : s.second)
    {
      std::string got = "before";
      bool no = refused([&] { ConfigLoader::Load(s.first, f.first, got); }, "a load after a failed open");
      check(no ? got == "before" : got == f.second, "after-failed-open", s.first, "/", f.first, " loads as ", quote(got));
    }
  ConfigLoader::ListSections();
}
void closed()
{
  std::string got = "before";
  int i = 3;
  std::vector<double> v;
  check(refused([&] { ConfigLoader::Load("a", "b", got); }, "text, nothing open") && got == "before", "nothing-open", "loaded ", got);
  check(refused([&] { ConfigLoader::Load("a", "b", i); }, "number, nothing open") && i == 3, "nothing-open", "loaded ", i);
  check(refused([&] { ConfigLoader::Load("a", "b", v); }, "list, nothing open") && v.empty(), "nothing-open", "loaded ", v.size());
  check(ConfigLoader::ListSections().empty(), "nothing-open", "sections without a file");
}
} // namespace

SCENARIO(wellformed, 6)
{
  Conf conf, seen;
  ConfigLoader::Close();
  std::string t = join(c.r, genLines(c.r, conf));
  if (read(t, seen) != 1)
    fail("harness", "the generator wrote " + quote(t));
  check(opens(t), "refused", "a well-formed text is refused: ", quote(t));
  check(seen == conf, "harness", "the reader disagrees with the generator on ", quote(t));
  loadAll(conf, c.r);
  ConfigLoader::Close();
  closed();
  c.sig(cat(conf.size(), " ", t.size()));
}

SCENARIO(malformed, 2)
{
  Rng &r = c.r;
  Conf before, conf, seen;
  ConfigLoader::Close();
  bool earlier = r.coin();
  if (earlier)
    opens(join(r, genLines(r, before)));
  auto lines = genLines(r, conf);
  std::string bad;
  size_t at = size_t(r.ri(0, long(lines.size())));
  switch (r.ri(0, 5))
  {
  case 0:
    bad = "no equals sign here";
    break;
  case 1:
    bad = r.pick<std::string>({"[abc", "[[abc]", "[", "[[[", "[[[[[deep]]]]]", "[a] b"});
    break;
  case 2:
  case 3:
    if (conf.size())
    { // a section or field again
      auto s = std::next(conf.begin(), r.ri(0, long(conf.size()) - 1));
      bad = "[" + s->first + "]";
      at = lines.size();
    }
    break;
  default:
    bad = "dup=1\ndup = 2";
  }
  if (bad.empty())
    bad = "x";
  lines.insert(lines.begin() + long(at), bad);
  std::string t = join(r, lines);
  int v = read(t, seen);
  bool ok = opens(t);
  if (v == 0)
    check(!ok, "malformed", "accepted ", quote(t));
  if (!ok)
  {
    if (earlier)
      mayLoad(before);
    else
      closed();
    if (r.coin())
      ConfigLoader::Close(), closed();
    Conf again;
    std::string u = join(r, genLines(r, again));
    check(opens(u), "refused", "a well-formed text is refused after a malformed one: ", quote(u));
    loadAll(again, r, true);
  }
  c.sig(cat(bad, at, ok));
}

SCENARIO(anything, 4)
{
  Rng &r = c.r;
  ConfigLoader::Close();
  std::string t;
  int n = int(r.ri(0, 10));
  for (int i = 0; i < n; ++i)
  {
    if (r.coin(0.75))
      t += r.pick<std::string>({"[a]", "[b]", "[[a]]", "[[b]]", "[[[c]]]", "a=1", "b=2", " c = x ", "#", "k=", "a=3"});
    else
    {
      int k = int(r.ri(0, 8));
      for (int j = 0; j < k; ++j)
        t += r.pick<std::string>({"[", "]", "=", "a", "b", " ", "\t", "#", ";", ",", "\r", std::string(1, '\0'), "\xff", "1"});
    }
    t += "\n";
  }
  bool nul = t.find('\0') != std::string::npos;
  Conf conf;
  int v = read(t, conf);
  bool ok = opens(t);
  if (!nul && v == 1)
  {
    check(ok, "refused", "a well-formed text is refused: ", quote(t));
    loadAll(conf, r, r.coin(0.7));
  }
  else if (!nul && v == 0)
  {
    check(!ok, "malformed", "accepted ", quote(t));
    closed();
  }
  if (ok)
    for (auto &s : ConfigLoader::ListSections())
    {
      std::string got;
      refused([&] { ConfigLoader::Load(s, "a", got); }, "any field");
    }
  ConfigLoader::Close();
  c.sig(cat(v, ok, " ", conf.size(), " ", n));
}

SCENARIO(histories, 2)
{
  Rng &r = c.r;
  ConfigLoader::Close();
  bool open = false;
  Conf conf;
  std::string ops;
  for (int i = int(r.ri(2, 8)); i > 0; --i)
  {
    int op = int(r.ri(0, 4));
    ops += char('a' + op);
    if (op <= 1)
    {
      conf.clear();
      std::string t = join(r, genLines(r, conf));
      check(opens(t), "refused", "a well-formed text is refused: ", quote(t));
      open = true;
    }
    else if (op == 2)
      ConfigLoader::Close(), open = false;
    else if (op == 3)
    {
      unlink((dir() + "/c.ini").c_str());
      check(refused([&] { ConfigLoader::Open(dir() + "/c.ini"); }, "a missing file"), "missing-file", "opened a file that isn't there");
      if (open)
        mayLoad(conf);
    }
    if (open && op != 3)
      loadAll(conf, r, true);
    else if (!open)
      closed();
  }
  c.sig(ops);
}
