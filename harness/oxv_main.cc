#include "oxv.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace oxv
{
Stats &stats()
{
  static Stats s;
  return s;
}
Case *&current()
{
  static Case *c = nullptr;
  return c;
}
std::vector<Scenario> &scenarios()
{
  static std::vector<Scenario> s;
  return s;
}
Plan &plan()
{
  static Plan p;
  return p;
}
size_t allocatedBytes() { return __sanitizer_get_current_allocated_bytes(); }

static int gJournal = -1;
static char gNow[256];

static std::string esc(const std::string &s)
{
  std::string o;
  for (unsigned char ch : s)
  {
    if (ch == '"' || ch == '\\')
      (o += '\\') += char(ch);
    else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    }
    else
      o += char(ch);
  }
  return o;
}
static void journal(const std::string &s)
{
  std::string t = s + "\n";
  if (write(gJournal, t.data(), t.size()) < 0)
    _exit(96);
}
static void onTimer(int)
{
  if (write(gJournal, "{\"hang\":1}\n", 11) < 0)
    _exit(96);
  _exit(97);
}
static void arm(int seconds)
{
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}
static uint64_t hashName(const std::string &s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s)
    h = (h ^ ch) * 1099511628211ull;
  return h;
}
static std::string demangle(const char *n)
{
  int st = 0;
  char *p = abi::__cxa_demangle(n, nullptr, nullptr, &st);
  std::string s = p ? p : n;
  free(p);
  return s;
}
} // namespace oxv

using namespace oxv;

int main(int argc, char **argv)
{
  uint64_t seed = 1, shard = 0, shards = 1, from = 0, only = ~0ull, cases = 0;
  double budget = 1e9;
  int hang = 60;
  std::string jpath = "/dev/stderr";
  bool thorough = false, describe = false;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed")
      seed = std::stoull(val());
    else if (a == "--shard")
      shard = std::stoull(val());
    else if (a == "--shards")
      shards = std::stoull(val());
    else if (a == "--from")
      from = std::stoull(val());
    else if (a == "--case")
      only = std::stoull(val());
    else if (a == "--cases")
      cases = std::stoull(val());
    else if (a == "--budget")
      budget = std::stod(val());
    else if (a == "--journal")
      jpath = val();
    else if (a == "--hang")
      hang = std::stoi(val());
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--describe")
      describe = true;
  }
  std::vector<Scenario> directed, random;
  int W = 0;
  for (auto &s : scenarios())
    (s.weight ? random : directed).push_back(s), W += s.weight;
  if (describe)
  {
    std::cout << "{\"rule\":\"" << esc(plan().rule) << "\",\"quick\":" << plan().quick
              << ",\"thorough\":" << plan().thorough << "}" << std::endl;
    return 0;
  }
  gJournal = open(jpath.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (gJournal < 0)
    return 95;
  signal(SIGPROF, onTimer);
  uint64_t N = cases ? cases : (thorough ? plan().thorough : plan().quick);
  N += directed.size();
  if (!W)
    N = directed.size();
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  bool cut = false;
  int bad = 0;
  for (uint64_t i = 0; i < N; ++i)
  {
    if (only != ~0ull ? i != only : (i % shards != shard || i < from))
      continue;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > budget)
    {
      cut = true;
      break;
    }
    const Scenario *s = nullptr;
    uint64_t cs = mix(mix(seed) ^ hashName(plan().property)) + i * 0x9E3779B97F4A7C15ull;
    if (i < directed.size())
      s = &directed[i];
    else
    {
      int k = int(mix(cs ^ 77) % W);
      for (auto &x : random)
      {
        if (k < x.weight)
        {
          s = &x;
          break;
        }
        k -= x.weight;
      }
    }
    Case c;
    c.r = Rng(cs);
    c.scenario = s->name;
    c.index = i;
    c.thorough = thorough;
    current() = &c;
    journal(cat("{\"begin\":", i, ",\"scenario\":\"", s->name, "\"}"));
    arm(hang);
    std::string key, msg;
    try
    {
      s->fn(c);
    }
    catch (const Violation &v)
    {
      key = v.key;
      msg = v.msg;
    }
    catch (const std::exception &e)
    {
      key = "exception";
      msg = "unexpected " + demangle(typeid(e).name()) + ": " + e.what();
    }
    catch (...)
    {
      key = "exception";
      msg = "unexpected non-standard exception";
    }
    arm(0);
    ++stats().cases;
    stats().counts["scenario:" + s->name] += 1;
    std::string tr;
    for (auto &l : c.trace)
      tr += (tr.empty() ? "" : "; ") + l;
    if (key.empty() && !tr.empty() && i >= directed.size() && stats().samples.size() < 2 && tr.size() < 1500)
      stats().samples.push_back(s->name + ": " + tr);
    if (!key.empty())
    {
      if (tr.size() > 20000)
        tr = tr.substr(0, 20000);
      journal(cat("{\"violation\":", i, ",\"scenario\":\"", s->name, "\",\"key\":\"", esc(key), "\",\"msg\":\"",
                  esc(msg), "\",\"trace\":\"", esc(tr), "\"}"));
      if (++bad >= 10)
      {
        cut = true;
        break;
      }
    }
    current() = nullptr;
  }
  std::string o = cat("{\"summary\":1,\"cut\":", cut ? 1 : 0, ",\"cases\":", stats().cases, ",\"checks\":", stats().checks,
                      ",\"counts\":{");
  bool first = true;
  for (auto &k : stats().counts)
  {
    o += cat(first ? "" : ",", "\"", esc(k.first), "\":", k.second);
    first = false;
  }
  o += "},\"samples\":[";
  for (size_t k = 0; k < stats().samples.size(); ++k)
    o += cat(k ? "," : "", "\"", esc(stats().samples[k]), "\"");
  o += "],\"sigs\":[";
  first = true;
  size_t lim = 0;
  for (auto h : stats().sigs)
  {
    if (++lim > 200000)
      break;
    o += cat(first ? "" : ",", h);
    first = false;
  }
  o += "]}";
  journal(o);
  _exit(0); // static destructors of the code under test are exercised by the cases themselves
}
