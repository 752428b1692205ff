// P20: every fit component honours the same parameter contract.
// OXV_NEEDS_ROOT: Gaussian and what is built on it are only compiled in there
#include "components.h"
using namespace oxv;
PLAN("P20", 90000, 2250000,
     "Histories of setting one parameter, dictionaries (full, with surplus names, lacking names), reads, renames (fresh, "
     "to itself, onto another parameter, of unknown names) on every kind of fit component and on nested ones; after "
     "every step names, count, dictionary, single reads, direct accessors and the component's behaviour are compared "
     "with a plain model. Distinct = (component kind, history of operations).")

SCENARIO(contract, 1)
{
  Spec s = generate(c);
  size_t n = s.names.size();
  std::shared_ptr<FitComponent> f = s.make(), idle = s.make();
  std::vector<std::string> orig = s.names, names = s.names;
  V vals;
  std::string hist = s.kind;
  LOG << s.kind << " parameters " << str(names);
  bool wild = c.r.coin(0.15), renamed = false;
  int fresh = 0;

  auto dictOf = [&]() {
    ParameterDict d;
    for (size_t i = 0; i < n; ++i)
      d[names[i]] = vals[i];
    return d;
  };
  auto verify = [&](const std::string &what) {
    ParameterDict want = dictOf(), got = f->GetParameters();
    check(f->GetParameterNames() == std::set<std::string>(names.begin(), names.end()), "names", s.kind, " after ", what, ": names ",
          str(f->GetParameterNames()), " want ", str(names));
    check(f->GetParameterCount() == want.size(), "count", s.kind, " after ", what, ": count ", f->GetParameterCount(), " want ", want.size());
    check(got.size() == want.size(), "dict", s.kind, " after ", what, ": dictionary has ", got.size(), " entries, want ", want.size());
    for (auto &w : want)
    {
      check(got.count(w.first) && got.at(w.first) == w.second, "dict", s.kind, " after ", what, ": dictionary has ", w.first, " = ",
            got.count(w.first) ? got.at(w.first) : NAN, " want ", w.second);
      double g = f->GetParameter(w.first);
      check(g == w.second, "get", s.kind, " after ", what, ": GetParameter(", w.first, ") is ", g, " want ", w.second);
    }
    if (s.direct)
      for (size_t i = 0; i < n; ++i)
      {
        double g = s.direct(*f, i);
        check(g == vals[i], "direct", s.kind, " after ", what, ": accessor of parameter ", orig[i], " gives ", g, " want ", vals[i]);
      }
  };
  auto probe = [&](const std::string &what) {
    if (!s.probe || wild || (renamed && !s.probeRenamed))
      return;
    std::shared_ptr<FitComponent> g = s.make();
    // a fresh component, its slots given one by one under unique names where names are shared
    ParameterDict d;
    bool ambiguous = false;
    for (size_t i = 0; i < n; ++i)
    {
      if (d.count(orig[i]) && d[orig[i]] != vals[i])
        ambiguous = true;
      d[orig[i]] = vals[i];
    }
    if (ambiguous)
      return;
    if (d.size())
      g->SetParameters(d);
    nearv(s.probe(*f), s.probe(*g), "behaviour", 1e-12, 0, s.kind, " after ", what, " behaves differently from a fresh one with the same values");
    c.count("behaviour probes");
  };

  // the start
  {
    ParameterDict d = f->GetParameters();
    for (size_t i = 0; i < n; ++i)
    {
      check(d.count(names[i]), "names", s.kind, " has no parameter ", names[i], " at the start");
      vals.push_back(s.start.size() ? s.start[i] : d[names[i]]);
    }
    verify("construction");
  }
  if (n && c.r.coin(0.9))
  {
    ParameterDict d;
    for (auto &x : names)
      d[x] = genValue(c, wild);
    f->SetParameters(d);
    for (size_t i = 0; i < n; ++i)
      vals[i] = d[names[i]];
    verify("first SetParameters");
  }
  if (n)
  {
    // functions with a shared name agree from here on
    for (auto &x : std::set<std::string>(names.begin(), names.end()))
    {
      double v = genValue(c, wild);
      f->SetParameter(x, v);
      for (size_t i = 0; i < n; ++i)
        if (names[i] == x)
          vals[i] = v;
    }
    verify("setting each");
  }

  int steps = int(c.r.ri(3, c.thorough ? 25 : 12));
  for (int st = 0; st < steps; ++st)
  {
    int op = int(c.r.ri(0, 9));
    std::string unknown = c.r.pick<std::string>({"", "nobody", " ", "means_99", "scalefactor", "A"});
    if (n && c.r.coin(0.3))
      unknown = names[size_t(c.r.ri(0, long(n) - 1))] + c.r.pick<std::string>({" ", "_", "0"});
    while (std::count(names.begin(), names.end(), unknown))
      unknown += "?";
    std::string what;
    if (!n && op != 3 && op != 4 && op != 6)
      op = 3;
    std::string target = n ? names[size_t(c.r.ri(0, long(n) - 1))] : "";
    if (op <= 1)
    {
      double v = genValue(c, wild);
      what = cat("SetParameter(", target, ", ", v, ")");
      LOG << what;
      f->SetParameter(target, v);
      for (size_t i = 0; i < n; ++i)
        if (names[i] == target)
          vals[i] = v;
      hist += 's';
    }
    else if (op == 2)
    {
      ParameterDict d;
      for (auto &x : names)
        d[x] = genValue(c, wild);
      if (c.r.coin())
        for (int i = 0; i < 3; ++i)
        {
          std::string x = cat("zz", i);
          if (!std::count(names.begin(), names.end(), x))
            d[c.r.coin() ? x : "Zsurplus"] = c.r.uni();
        }
      what = cat("SetParameters of ", d.size());
      LOG << what;
      f->SetParameters(d);
      for (size_t i = 0; i < n; ++i)
        vals[i] = d[names[i]];
      hist += 'S';
    }
    else if (op == 3)
    {
      what = cat("refused SetParameter(", unknown, ")");
      LOG << what;
      REFUSED("refuse-set", f->SetParameter(unknown, genValue(c, wild)));
      hist += 'x';
    }
    else if (op == 4)
    {
      what = cat("refused GetParameter(", unknown, ")");
      LOG << what;
      REFUSED("refuse-get", f->GetParameter(unknown));
      hist += 'g';
    }
    else if (op == 5)
    {
      // a dictionary that lacks some
      std::set<std::string> all(names.begin(), names.end()), lack;
      for (auto &x : all)
        if (c.r.coin(0.4))
          lack.insert(x);
      lack.insert(target);
      ParameterDict d;
      for (auto &x : all)
        if (!lack.count(x))
          d[x] = genValue(c, wild);
      if (c.r.coin())
        d["Zsurplus"] = 1, d[unknown] = 2;
      bool strict = false;
      for (size_t i = 0; i < n; ++i)
        strict = strict || (s.strict[i] && lack.count(names[i]));
      what = cat(strict ? "refused " : "", "SetParameters without ", str(lack));
      LOG << what;
      if (strict)
        REFUSED("refuse-missing", f->SetParameters(d));
      else
      {
        f->SetParameters(d);
        for (size_t i = 0; i < n; ++i)
          if (d.count(names[i]))
            vals[i] = d[names[i]];
      }
      hist += strict ? 'm' : 'p';
    }
    else if (op == 6)
    {
      what = cat("refused RenameParameter(", unknown, ")");
      LOG << what;
      std::string to = n && c.r.coin(0.3) ? target : cat("w", fresh++);
      REFUSED("refuse-rename", f->RenameParameter(unknown, to));
      hist += 'u';
    }
    else if (op == 7)
    {
      // fresh names sort before, between and after the others; an abandoned one may be used again
      std::string to = c.r.coin(0.25) ? orig[size_t(c.r.ri(0, long(n) - 1))] : cat(c.r.pick<std::string>({"A", "m", "z", "sc", "1"}), fresh++);
      if (std::count(names.begin(), names.end(), to))
        continue;
      what = cat("RenameParameter(", target, ", ", to, ")");
      LOG << what;
      f->RenameParameter(target, to);
      for (auto &x : names)
        if (x == target)
          x = to;
      renamed = true;
      hist += 'r';
    }
    else if (op == 8)
    {
      if (s.onto == Spec::kRefuse && s.kind.compare(0, 12, "ParameterMan") == 0)
        continue; // renaming to itself is refused there too
      what = cat("RenameParameter(", target, ") to itself");
      LOG << what;
      try
      {
        f->RenameParameter(target, target);
      }
      catch (const ParameterError &) // also fine: nothing to do
      {
      }
      hist += 'i';
    }
    else
    {
      std::set<std::string> others(names.begin(), names.end());
      others.erase(target);
      if (others.empty() || s.onto == Spec::kNever)
        continue;
      std::vector<std::string> o(others.begin(), others.end());
      std::string to = c.r.pick(o);
      what = cat("RenameParameter(", target, ", ", to, ") onto another");
      LOG << what;
      if (s.onto == Spec::kRefuse)
        REFUSED("refuse-onto", f->RenameParameter(target, to));
      else
      {
        // they are one parameter from now on
        f->RenameParameter(target, to);
        double v = genValue(c, wild);
        f->SetParameter(to, v);
        for (size_t i = 0; i < n; ++i)
        {
          if (names[i] == target)
            names[i] = to;
          if (names[i] == to)
            vals[i] = v;
        }
        renamed = true;
      }
      hist += s.onto == Spec::kRefuse ? 'o' : 'M';
    }
    verify(what);
    if (c.r.coin(0.3))
      probe(what);
    if (c.r.coin(0.1))
    {
      std::string nm = cat("name", st);
      f->SetName(nm);
      check(f->GetName() == nm, "name", s.kind, ": GetName gives ", f->GetName(), " after SetName(", nm, ")");
      verify("SetName");
    }
  }
  probe("the history");
  // an untouched one of the same kind is still as it was
  if (s.start.size())
    for (size_t i = 0; i < n; ++i)
      check(idle->GetParameter(orig[i]) == s.start[i], "independent", s.kind, ": another object's ", orig[i], " changed");
  c.count("kind " + s.kind.substr(0, s.kind.find_first_of("(0123456789")));
  c.sig(hist);
}
