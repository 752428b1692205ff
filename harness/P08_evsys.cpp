// P08: event systematics change only their output observable, by their formula.
#define OXV_NEEDS_ROOT
#include "gen.h"
#include "oxv.h"
#include <EventConvolution.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventSystematicManager.h>
#include <Gaussian.h>
using namespace oxv;
PLAN("P08", 160000, 4000000,
     "Random events (1-8 observables) through random chains (0-6) of scales, shifts, reconvolutions and convolutions "
     "whose parameters are set by every available route and changed between events; values, untouched observables and "
     "the input event are compared with the formula applied to a plain row. Distinct = chain by observable positions.")

struct Step
{
  int kind;
  size_t in, out;
  double p;
  EventSystematic *s;
};

static void setParam(Case &c, Step &t, const std::string &par)
{
  t.p = t.kind == 0 ? c.r.uni(0.1, 3) : t.kind == 1 ? c.r.uni(-3, 3) : c.r.uni(0, 3);
  if (c.r.coin(0.1)) // hardly anything, or a great deal
    t.p = (t.kind == 1 && c.r.coin() ? -1 : 1) * std::pow(10, c.r.uni(-12, 8));
  switch (c.r.ri(0, 2))
  {
  case 0:
    t.s->SetParameter(par, t.p);
    break;
  case 1:
    t.s->SetParameters({{par, t.p}});
    break;
  case 2:
    if (t.kind == 0)
      static_cast<EventScale *>(t.s)->SetScale(t.p);
    else if (t.kind == 1)
      static_cast<EventShift *>(t.s)->SetShift(t.p);
    else
      static_cast<EventReconvolution *>(t.s)->SetCorrection(t.p);
  }
  near(t.s->GetParameter(par), t.p, "parameter", 0, 0, "");
}

static double formula(const Step &t, const std::vector<double> &v)
{
  return t.kind == 0 ? v[t.out] * t.p : t.kind == 1 ? v[t.out] + t.p : v[t.in] + t.p * (v[t.out] - v[t.in]);
}

SCENARIO(chain, 4)
{
  int no = int(c.r.few(1, 8, 30));
  std::vector<std::string> names = genNames(c.r, no);
  std::vector<Step> st;
  std::vector<std::unique_ptr<EventSystematic>> own;
  std::vector<std::string> pars;
  EventSystematicManager man;
  if (c.r.coin(0.2))
  {
    EventShift junk("junk");
    man.Add(&junk);
    man.Clear();
    check(man.GetNSystematics() == 0, "clear", "");
  }
  for (int k = 0, n = int(c.r.few(0, 6, 24)); k < n && st.size() < size_t(std::max(8, n)); ++k)
  {
    Step t{int(c.r.ri(0, 2)), size_t(c.r.ri(0, no - 1)), size_t(c.r.ri(0, no - 1)), 0, nullptr};
    std::string par = t.kind == 0 ? "scale" : t.kind == 1 ? "shift" : "correction";
    if (t.kind == 0)
      t.s = new EventScale("n"), t.p = 1;
    else if (t.kind == 1)
      t.s = new EventShift("n");
    else
      t.s = new EventReconvolution("n"), t.p = 1;
    own.emplace_back(t.s);
    t.s->SetInObservables({names[t.in]});
    t.s->SetOutObservables({names[t.out]});
    if (t.kind != 2)
      t.in = t.out;
    check(t.s->GetOutObservables() == std::vector<std::string>(1, names[t.out]), "out obs", "");
    if (c.r.coin(0.3))
    {
      t.s->RenameParameter(par, cat("p", k));
      par = cat("p", k);
    }
    if (c.r.coin(0.8))
      setParam(c, t, par);
    pars.push_back(par);
    st.push_back(t);
    man.Add(t.s);
    for (int again = c.r.coin(0.15) ? int(c.r.ri(1, 2)) : 0; again; --again) // applied as often as it was added
    {
      pars.push_back(par);
      st.push_back(t);
      man.Add(t.s);
    }
    LOG << t.kind << " " << t.in << "->" << t.out << " p=" << t.p;
  }
  const std::vector<std::string> first = names;
  const std::vector<Step> firstSt = st;
  for (int e = 0; e < 6; ++e)
  {
    std::vector<double> v;
    if (c.r.coin(0.3))
    { // the same observables in other columns, as in another data set
      names = first;
      for (int q = int(c.r.ri(0, 2)); q; --q)
        names.push_back(cat("spectator", q));
      c.r.shuffle(names);
      no = int(names.size());
      for (size_t k = 0; k < st.size(); ++k)
      {
        st[k].in = pos(names, first[firstSt[k].in]);
        st[k].out = pos(names, first[firstSt[k].out]);
      }
      c.count("changes of columns");
    }
    for (int k = 0; k < no; ++k)
      v.push_back(c.r.coin(0.9) ? c.r.value(-10, 10) : std::pow(10, c.r.uni(-20, 10)));
    Event in = makeEvent(v, &names);
    std::vector<double> w = v;
    for (size_t k = 0; k < st.size(); ++k)
    {
      // each one alone
      Event one = makeEvent(w, &names);
      Event out = (*st[k].s)(one);
      check(one.GetData() == w, "input event", "modified by step ", k);
      double f = formula(st[k], w);
      for (int q = 0; q < no; ++q)
      {
        if (size_t(q) == st[k].out)
          near(out.GetDatum(q), f, "formula", 1e-12,
               st[k].kind == 0 ? 0 : st[k].kind == 1 ? std::fabs(st[k].p) : (std::fabs(w[st[k].in]) + std::fabs(w[st[k].out])) * (1 + st[k].p), "kind ", st[k].kind, " p ", st[k].p, " on ", str(w));
        else
          check(out.GetDatum(q) == w[q], "other observable", q, " changed by step ", k);
      }
      check(out.GetObservableNames() == names, "names", "");
      w[st[k].out] = out.GetDatum(st[k].out);
      c.count("applications");
    }
    Event all = man.ApplySystematics(in);
    check(in.GetData() == v, "input event", "modified by the manager");
    nearv(all.GetData(), w, "chain", 1e-11, 100, "of ", st.size());
    check(all.GetObservableNames() == names, "names", "");
    if (!st.empty() && c.r.coin())
    {
      size_t k = c.r.ri(0, st.size() - 1);
      setParam(c, st[k], pars[k]); // seen by the manager at once
      for (auto &t : st)
        if (t.s == st[k].s)
          t.p = st[k].p;
    }
  }
  std::string s;
  for (auto &t : st)
    s += cat(t.kind, t.in, t.out, ";");
  c.sig(cat(no, ":", s));
}

// a smeared event: only the output observable moves, and by the kernel's own draw
SCENARIO(convolution, 1)
{
  int no = int(c.r.ri(1, 5));
  std::vector<std::string> names = genNames(c.r, no);
  size_t k = c.r.ri(0, no - 1);
  double mean = c.r.uni(-1, 1), sd = c.r.uni(0.01, 0.1);
  Gaussian g(mean, sd, "g");
  EventConvolution ev("smear");
  Event e0 = makeEvent(std::vector<double>(no, 1.0), &names);
  REFUSED("no kernel", ev(e0));
  REFUSED("no kernel", ev.GetParameters());
  ev.SetPDF(&g);
  ev.SetOutObservables({names[k]});
  ev.SetInObservables({names[k]});
  EventConvolution cp(ev);
  const std::string what = names[k];
  const bool same = c.r.coin(0.3); // the value to smear stays the same
  const double at = c.r.uni(-5, 5);
  const int draws = c.r.coin(0.03) ? 1500 : 10;
  std::vector<double> seen;
  std::vector<int> quarters(4, 0);
  for (int i = 0; i < draws; ++i)
  {
    std::vector<double> v;
    for (int q = 0; q < no; ++q)
      v.push_back(same ? at : c.r.uni(-5, 5));
    c.r.shuffle(names); // the column need not stay the same
    k = pos(names, what);
    Event in = makeEvent(v, &names);
    EventConvolution &use = i % 2 ? cp : ev;
    Event out = use(in);
    check(in.GetData() == v, "input event", "modified");
    for (int q = 0; q < no; ++q)
      if (size_t(q) != k)
        check(out.GetDatum(q) == v[q], "other observable", q);
    check(std::fabs(out.GetDatum(k) - v[k] - mean) < 40 * sd, "smeared value", out.GetDatum(k), " from ", v[k], " mean ", mean, " sd ", sd);
    check(out.GetDatum(k) != v[k], "smeared", "value not changed");
    const double z = (out.GetDatum(k) - v[k] - mean) / sd;
    quarters[z < -1 ? 0 : z < 0 ? 1 : z < 1 ? 2 : 3]++;
    if (same)
      seen.push_back(out.GetDatum(k));
    c.count("smears");
  }
  // every event is smeared by a draw of its own
  std::sort(seen.begin(), seen.end());
  check(std::adjacent_find(seen.begin(), seen.end()) == seen.end() || seen.size() > 100, "own draw", "two events smeared by the same amount");
  const double low = 0.5 * std::erfc(1 / std::sqrt(2.0));
  for (int q = 0; q < 4; ++q)
  {
    const double p = q % 3 ? 0.5 - low : low;
    check(std::fabs(quarters[size_t(q)] - draws * p) < 9 * std::sqrt(draws * p * (1 - p)) + 3, "own draw", quarters[size_t(q)], " of ", draws, " in quarter ", q);
  }
  c.sig(cat("c", no, k));
}

SCENARIO(refusals, 1)
{
  std::vector<std::string> names = {"a", "b"};
  Event e = makeEvent({1, 2}, &names);
  EventScale s("s");
  s.SetOutObservables({"nosuch"});
  REFUSED("observable", s(e));
  EventShift h("h");
  h.SetOutObservables({"nosuch"});
  REFUSED("observable", h(e));
  EventReconvolution r("r");
  r.SetInObservables({"nosuch"});
  r.SetOutObservables({"a"});
  REFUSED("observable", r(e));
  double p = s.GetScale();
  REFUSED("scale 0", s.SetScale(0));
  REFUSED("scale negative", s.SetScale(-c.r.uni()));
  check(s.GetScale() == p, "kept", "");
  double q = r.GetCorrection();
  REFUSED("correction negative", r.SetCorrection(-0.1));
  check(r.GetCorrection() == q, "kept", "");
  check(h.GetShift() == 0 && s.GetScale() == 1 && r.GetCorrection() == 1, "neutral defaults", "");
  c.sig(1);
}
