// Independent reference for the indicator properties I01..I08: the full history of period ticks and values is kept
// and every reported number is recomputed from it (in double) after every update.
#include "common.h"

#include "indicators/exponential_moving_average.h"
#include "indicators/last_n_ohlc_ticks.h"
#include "indicators/moving_average_convergence_divergence.h"
#include "indicators/relative_strength_index.h"
#include "indicators/simple_moving_average.h"
#include "indicators/stochastic_oscillator.h"
#include "indicators/util.h"
#include "indicators/volatility.h"

using namespace trader;
using replay::Fail;
using replay::Gen;
using replay::Note;
using replay::Str;

namespace {

struct Ref {
  int64_t ts;
  float o, h, l, c, v;
};

bool Same(const OhlcTick& t, const Ref& r) {
  return t.timestamp_sec() == r.ts && t.open() == r.o && t.high() == r.h && t.low() == r.l && t.close() == r.c &&
         t.volume() == r.v;
}
std::string Show(const OhlcTick& t) {
  return Str("(", t.timestamp_sec(), ": ", t.open(), " ", t.high(), " ", t.low(), " ", t.close(), " ", t.volume(), ")");
}
std::string Show(const Ref& t) { return Str("(", t.ts, ": ", t.o, " ", t.h, " ", t.l, " ", t.c, " ", t.v, ")"); }

// a value on a grid, so that sums and differences are exact in float
struct Source {
  Gen& g;
  float unit;
  int span;
  int style;
  int mid = 0;
  explicit Source(Gen& gg) : g(gg) {
    unit = g.Pick<float>({1.0f, 0.25f, 1.0f / (1 << 20), 16.0f, 0.013f});
    span = g.Pick<int>({1, 2, 3, 8, 40});
    style = g.Int(0, 4);
    mid = g.Int(1, 60);
  }
  int Step() {
    switch (style) {
      case 0: return mid;                                        // constant
      case 1: return mid = std::max(1, mid + g.Int(-1, 1));      // slow walk
      case 2: return mid = mid + g.Int(0, 2);                    // rising
      case 3: return mid = std::max(1, mid - g.Int(0, 2));       // falling
      default: return mid = g.Int(1, 1 + span);                  // jumping
    }
  }
  float Value() {
    double h;
    if (g.hinted() && g.P(0.3) && g.Hint("value", &h) && std::fabs(h) < 1e4) return (float)h;
    if (g.P(0.05)) style = g.Int(0, 4);
    return unit * Step();
  }
};

struct Ticks {
  Gen& g;
  Source src;
  int64_t period, now;
  bool gaps;
  explicit Ticks(Gen& gg) : g(gg), src(gg) {
    period = g.Pick<int64_t>({1, 2, 60, 300, 86400, 7});
    now = g.Pick<int64_t>({0, 1, 1483228800, 59, 1000003});
    gaps = g.P(0.5);
  }
  OhlcTick Next() {
    int r = g.Int(0, 9);
    if (r < 4) now += g.I64(0, period / 2);
    else if (r < 8) now += period;
    else if (gaps) now += period * g.Int(1, 6) + g.I64(0, period - 1);
    OhlcTick t;
    t.set_timestamp_sec(now);
    float a = src.Value(), b = src.Value();
    a = a > 0 ? a : src.unit, b = b > 0 ? b : src.unit;
    t.set_open(a);
    t.set_close(b);
    t.set_high(std::max(a, b) + src.unit * (g.P(0.4) ? g.Int(0, 3) : 0));
    float lo = std::min(a, b) - src.unit * (g.P(0.4) ? g.Int(0, 3) : 0);
    t.set_low(lo > 0 ? lo : std::min(a, b));
    t.set_volume(g.Int(0, 20));
    Note(Str("update ", Show(t), "\n"));
    return t;
  }
};

struct Event {
  int kind;  // 0 updated, 1 added, 2 added and oldest removed
  Ref old, now;
  std::vector<Ref> window;
};

// resampling of the updates into consecutive period ticks
struct Resampled {
  int64_t period;
  std::vector<Ref> all;
  // appends the events of one update (for a window of n)
  void Update(const OhlcTick& t, int n, std::vector<Event>* ev) {
    int64_t idx = t.timestamp_sec() / period;
    auto win = [&] { return std::vector<Ref>(all.size() > (size_t)n ? all.end() - n : all.begin(), all.end()); };
    auto add = [&](Ref r) {
      bool full = all.size() >= (size_t)n;
      Ref old = full ? all[all.size() - n] : r;
      all.push_back(r);
      if (ev) ev->push_back({full ? 2 : 1, old, r, win()});
    };
    if (!all.empty()) {
      while (all.back().ts / period + 1 < idx) {
        float c = all.back().c;
        add({all.back().ts + period, c, c, c, c, 0});
      }
      if (all.back().ts / period == idx) {
        Ref old = all.back();
        Ref& r = all.back();
        r.h = std::max(r.h, t.high());
        r.l = std::min(r.l, t.low());
        r.c = t.close();
        r.v = r.v + t.volume();
        if (ev) ev->push_back({0, old, r, win()});
        return;
      }
    }
    add({idx * period, t.open(), t.high(), t.low(), t.close(), t.volume()});
  }
};

void Near(const char* what, double got, double want, double tol) {
  if (!(std::fabs(got - want) <= tol)) throw Fail{Str(what, " is ", got, ", expected ", want, " (tolerance ", tol, ")")};
}
void Equal(const char* what, double got, double want) { Near(what, got, want, 0); }

void I01(Gen& g) {
  int n = g.Pick<int>({1, 1, 2, 2, 3, 5, 20});
  Ticks src(g);
  Note(Str("window ", n, " period ", src.period, "\n"));
  LastNOhlcTicks w(n, src.period);
  std::vector<Event> want, got;
  int cb = g.P(0.8) ? 7 : g.Int(0, 7);
  auto snap = [&](int kind, const OhlcTick* old, const OhlcTick& now) {
    auto ref = [](const OhlcTick& t) { return Ref{t.timestamp_sec(), t.open(), t.high(), t.low(), t.close(), t.volume()}; };
    Event e{kind, ref(old ? *old : now), ref(now), {}};
    for (auto& t : w.GetLastNOhlcTicks()) e.window.push_back(ref(t));
    got.push_back(e);
  };
  if (cb & 1) w.RegisterLastTickUpdatedCallback([&](const OhlcTick& a, const OhlcTick& b) { snap(0, &a, b); });
  if (cb & 2) w.RegisterNewTickAddedCallback([&](const OhlcTick& b) { snap(1, nullptr, b); });
  if (cb & 4)
    w.RegisterNewTickAddedAndOldestTickRemovedCallback([&](const OhlcTick& a, const OhlcTick& b) { snap(2, &a, b); });
  Resampled r{src.period};
  if (!w.GetLastNOhlcTicks().empty()) throw Fail{"the window is not empty at the start"};
  auto eq = [](const Ref& a, const Ref& b) {
    return a.ts == b.ts && a.o == b.o && a.h == b.h && a.l == b.l && a.c == b.c && a.v == b.v;
  };
  for (int i = g.Int(1, 40); i > 0; --i) {
    OhlcTick t = src.Next();
    want.clear(), got.clear();
    r.Update(t, n, &want);
    w.Update(t);
    auto& d = w.GetLastNOhlcTicks();
    size_t m = std::min<size_t>(n, r.all.size());
    if (d.size() != m) throw Fail{Str("the window has ", d.size(), " ticks, expected ", m)};
    for (size_t k = 0; k < m; ++k)
      if (!Same(d[k], r.all[r.all.size() - m + k]))
        throw Fail{Str("tick ", k, " of the window is ", Show(d[k]), ", expected ", Show(r.all[r.all.size() - m + k]))};
    std::vector<Event> f;
    for (auto& e : want)
      if (cb >> e.kind & 1) f.push_back(e);
    if (f.size() != got.size()) throw Fail{Str(got.size(), " notifications, expected ", f.size())};
    for (size_t k = 0; k < f.size(); ++k) {
      if (f[k].kind != got[k].kind) throw Fail{"the wrong observer was notified"};
      if (!eq(f[k].now, got[k].now) || (f[k].kind != 1 && !eq(f[k].old, got[k].old)))
        throw Fail{Str("observer got ", Show(got[k].old), " -> ", Show(got[k].now), ", expected ", Show(f[k].old), " -> ",
                       Show(f[k].now))};
      bool same = f[k].window.size() == got[k].window.size();
      for (size_t j = 0; same && j < f[k].window.size(); ++j) same = eq(f[k].window[j], got[k].window[j]);
      if (!same) throw Fail{"an observer saw a window that was not updated"};
    }
  }
}

void I02(Gen& g) {
  int n = g.Pick<int>({1, 2, 3, 5, 20});
  Ticks src(g);
  Note(Str("SimpleMovingAverage(", n, ", ", src.period, ")\n"));
  SimpleMovingAverage s(n, src.period);
  Resampled r{src.period};
  Equal("average without ticks", s.GetSimpleMovingAverage(), 0);
  Equal("number of ticks", s.GetNumOhlcTicks(), 0);
  double mx = 0;
  for (int i = g.Int(1, 60); i > 0; --i) {
    OhlcTick t = src.Next();
    r.Update(t, n, nullptr);
    s.Update(t);
    size_t m = std::min<size_t>(n, r.all.size());
    double sum = 0;
    for (size_t k = 0; k < m; ++k) sum += r.all[r.all.size() - 1 - k].c;
    mx = std::max(mx, (double)t.close());
    Near("average", s.GetSimpleMovingAverage(), sum / m, 2e-5 * mx * (1 + r.all.size() / 50.0));
    Equal("number of ticks", s.GetNumOhlcTicks(), m);
  }
}

// A very long history: the counts and the age of the values must stay exact beyond the integers a float can hold.
void I03Long(Gen& g) {
  const int w = g.Int(2, 9), start = (1 << 24) - 50, n = (1 << 24) + 400;
  Note(Str("window ", w, ", ", n, " values x -> (x * 2654435761 mod 2^32) / 2^22\n"));
  SlidingWindowMinimum mn(w);
  std::vector<float> last(w);
  const uint32_t mul = 2654435761u + 2 * g.Int(0, 1000);
  for (int i = 0; i < n; ++i) {
    float v = ((uint32_t)i * mul) >> 22;
    mn.AddNewValue(v);
    last[i % w] = v;
    if (i >= start) Equal("minimum", mn.GetSlidingWindowMinimum(), *std::min_element(last.begin(), last.end()));
  }
  Equal("number of values", mn.GetNumValues(), n);
}

void I03(Gen& g) {
  if (g.P(2e-5)) return I03Long(g);
  int w = g.Pick<int>({1, 2, 3, 4, 7, 20});
  Source src(g);
  Note(Str("window ", w, "\n"));
  SlidingWindowMinimum mn(w);
  SlidingWindowMaximum mx(w);
  std::vector<float> h;
  for (int i = g.Int(1, 80); i > 0; --i) {
    float v = src.Value() * (g.P(0.3) ? -1 : 1);
    if (!h.empty() && g.P(0.35)) {
      Note(Str("revise ", v, "\n"));
      h.back() = v;
      mn.UpdateCurrentValue(v);
      mx.UpdateCurrentValue(v);
    } else {
      Note(Str("add ", v, "\n"));
      h.push_back(v);
      mn.AddNewValue(v);
      mx.AddNewValue(v);
    }
    size_t m = std::min<size_t>(w, h.size());
    Equal("minimum", mn.GetSlidingWindowMinimum(), *std::min_element(h.end() - m, h.end()));
    Equal("maximum", mx.GetSlidingWindowMaximum(), *std::max_element(h.end() - m, h.end()));
    Equal("number of values (minimum)", mn.GetNumValues(), h.size());
    Equal("number of values (maximum)", mx.GetNumValues(), h.size());
    Equal("window size (minimum)", mn.GetWindowSize(), m);
    Equal("window size (maximum)", mx.GetWindowSize(), m);
  }
}

struct Moments {
  double mean = 0, var = 0, mx = 0;
  int n = 0;
};
Moments Of(const std::vector<double>& h, int w) {
  Moments r;
  size_t m = w == 0 ? h.size() : std::min<size_t>(w, h.size());
  if (!m) return r;
  for (auto x : h) r.mx = std::max(r.mx, std::fabs(x));
  for (size_t k = h.size() - m; k < h.size(); ++k) r.mean += h[k] / m;
  for (size_t k = h.size() - m; k < h.size(); ++k) r.var += (h[k] - r.mean) * (h[k] - r.mean) / m;
  r.n = m;
  return r;
}

void I04(Gen& g) {
  int w = g.Pick<int>({0, 1, 2, 3, 4, 7, 20});
  Source src(g);
  bool grid = src.unit != 0.013f;
  Note(Str("window ", w, "\n"));
  SlidingWindowMeanAndVariance s(w);
  std::vector<double> h;
  auto check = [&] {
    Moments m = Of(h, w);
    double e = grid ? 4e-6 : 3e-5 * (1 + h.size() / 20.0);
    Near("mean", s.GetMean(), m.mean, e * m.mx);
    float var = s.GetVariance(), sd = s.GetStandardDeviation();
    if (!(var >= 0)) throw Fail{Str("the variance is ", var)};
    if (!(sd >= 0)) throw Fail{Str("the standard deviation is ", sd)};
    Near("variance", var, m.var, e * m.mx * m.mx);
    Near("square of the standard deviation", (double)sd * sd, m.var, 2 * e * m.mx * m.mx);
    Equal("number of values", s.GetNumValues(), h.size());
    Equal("window size", s.GetWindowSize(), m.n);
  };
  check();
  for (int i = g.Int(1, 60); i > 0; --i) {
    float v = src.Value() * (g.P(0.3) ? -1 : 1);
    if (!h.empty() && g.P(0.35)) {
      Note(Str("revise ", v, "\n"));
      h.back() = v;
      s.UpdateCurrentValue(v);
    } else {
      Note(Str("add ", v, "\n"));
      h.push_back(v);
      s.AddNewValue(v);
    }
    check();
  }
}

double Ema(const std::vector<double>& x, double w) {
  double y = 0;
  for (size_t k = 0; k < x.size(); ++k) y = k == 0 ? x[0] : w * x[k] + (1 - w) * y;
  return y;
}

void I05(Gen& g) {
  Ticks src(g);
  float smoothing = g.Pick<float>({2, 1, 0.5, 2.5});
  int len = g.Pick<int>({1, 2, 3, 10, 50}), f = g.Pick<int>({1, 2, 3, 12}), s = g.Pick<int>({1, 4, 7, 26}),
      sg = g.Pick<int>({1, 2, 9});
  if (smoothing > len + 1) smoothing = 1;
  Note(Str("ExponentialMovingAverage(", smoothing, ", ", len, ", ", src.period, ") MACD(", f, ", ", s, ", ", sg, ")\n"));
  ExponentialMovingAverage e(smoothing, len, src.period);
  MovingAverageConvergenceDivergence m(f, s, sg, src.period);
  Resampled r{src.period};
  double mx = 0;
  for (int i = g.Int(1, 50); i > 0; --i) {
    OhlcTick t = src.Next();
    r.Update(t, 1, nullptr);
    e.Update(t);
    m.Update(t);
    std::vector<double> c, series;
    for (auto& x : r.all) {
      c.push_back(x.c);
      mx = std::max(mx, (double)x.c);
      series.push_back(Ema(c, 2.0 / (1 + f)) - Ema(c, 2.0 / (1 + s)));
    }
    double tol = 1e-5 * mx * (1 + r.all.size() / 50.0);
    Near("exponential moving average", e.GetExponentialMovingAverage(), Ema(c, smoothing / (1.0 + len)), tol);
    Equal("number of ticks", e.GetNumOhlcTicks(), r.all.size());
    Near("fast average", m.GetFastExponentialMovingAverage(), Ema(c, 2.0 / (1 + f)), tol);
    Near("slow average", m.GetSlowExponentialMovingAverage(), Ema(c, 2.0 / (1 + s)), tol);
    Near("MACD series", m.GetMACDSeries(), series.back(), 2 * tol);
    Near("MACD signal", m.GetMACDSignal(), Ema(series, 2.0 / (1 + sg)), 2 * tol);
    Near("divergence", m.GetDivergence(), series.back() - Ema(series, 2.0 / (1 + sg)), 4 * tol);
    Equal("number of ticks (MACD)", m.GetNumOhlcTicks(), r.all.size());
  }
}

void I06(Gen& g) {
  Ticks src(g);
  int n = g.Pick<int>({1, 2, 3, 5, 14});
  Note(Str("RelativeStrengthIndex(", n, ", ", src.period, ")\n"));
  RelativeStrengthIndex x(n, src.period);
  Resampled r{src.period};
  Near("index without ticks", x.GetRelativeStrengthIndex(), 50, 0);
  for (int i = g.Int(1, 50); i > 0; --i) {
    OhlcTick t = src.Next();
    r.Update(t, 2, nullptr);
    x.Update(t);
    double u = 0, d = 0, mx = 0, price = 0;
    for (size_t k = 0; k < r.all.size(); ++k) {
      double ch = (double)r.all[k].c - (k == 0 ? r.all[0].o : r.all[k - 1].c);
      double w = 1.0 / std::min<int>(k + 1, n);
      u = k == 0 ? std::max(ch, 0.0) : w * std::max(ch, 0.0) + (1 - w) * u;
      d = k == 0 ? std::max(-ch, 0.0) : w * std::max(-ch, 0.0) + (1 - w) * d;
      mx = std::max(mx, std::fabs(ch));
      price = std::max(price, (double)r.all[k].c);
    }
    double e = 2e-6 * mx * (1 + r.all.size() / 10.0) + (src.src.unit == 0.013f ? 1e-6 * price : 0);
    Near("smoothed upward change", x.GetUpwardChangeModifiedMovingAverage(), u, e);
    Near("smoothed downward change", x.GetDownwardChangeModifiedMovingAverage(), d, e);
    Equal("number of ticks", x.GetNumOhlcTicks(), r.all.size());
    float v = x.GetRelativeStrengthIndex();
    if (!(v >= 0 && v <= 100)) throw Fail{Str("the index is ", v)};
    double top = std::max(u, d);
    if (top + e < 0.9e-6)
      Near("index", v, 50, 0);
    else if (top - e > 1.1e-6)
      Near("index", v, 100 * u / (u + d), 0.01 + 200 * e / (u + d));
  }
}

void I07(Gen& g) {
  Ticks src(g);
  int n = g.Pick<int>({1, 2, 3, 5, 14});
  Note(Str("StochasticOscillator(", n, ", ", src.period, ")\n"));
  StochasticOscillator x(n, src.period);
  Resampled r{src.period};
  for (int i = g.Int(1, 50); i > 0; --i) {
    OhlcTick t = src.Next();
    r.Update(t, 1, nullptr);
    x.Update(t);
    std::vector<double> ks, fs;
    double lo = 0, hi = 0;
    bool skip = false;
    for (size_t k = 0; k < r.all.size(); ++k) {
      lo = 1e30, hi = -1e30;
      for (size_t j = k + 1 < (size_t)n ? 0 : k + 1 - n; j <= k; ++j)
        lo = std::min<double>(lo, r.all[j].l), hi = std::max<double>(hi, r.all[j].h);
      if (hi - lo > 0.99e-6 && hi - lo < 1.01e-6) skip = true;
      ks.push_back(hi - lo < 1e-6 ? 50 : 100 * (r.all[k].c - lo) / (hi - lo));
      fs.push_back(Of(ks, 3).mean);
    }
    if (skip) return;
    Equal("low", x.GetLow(), lo);
    Equal("high", x.GetHigh(), hi);
    double tol = src.src.unit == 0.013f ? 0.05 : 0.005;
    Near("%K", x.GetK(), ks.back(), tol);
    if (!(x.GetK() >= -1e-3 && x.GetK() <= 100.001)) throw Fail{Str("%K is ", x.GetK())};
    Near("fast %D", x.GetFastD(), fs.back(), 2 * tol);
    Near("slow %D", x.GetSlowD(), Of(fs, 3).mean, 2 * tol);
    Equal("number of ticks", x.GetNumOhlcTicks(), r.all.size());
  }
}

void I08(Gen& g) {
  Ticks src(g);
  int w = g.Pick<int>({0, 1, 2, 3, 5, 14});
  Note(Str("Volatility(", w, ", ", src.period, ")\n"));
  Volatility x(w, src.period);
  Resampled r{src.period};
  std::vector<double> v;  // v[0] at the first open, v[k + 1] of period k
  float b = g.Int(0, 5), q = g.Int(0, 5);
  Equal("volatility without ticks", x.GetVolatility(), 0);
  for (int i = g.Int(1, 40); i > 0; --i) {
    OhlcTick t = src.Next();
    if (g.P(0.3)) b = g.Int(0, 5) * (g.P(0.2) ? 0.1f : 1.0f), q = g.Int(0, 50) * src.src.unit;
    if (!(b > 0) && !(q > 0)) b = 1;
    Note(Str("balances ", b, " ", q, "\n"));
    std::vector<Event> ev;
    r.Update(t, 2, &ev);
    x.Update(t, b, q);
    for (auto& e : ev) {
      if (v.empty()) v.push_back((double)b * e.now.o + q);
      if (e.kind == 0) v.pop_back();
      v.push_back((double)b * e.now.c + q);
    }
    std::vector<double> h;
    for (size_t k = 0; k + 1 < v.size(); ++k) h.push_back(std::log(v[k] / v[k + 1]));
    Moments m = Of(h, w);
    float sd = x.GetVolatility();
    if (!(sd >= 0)) throw Fail{Str("the volatility is ", sd)};
    double tol = (2e-6 * m.mx * m.mx + 2e-6 * m.mx) * (1 + h.size() / 20.0) + 1e-11;
    Near("square of the volatility", (double)sd * sd, m.var, tol);
    Equal("number of ticks", x.GetNumOhlcTicks(), r.all.size());
  }
}

}  // namespace

void replay::RunCase(const std::string& prop, Gen& g, uint64_t index) {
  if (prop == "I01") I01(g);
  if (prop == "I02") I02(g);
  if (prop == "I03") I03(g);
  if (prop == "I04") I04(g);
  if (prop == "I05") I05(g);
  if (prop == "I06") I06(g);
  if (prop == "I07") I07(g);
  if (prop == "I08") I08(g);
}

int main(int argc, char** argv) { return replay::Main(argc, argv); }
