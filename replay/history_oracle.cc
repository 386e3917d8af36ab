// Independent reference for the price history properties H01..H05 and the side input properties S01, S02.
#include "common.h"

#include <algorithm>

#include "base/base.h"
#include "base/history.h"
#include "base/side_input.h"

using namespace trader;
using replay::Fail;
using replay::Gen;
using replay::Note;
using replay::Str;

namespace {

void Draw(Gen& g, int64_t ts, int k, PriceRecord* r) {
  r->set_timestamp_sec(ts), r->set_price(10 + k), r->set_volume(g.Int(0, 9));
}
void Draw(Gen& g, int64_t ts, int k, OhlcTick* r) {
  r->set_timestamp_sec(ts), r->set_open(1 + k), r->set_high(3 + k), r->set_low(k), r->set_close(2 + k), r->set_volume(k);
}
void Draw(Gen& g, int64_t ts, int k, SideInputRecord* r) { r->set_timestamp_sec(ts), r->add_signal(k), r->add_signal(-k); }

template <class T>
void H01(Gen& g) {
  std::vector<T> h;
  int n = g.P(0.1) ? 0 : g.Int(1, g.P(0.3) ? 40 : 6);
  int64_t ts = g.Pick<int64_t>({1, 5, 1483228800, 0, 1ll << 40});
  int64_t first = ts;
  for (int i = 0; i < n; ++i) {
    h.emplace_back();
    Draw(g, ts, i, &h.back());
    Note(Str("record ", i, " at ", ts, "\n"));
    ts += g.Pick<int64_t>({0, 0, 1, 1, 2, 7, 300});
  }
  for (int rep = 0; rep < 6; ++rep) {
    auto bound = [&]() -> int64_t {
      switch (g.Int(0, 6)) {
        case 0: return 0;
        case 1: return -g.Int(1, 3);
        case 2: return first + g.I64(-3, ts - first + 3);
        case 3: return ts + g.Int(0, 100);
        default: return n ? h[g.Int(0, n - 1)].timestamp_sec() + g.Int(-1, 1) : g.Int(0, 9);
      }
    };
    int64_t s = bound(), e = bound();
    std::string q = Str("interval [", s, ", ", e, ")");
    Note(q + "\n");
    std::vector<int> want;
    for (int i = 0; i < n; ++i)
      if ((s <= 0 || h[i].timestamp_sec() >= s) && (e <= 0 || h[i].timestamp_sec() < e)) want.push_back(i);
    auto r = HistorySubset(h, s, e);
    int64_t b = r.first - h.begin(), f = r.second - h.begin();
    if (b < 0 || b > f || f > n) throw Fail{Str(q, ": the subset is the range [", b, ", ", f, ") of ", n, " records")};
    if (f - b != (int64_t)want.size() || (!want.empty() && b != want[0]))
      throw Fail{Str(q, ": the subset has the records [", b, ", ", f, ") but ", want.size(), " are in the interval",
                     want.empty() ? "" : Str(", the first is ", want[0]))};
    std::vector<T> c = HistorySubsetCopy(h, s, e);
    if (c.size() != want.size()) throw Fail{Str(q, ": the copy has ", c.size(), " records instead of ", want.size())};
    for (size_t i = 0; i < c.size(); ++i)
      if (c[i].SerializeAsString() != h[want[i]].SerializeAsString()) throw Fail{Str(q, ": record ", i, " of the copy differs")};
  }
}

PriceHistory Records(Gen& g, int max, std::initializer_list<int64_t> steps, bool zero_start = false) {
  PriceHistory h;
  int n = g.Int(1, g.P(0.3) ? max : 8);
  int64_t ts = g.Pick<int64_t>({1, 59, 60, 61, 1483228800, 1483228807, 100000000000ll});
  if (zero_start && g.P(0.2)) ts = 0;
  double hint;
  if (g.hinted() && g.P(0.2) && g.Hint("ts", &hint) && hint > 0 && hint < 1e15) ts = (int64_t)hint;
  for (int i = 0; i < n; ++i) {
    h.emplace_back();
    Draw(g, ts, g.Int(0, 20), &h.back());
    ts += g.Pick<int64_t>(steps);
  }
  return h;
}

void Show(const PriceHistory& h) {
  for (auto& r : h) Note(Str("record ", r.timestamp_sec(), ": price ", r.price(), " volume ", r.volume(), "\n"));
}

void H02(Gen& g) {
  PriceHistory h = g.P(0.8) ? Records(g, 40, {0, 1, 1, 5, 5, 7, 60, 61, 300, 10000})
                           : Records(g, 12, {0, 5, 10000, 1000000000, 2147483647, 2147483649, 3000000000, 4294967296, 4294967301, 1ll << 40});
  int64_t first = h.front().timestamp_sec(), last = h.back().timestamp_sec();
  for (int rep = 0; rep < 4; ++rep) {
    int64_t s = g.P(0.4) ? g.Int(-1, 0) : first - g.Pick<int64_t>({0, 1, 5, 7, 60, 1000, first - 1});
    int64_t e = g.P(0.4) ? g.Int(-1, 0) : last + g.Pick<int64_t>({0, 1, 5, 7, 60, 1000});
    size_t n = g.P(0.05) ? (size_t)1 << 60 : g.Int(0, g.P(0.5) ? 3 : (int)h.size() + 3);
    std::vector<HistoryGap> all;
    if (s > 0) all.push_back({s, first});
    for (size_t i = 1; i < h.size(); ++i) all.push_back({h[i - 1].timestamp_sec(), h[i].timestamp_sec()});
    if (e > 0) all.push_back({last, e});
    auto got = GetPriceHistoryGaps(h.begin(), h.end(), s, e, n);
    std::string q = Str("gaps of ", h.size(), " records in (", s, ", ", e, "), top ", n);
    auto fail = [&](const std::string& m) {
      Show(h);
      Note(q + "\n");
      for (auto& x : got) Note(Str("reported ", x.first, " .. ", x.second, "\n"));
      throw Fail{q + ": " + m};
    };
    if (got.size() != std::min(n, all.size())) fail(Str(got.size(), " gaps reported, there are ", all.size()));
    std::vector<HistoryGap> rest = all;
    int64_t least = INT64_MAX;
    for (size_t i = 0; i < got.size(); ++i) {
      auto it = std::find(rest.begin(), rest.end(), got[i]);
      if (it == rest.end()) fail(Str("reported gap ", got[i].first, " .. ", got[i].second, " is no gap of the history, or reported twice"));
      rest.erase(it);
      least = std::min(least, got[i].second - got[i].first);
      if (i && got[i].first < got[i - 1].first) fail("not in chronological order");
    }
    for (auto& x : rest)
      if (!got.empty() && x.second - x.first > least)
        fail(Str("gap ", x.first, " .. ", x.second, " was left out though it is longer than a reported one of ", least));
    if (!GetPriceHistoryGaps(h.begin(), h.begin(), s, e, n).empty()) fail("gaps reported for an empty history");
  }
}

void H03(Gen& g) {
  PriceHistory h;
  int n = g.Int(0, g.P(0.4) ? 60 : 16);
  int64_t ts = 1483228800;
  float dev = g.Pick<float>({0.0f, 0.01f, 0.05f, 0.1f, 0.5f, 1.0f, 3.0f});
  double level = g.Pick<double>({100, 1, 1e-3, 5000});
  double bad = g.Pick<double>({0, 0.05, 0.3, 0.6}), jump = g.Pick<double>({0.05, 0.2, 0.5});
  int hold = 0;
  double cur = level;
  for (int i = 0; i < n; ++i) {
    h.emplace_back();
    if (hold > 0) --hold; else if (cur != level && g.P(0.7)) cur = level;
    if (hold == 0 && g.P(jump)) {
      hold = g.Int(0, 12);
      double f = (1 + dev) * g.Pick<double>({0.7, 0.79, 0.82, 0.9, 1.01, 1.2, 1.5, 2, 4});
      cur = g.P(0.5) ? level * f : level / f;
      if (g.P(0.3)) level = cur;
    }
    float p = cur * g.Pick<double>({1, 1, 1, 0.9, 1.1, 0.99, 1.02});
    float v = g.Int(0, 9);
    if (g.P(bad)) (g.P(0.5) ? p : v) = g.Pick<float>({-1.0f, -0.5f, -1e-6f});
    if (g.P(bad / 3)) p = 0;
    if (g.P(0.1)) v = 0;
    h.back().set_timestamp_sec(ts), h.back().set_price(p), h.back().set_volume(v);
    ts += g.Pick<int64_t>({0, 1, 30, 60, 60, 61, 120, 240, 3600});
  }
  std::vector<size_t> idx, before;
  for (int k = g.P(0.5) ? 0 : g.Int(1, 3); k > 0; --k) before.push_back(g.Int(0, 99));
  idx = before;
  PriceHistory clean = RemoveOutliers(h.begin(), h.end(), dev, &idx);
  PriceHistory clean2 = RemoveOutliers(h.begin(), h.end(), dev, nullptr);
  auto fail = [&](const std::string& m) {
    Show(h);
    Note(Str("max deviation per minute ", dev, "\n"));
    for (size_t i : idx) Note(Str("reported outlier ", i, "\n"));
    throw Fail{m};
  };
  if (idx.size() < before.size() || !std::equal(before.begin(), before.end(), idx.begin())) fail("earlier contents of the index output changed");
  idx.erase(idx.begin(), idx.begin() + before.size());
  std::vector<bool> dropped(h.size());
  for (size_t i = 0; i < idx.size(); ++i) {
    if (idx[i] >= h.size() || (i && idx[i] <= idx[i - 1])) fail("the outlier indices are not increasing indices of the history");
    dropped[idx[i]] = true;
  }
  if (clean.size() + idx.size() != h.size()) fail("kept records and outliers do not partition the history");
  if (clean2.size() != clean.size()) fail("the cleaned history depends on the index output");
  for (size_t i = 0, k = 0; i < h.size(); ++i)
    if (!dropped[i]) {
      if (clean[k].SerializeAsString() != h[i].SerializeAsString() || clean2[k].SerializeAsString() != h[i].SerializeAsString())
        fail(Str("kept record ", i, " is modified or out of order"));
      ++k;
    }
  int last = -1;
  auto valid = [&](size_t i) { return h[i].price() > 0 && h[i].volume() >= 0; };
  for (size_t i = 0; i < h.size(); ++i) {
    int want = 0;  // 1: outlier, 0: kept, -1: too close to a threshold to say
    if (!valid(i)) {
      want = 1;
    } else if (last >= 0) {
      double ref = h[last].price(), p = h[i].price();
      double mins = std::max(1.0, (double)(h[i].timestamp_sec() - h[last].timestamp_sec()) / 60.0);
      double f = (1.0 + dev) * std::sqrt(mins), up = ref * f, down = ref / f, eps = 4e-6;
      double mu = 0.8 * up + 0.2 * ref, md = 0.8 * down + 0.2 * ref;
      auto over = [&](double a, double b) { return a > b * (1 + eps) ? 1 : a < b * (1 - eps) ? 0 : -1; };
      int ju = over(p, up), jd = over(p, down);
      jd = jd < 0 ? -1 : 1 - jd;
      if (ju == -1 || jd == -1) {
        want = -1;
      } else if (ju || jd) {
        int seen = 0, lo = 0, hi = 0;
        for (size_t j = i + 1; j < h.size() && seen < 10; ++j) {
          if (!valid(j)) continue;
          ++seen;
          int c = ju ? over(h[j].price(), mu) : over(h[j].price(), md);
          if (!ju && c >= 0) c = 1 - c;
          lo += c == 1, hi += c != 0;
        }
        want = hi < 3 ? 1 : lo >= 3 ? 0 : -1;
      }
    }
    if (want >= 0 && want != (int)dropped[i])
      fail(Str("record ", i, want ? " is an outlier but was kept" : " was dropped but is no outlier", " (last kept record ", last, ")"));
    if (!dropped[i]) last = i;
  }
}

void H04(Gen& g) {
  // The part of a large history that matters begins at base.
  const size_t base = g.P(0.8) ? 0 : g.Pick<size_t>({(1ul << 31) - 3, 1ul << 31, (1ul << 32) - 3, 1ul << 32, (1ul << 33) + 5, 1ul << 52});
  size_t n = base + g.Int(1, g.P(0.3) ? 60 : 12);
  std::vector<size_t> o;
  double p = g.Pick<double>({0.1, 0.3, 0.8});
  for (size_t i = base + (base ? 8 : 0); i < n; ++i)
    if (g.P(p)) o.push_back(i);
  auto ctx = [&]() -> size_t {
    double h;
    if (g.hinted() && g.P(0.5) && g.Hint("arg", &h) && h >= 0 && h < 1.8e19) return (size_t)h;
    return g.P(0.06) ? ~(size_t)0 - g.Int(0, 3) : g.P(0.1) ? (size_t)1 << g.Int(20, 63) : g.Int(0, 4);
  };
  size_t l = base ? g.Int(0, 5) : ctx(), r = ctx(), last = g.P(0.1) ? ~(size_t)0 : g.Int(0, (int)o.size() + 1);
  auto m = GetOutlierIndicesWithContext(o, n, l, r, last);
  auto fail = [&](const std::string& t) {
    for (size_t i : o) Note(Str("outlier ", i, "\n"));
    Note(Str("history size ", n, ", left ", l, ", right ", r, ", last_n ", last, "\n"));
    for (auto& kv : m) Note(Str("map ", kv.first, " -> ", kv.second, "\n"));
    throw Fail{t};
  };
  size_t from = last == 0 || o.size() <= last ? 0 : o.size() - last;
  std::map<size_t, bool> want;
  for (size_t k = base; k < n; ++k)
    for (size_t i = from; i < o.size(); ++i) {
      if (k <= o[i] ? o[i] - k <= l : k - o[i] <= r) want[k];
      if (k == o[i]) want[k] = true;
    }
  for (auto& kv : m) {
    if (!want.count(kv.first)) fail(Str("index ", kv.first, " is in no context of an outlier"));
    if (want[kv.first] != kv.second) fail(Str("index ", kv.first, kv.second ? " is marked but is no outlier" : " is an outlier but not marked"));
  }
  for (auto& kv : want)
    if (!m.count(kv.first)) fail(Str("context index ", kv.first, " is missing"));
}

void H05(Gen& g) {
  int rate = g.Pick<int>({1, 2, 7, 60, 300, 3600, 86400});
  int64_t r = rate;
  PriceHistory h = Records(g, 60, {0, 0, 1, 1, r / 3, r / 2 + 1, r - 1, r, r + 1, 2 * r, 2 * r - 1, 5 * r + 1}, true);
  if (g.P(0.3))
    for (auto& x : h) x.set_price(g.Real(0.1, 5)), x.set_volume(g.Real(0, 3));
  OhlcHistory o = Resample(h.begin(), h.end(), rate);
  auto fail = [&](const std::string& t) {
    Show(h);
    Note(Str("sampling rate ", rate, "\n"));
    for (auto& x : o)
      Note(Str("tick ", x.timestamp_sec(), ": ", x.open(), " ", x.high(), " ", x.low(), " ", x.close(), " ", x.volume(), "\n"));
    throw Fail{t};
  };
  int64_t q0 = h.front().timestamp_sec() / rate, q1 = h.back().timestamp_sec() / rate;
  if ((int64_t)o.size() != q1 - q0 + 1) fail(Str(o.size(), " ticks instead of ", q1 - q0 + 1));
  size_t k = 0;
  for (int64_t q = q0; q <= q1; ++q) {
    const OhlcTick& t = o[q - q0];
    if (t.timestamp_sec() != q * rate) fail(Str("tick ", q - q0, " is at ", t.timestamp_sec(), " instead of ", q * rate));
    float op = 0, hi = 0, lo = 0, cl = 0;
    double vol = 0;
    bool any = false;
    for (; k < h.size() && h[k].timestamp_sec() / rate == q; ++k, any = true) {
      float p = h[k].price();
      if (!any) op = hi = lo = p;
      hi = std::max(hi, p), lo = std::min(lo, p), cl = p, vol += h[k].volume();
    }
    if (!any) op = hi = lo = cl = o[q - q0 - 1].close();
    if (t.open() != op || t.high() != hi || t.low() != lo || t.close() != cl || std::fabs(t.volume() - vol) > 1e-4 * (1 + vol))
      fail(Str("tick ", q - q0, " is not ", op, " ", hi, " ", lo, " ", cl, " ", vol));
  }
  if (!Resample(h.begin(), h.begin(), rate).empty()) fail("ticks for an empty history");
}

SideHistory Side(Gen& g, int* signals) {
  SideHistory h;
  int n = g.Int(1, g.P(0.01) ? 6000 : g.P(0.3) ? 40 : 6);
  *signals = g.P(0.01) ? g.Pick<int>({100, 127, 128, 255, 256, 300, 1000, 33000, 70000}) : g.Int(0, 4);
  if (*signals > 1000) n = std::min(n, 4);
  if (*signals >= 100) n = std::min(n, 400);
  int64_t ts = g.Pick<int64_t>({1, 100, 1483228800, 1ll << 40});
  for (int i = 0; i < n; ++i) {
    h.emplace_back();
    h.back().set_timestamp_sec(ts);
    for (int k = 0; k < *signals; ++k) h.back().add_signal(g.Int(-100, 100) * 0.25f);
    ts += g.Pick<int64_t>({1, 1, 2, 5, 60, 86400});
  }
  return h;
}

void S01(Gen& g) {
  int signals;
  SideHistory h = Side(g, &signals);
  SideInput s(h);
  int n = h.size();
  for (int i = 0; i < n; ++i) Note(Str("record ", i, " at ", h[i].timestamp_sec(), "\n"));
  for (int rep = 0; rep < 20; ++rep) {
    int64_t t = g.P(0.8) ? h[g.Int(0, n - 1)].timestamp_sec() + g.Int(-1, 1) : h[0].timestamp_sec() + g.I64(-5, h[n - 1].timestamp_sec() - h[0].timestamp_sec() + 5);
    double hint;
    if (g.hinted() && g.P(0.2) && g.Hint("arg", &hint) && std::fabs(hint) < 1e15) t = (int64_t)hint;
    int want = -1;
    while (want + 1 < n && h[want + 1].timestamp_sec() <= t) ++want;
    int got = s.GetSideInputIndex(t);
    if (got != want) throw Fail{Str("the index at ", t, " is ", got, " instead of ", want)};
    const int step = want < 100 ? 1 : g.Int(want / 60, want / 10);
    for (int p = -2; p <= want; p = p < 20 || want - p <= 20 ? p + 1 : std::min(p + step, want - 20)) {
      got = s.GetSideInputIndex(t, p);
      if (got != want) throw Fail{Str("the index at ", t, " with the hint ", p, " is ", got, " instead of ", want)};
    }
  }
}

void S02(Gen& g) {
  int signals;
  SideHistory h = Side(g, &signals);
  SideInput s(h);
  if (signals < 10)
    for (auto& r : h) Note(r.ShortDebugString() + "\n");
  else
    Note(Str(h.size(), " records with ", signals, " signals\n"));
  if (s.GetNumberOfSignals() != signals) throw Fail{Str("the number of signals is ", s.GetNumberOfSignals())};
  if (s.GetNumberOfRecords() != (int)h.size()) throw Fail{Str("the number of records is ", s.GetNumberOfRecords())};
  for (size_t i = 0; i < h.size(); ++i) {
    if (s.GetSideInputTimestamp(i) != h[i].timestamp_sec()) throw Fail{Str("the timestamp of record ", i, " is ", s.GetSideInputTimestamp(i))};
    std::vector<float> out, want;
    for (int k = g.Int(0, 2); k > 0; --k) out.push_back(k * 1000);
    want = out;
    for (int k = 0; k < signals; ++k) {
      if (s.GetSideInputSignal(i, k) != h[i].signal(k)) throw Fail{Str("signal ", k, " of record ", i, " is ", s.GetSideInputSignal(i, k))};
      want.push_back(h[i].signal(k));
    }
    s.GetSideInputSignals(i, out);
    if (out != want) throw Fail{Str("the signals of record ", i, " are not appended to the output")};
  }
}

}  // namespace

void replay::RunCase(const std::string& prop, Gen& g, uint64_t index) {
  if (prop == "H01") index % 3 == 0 ? H01<PriceRecord>(g) : index % 3 == 1 ? H01<OhlcTick>(g) : H01<SideInputRecord>(g);
  if (prop == "H02") H02(g);
  if (prop == "H03") H03(g);
  if (prop == "H04") H04(g);
  if (prop == "H05") H05(g);
  if (prop == "S01") S01(g);
  if (prop == "S02") S02(g);
}

int main(int argc, char** argv) { return replay::Main(argc, argv); }
