// Reference check of the importers (U02).
#include "common.h"

#include "absl/flags/flag.h"
#include "absl/flags/parse.h"
#include "absl/strings/str_format.h"
#include "base/base.h"
#include "base/history.h"
#include "util/proto.h"
#include "util/time.h"

namespace absl {
template <class... A>
int DiscardF(const A&...) { return 0; }
}  // namespace absl
#define main convert_main
#define PrintF DiscardF
#include "convert.cc"
#undef PrintF
#undef main

using namespace replay;

namespace {
void Expect(bool ok, const std::string& what) {
  if (!ok) throw Fail{what};
}
std::string Fl(float x) {
  char b[64];
  snprintf(b, sizeof b, "%.9g", x);
  return b;
}
struct Row {
  bool parses = true;
  int64_t ts = 0;
  std::vector<float> v;  // price, volume / open, high, low, close, volume / signals
  std::string text;
};
enum Kind { PRICE, OHLC, SIDE };

bool ValidRow(Kind kind, const Row& r, int* width) {
  if (kind == SIDE) {
    if (*width == 0) *width = (int)r.v.size();
    return !r.v.empty() && (int)r.v.size() == *width;
  }
  for (size_t i = 0; i + 1 < r.v.size(); ++i)
    if (!(r.v[i] > 0)) return false;
  if (!(r.v.back() >= 0)) return false;
  if (kind == OHLC) {
    float o = r.v[0], h = r.v[1], l = r.v[2], c = r.v[3];
    if (!(l <= o && l <= c && l <= h && o <= h && c <= h)) return false;
  }
  return true;
}

// What importing these rows must give: false for an error, otherwise the selected rows.
bool Import(Kind kind, const std::vector<Row>& rows, int64_t start, int64_t end, std::vector<Row>* out) {
  int64_t prev = 0;
  int width = 0;
  for (const Row& r : rows) {
    if (!r.parses) return false;
    if (start > 0 && r.ts < start) continue;
    if (end > 0 && r.ts >= end) break;
    if (r.ts <= 0 || r.ts < prev || (kind == SIDE && r.ts == prev)) return false;
    if (!ValidRow(kind, r, &width)) return false;
    prev = r.ts;
    out->push_back(r);
  }
  return true;
}

float Positive(Gen& g) {
  switch (g.Int(0, 4)) {
    case 0: return (float)g.Int(1, 5);
    case 1: return (float)g.Real(0.5, 2);
    case 2: return (float)g.Real(100, 10000);
    case 3: return std::nextafterf(0.01f * g.Int(1, 200), 1e9f);
    default: return (float)std::exp(g.Real(-20, 20));
  }
}
float Wrong(Gen& g) { return g.Pick<float>({0.0f, -1.0f, -1e-6f, NAN, -1000.0f}); }

std::vector<float> Values(Gen& g, Kind kind, int width) {
  std::vector<float> v;
  if (kind == SIDE) {
    for (int i = 0; i < width; ++i) v.push_back((float)g.Pick<double>({0.0, -1.5, g.Real(-3, 3), (double)g.Int(-9, 9)}));
    return v;
  }
  if (kind == PRICE) {
    v = {Positive(g), g.P(0.3) ? 0.0f : Positive(g)};
  } else {
    float a = Positive(g), b = g.P(0.3) ? a : Positive(g);
    float lo = std::fmin(a, b), hi = std::fmax(a, b);
    auto in = [&] { return g.P(0.3) ? lo : g.P(0.4) ? hi : std::fmin(hi, std::fmax(lo, (float)g.Real(lo, hi))); };
    v = {in(), hi, lo, in(), g.P(0.3) ? 0.0f : Positive(g)};
  }
  if (g.P(0.06)) {
    int i = g.Int(0, (int)v.size() - 1);
    switch (g.Int(0, 3)) {
      case 0: v[i] = Wrong(g); break;
      case 1: v[i] = std::nextafterf(v[i], g.P(0.5) ? 1e30f : -1e30f); break;
      case 2: v[i] = v[g.Int(0, (int)v.size() - 1)]; break;
      default: v[i] = v[i] * (float)g.Pick({2.0, 0.5, 10.0, -1.0});
    }
  }
  return v;
}

std::string Bad(Gen& g, const Row& r, Kind kind) {
  if (kind == SIDE) return g.Pick<std::string>({"", "abc", ",,", "timestamp,signal", "x" + r.text, " ", "-", "nan,1"});
  auto p = r.text.rfind(',');
  return g.Pick<std::string>({"", "abc", r.text.substr(0, p), r.text.substr(0, p + 1), r.text.substr(0, r.text.find(',')), "timestamp,price,volume", ",,,,,",
                              r.text.substr(0, p + 1) + "x", "x" + r.text, "1;2;3;4;5;6"});
}
}  // namespace

void replay::RunCase(const std::string& prop, Gen& g, uint64_t index) {
  Kind kind = g.Pick({PRICE, OHLC, SIDE});
  bool delimited = kind != SIDE && g.P(0.4);
  int64_t base = g.P(0.5) ? 1483228800 : g.Int(1, 50);
  int width = g.Int(1, 3);
  std::vector<Row> rows;
  int64_t ts = base;
  int mode = g.Int(0, 3);
  double bad = g.Pick({0.0, 0.0, 0.03, 0.1});
  for (int n = g.Pick({0, 1, 2, 5, 12}); n > 0; --n) {
    Row r;
    r.ts = ts;
    ts += mode == 0 ? 1 : mode == 1 ? g.Int(1, 3) : g.Pick({0, 1, 60, 60, 60, 3600});
    if (g.P(bad)) ts -= g.Int(1, 70);
    if (g.P(bad)) r.ts = g.Pick<int64_t>({0, -1, -5, r.ts - 1, r.ts + 5000, 1});
    if (kind == SIDE && g.P(bad)) width = g.Int(0, 3);
    r.v = Values(g, kind, width);
    r.text = Str(r.ts);
    for (float x : r.v) r.text += "," + Fl(x);
    if (!delimited && g.P(bad)) {
      r.text = Bad(g, r, kind);
      r.parses = false;
    }
    rows.push_back(r);
  }
  auto bound = [&]() -> int64_t {
    switch (g.Int(0, 5)) {
      case 0: return g.Pick({0, 0, -1, 1});
      case 1: return base + g.Int(-10, 100);
      default: return rows.empty() ? base : rows[g.Int(0, (int)rows.size() - 1)].ts + g.Pick({0, 0, 0, 1, -1});
    }
  };
  int64_t start = bound(), end = bound();
  if (g.P(0.3)) start = 0;
  if (g.P(0.3)) end = 0;
  if (start > end && end > 0 && g.P(0.8)) std::swap(start, end);
  const absl::Time st = absl::FromUnixSeconds(start), et = absl::FromUnixSeconds(end);
  const std::string name = "import.dat";
  Note(Str(kind == PRICE ? "price" : kind == OHLC ? "OHLC" : "side", delimited ? " delimited" : " CSV", " file, interval [", start, ", ", end, ")\n"));
  bool missing = g.P(0.02), garbage = !missing && delimited && g.P(0.03);
  unlink(name.c_str());
  if (!missing) {
    for (const Row& r : rows) Note((delimited ? "record " : "line ") + r.text + "\n");
    if (!delimited) {
      std::ofstream f(name, std::ios::binary);
      for (size_t i = 0; i < rows.size(); ++i) f << rows[i].text << (i + 1 == rows.size() && !rows[i].text.empty() && g.P(0.3) ? "" : "\n");
    } else if (garbage) {
      Note("(replaced by data that is not a delimited message file)\n");
      std::ofstream f(name, std::ios::binary);
      f << "this is not a file of delimited messages";
    } else {
      bool z = g.P(0.5);
      if (kind == PRICE) {
        std::vector<PriceRecord> h;
        for (const Row& r : rows) {
          h.emplace_back();
          h.back().set_timestamp_sec(r.ts);
          h.back().set_price(r.v[0]);
          h.back().set_volume(r.v[1]);
        }
        Expect(WriteDelimitedMessagesToFile(h.begin(), h.end(), name, z).ok(), "cannot write the input file");
      } else {
        std::vector<OhlcTick> h;
        for (const Row& r : rows) {
          h.emplace_back();
          h.back().set_timestamp_sec(r.ts);
          h.back().set_open(r.v[0]);
          h.back().set_high(r.v[1]);
          h.back().set_low(r.v[2]);
          h.back().set_close(r.v[3]);
          h.back().set_volume(r.v[4]);
        }
        Expect(WriteDelimitedMessagesToFile(h.begin(), h.end(), name, z).ok(), "cannot write the input file");
      }
    }
  } else {
    Note("(the file does not exist)\n");
  }
  std::vector<Row> want, got;
  bool ok = Import(kind, rows, start, end, &want);
  if (missing || garbage) ok = false;
  bool rok;
  std::string msg;
  auto take = [&](const auto& res, auto conv) {
    rok = res.ok();
    msg = std::string(res.status().message());
    if (rok)
      for (const auto& x : res.value()) {
        Row r;
        r.ts = x.timestamp_sec();
        conv(x, &r.v);
        got.push_back(r);
      }
  };
  auto cp = [](const PriceRecord& x, std::vector<float>* v) { *v = {x.price(), x.volume()}; };
  auto co = [](const OhlcTick& x, std::vector<float>* v) { *v = {x.open(), x.high(), x.low(), x.close(), x.volume()}; };
  if (kind == PRICE) {
    take(delimited ? ReadPriceHistoryFromDelimitedProtoFile(name, st, et) : ReadPriceHistoryFromCsvFile(name, st, et), cp);
  } else if (kind == OHLC) {
    take(delimited ? ReadOhlcHistoryFromDelimitedProtoFile(name, st, et) : ReadOhlcHistoryFromCsvFile(name, st, et), co);
  } else {
    take(ReadSideHistoryFromCsvFile(name, st, et), [](const SideInputRecord& x, std::vector<float>* v) {
      for (int i = 0; i < x.signal_size(); ++i) v->push_back(x.signal(i));
    });
  }
  Expect(rok == ok, rok ? Str("the import reports success with ", got.size(), " records instead of an error") : Str("the import fails (", msg, ") instead of returning ", want.size(), " records"));
  if (!ok) return;
  Expect(got.size() == want.size(), Str(got.size(), " records are imported instead of ", want.size()));
  for (size_t i = 0; i < got.size(); ++i) {
    Expect(got[i].ts == want[i].ts, Str("record ", i, " has timestamp ", got[i].ts, " instead of ", want[i].ts));
    Expect(got[i].v == want[i].v, Str("record ", i, " has other values than the line ", want[i].text));
  }
}
int main(int argc, char** argv) { return replay::Main(argc, argv); }
