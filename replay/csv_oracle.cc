// Reference check of the CSV logs (L01).
#include "common.h"

#include "base/base.h"
#include "logging/csv_logger.h"

using namespace replay;
using namespace trader;

namespace {
std::string N(float x) {
  char b[80];
  snprintf(b, sizeof b, "%.3f", x);
  return b;
}
float Num(Gen& g) {
  switch (g.Int(0, 6)) {
    case 0: return 0;
    case 1: return (float)g.Int(0, 100000);
    case 2: return (float)g.Real(0, 0.01);
    case 3: return (float)g.Real(0, 1e9);
    case 4: return (float)g.Real(0, 1e-5);
    default: return (float)g.Real(0, 10000);
  }
}
}  // namespace

void replay::RunCase(const std::string& prop, Gen& g, uint64_t index) {
  std::ostringstream ex, tr;
  ex.precision(3);
  bool have_ex = g.P(0.8), have_tr = g.P(0.8);
  CsvLogger logger(have_ex ? &ex : nullptr, have_tr ? &tr : nullptr);
  std::string want_ex, want_tr;
  Note(Str(have_ex ? "with" : "without", " exchange stream, ", have_tr ? "with" : "without", " trader stream\n"));
  for (int n = g.Int(1, 8); n > 0; --n) {
    OhlcTick t;
    t.set_timestamp_sec(g.P(0.5) ? 1483228800 + g.Int(0, 1000000) : g.I64(1, 1ll << 41));
    t.set_open(Num(g));
    t.set_high(Num(g));
    t.set_low(Num(g));
    t.set_close(Num(g));
    t.set_volume(Num(g));
    Account a;
    a.base_balance = Num(g);
    a.quote_balance = Num(g);
    a.total_fee = Num(g) * (g.P(0.05) ? -1 : 1);
    std::string row = Str(t.timestamp_sec(), ",", N(t.open()), ",", N(t.high()), ",", N(t.low()), ",", N(t.close()), ",", N(t.volume()), ",", N(a.base_balance), ",",
                          N(a.quote_balance), ",", N(a.total_fee), ",");
    std::string before_ex = want_ex, before_tr = want_tr;
    switch (g.Int(0, 2)) {
      case 0:
        Note("LogExchangeState(tick, account)\n");
        logger.LogExchangeState(t, a);
        if (have_ex) want_ex += row + ",,,,\n";
        break;
      case 1: {
        Order o;
        int type = g.Int(0, 2), side = g.Int(0, 1), amount = g.Int(0, 2);
        o.set_type(type == 0 ? Order::MARKET : type == 1 ? Order::STOP : Order::LIMIT);
        o.set_side(side == 0 ? Order::BUY : Order::SELL);
        row += Str(type == 0 ? "MARKET" : type == 1 ? "STOP" : "LIMIT", ",", side == 0 ? "BUY" : "SELL", ",");
        float x = Num(g), p = Num(g);
        if (amount == 1) {
          o.set_base_amount(x);
          row += N(x);
        }
        row += ",";
        if (amount == 2) {
          o.set_quote_amount(x);
          row += N(x);
        }
        row += ",";
        if (type != 0 || g.P(0.3)) o.set_price(p);
        if (o.price() > 0) row += N(o.price());
        Note(Str("LogExchangeState(tick, account, order) ", o.ShortDebugString(), "\n"));
        logger.LogExchangeState(t, a, o);
        if (have_ex) want_ex += row + "\n";
        break;
      }
      default: {
        std::string s = g.Pick<std::string>({"", "a", "1.0,2.0,3", "state with %s and %d", "xyz"});
        Note(Str("LogTraderState \"", s, "\"\n"));
        logger.LogTraderState(s);
        if (have_tr) want_tr += s + "\n";
      }
    }
    if (ex.str() != want_ex) throw Fail{Str("the exchange log is\n", ex.str(), "instead of\n", want_ex)};
    if (tr.str() != want_tr) throw Fail{Str("the trader log is\n", tr.str(), "instead of\n", want_tr)};
  }
}
int main(int argc, char** argv) { return replay::Main(argc, argv); }
