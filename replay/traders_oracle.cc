// Reference checks of the traders (T01, T02, T03): every emitted order is compared with the statement of the property,
// computed in double precision from the inputs (and, for the stop trader, from the previous emitted stop price).
#include "common.h"

#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "traders/trader_factory.h"

using namespace replay;
using namespace trader;

namespace {
void Check(bool ok, const std::string& what) {
  if (!ok) throw Fail{what};
}
bool Near(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1e-30, std::max(std::fabs(a), std::fabs(b))); }

std::string Show(const Order& o) { return o.ShortDebugString(); }

void CheckValid(const Order& o) {
  Check(o.has_type() && o.has_side(), "order without type or side: " + Show(o));
  Check(o.oneof_amount_case() != Order::ONEOF_AMOUNT_NOT_SET, "order without amount: " + Show(o));
  Check(o.oneof_amount_case() == Order::kBaseAmount ? o.base_amount() > 0 : o.quote_amount() > 0, "order amount not positive: " + Show(o));
  Check(o.type() == Order::MARKET || (o.has_price() && o.price() > 0), "order without price: " + Show(o));
}

double Balance(Gen& g, const char* hint) {
  double h;
  if (g.Hint(hint, &h) && h >= 0 && h < 1e9) return h;
  switch (g.Int(0, 5)) {
    case 0: return 0;
    case 1: return g.Real(0, 1);
    case 2: return g.Real(0, 100);
    case 3: return std::pow(10.0, g.Real(-3, 6));
    case 4: return 1;
    default: return g.Real(0.1, 20);
  }
}

double Fraction(Gen& g, const char* hint, double lo, double hi) {
  double h;
  if (g.Hint(hint, &h) && h > lo && h < hi) return h;
  return g.P(0.5) ? g.Real(lo, hi) : g.Pick({0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 0.95});
}

OhlcTick Tick(int64_t t, float close, Gen& g) {
  OhlcTick k;
  k.set_timestamp_sec(t);
  float a = close * (float)g.Real(0.9, 1), b = close * (float)g.Real(1, 1.1);
  k.set_open(g.P(0.5) ? a : b);
  k.set_high(std::max(b, close));
  k.set_low(std::min(a, close));
  k.set_close(close);
  k.set_volume((float)g.Real(0, 1000));
  return k;
}

// Orders already in the vector must stay; returns the new ones.
std::vector<Order> NewOrders(Trader* tr, const OhlcTick& k, double b, double q, Gen& g) {
  std::vector<Order> orders;
  int pre = g.P(0.2) ? g.Int(1, 2) : 0;
  for (int i = 0; i < pre; ++i) {
    orders.emplace_back();
    orders.back().set_base_amount(1000 + i);
  }
  std::vector<float> side;
  for (int i = g.Int(0, 2); i > 0; --i) side.push_back((float)g.Real(-1, 1));
  tr->Update(k, side, (float)b, (float)q, orders);
  Check((int)orders.size() >= pre, "earlier orders removed");
  for (int i = 0; i < pre; ++i) Check(orders[i].base_amount() == 1000 + i, "earlier orders changed");
  return std::vector<Order>(orders.begin() + pre, orders.end());
}

void CheckRebalancing(double a, double e, double b, double q, double p, const std::vector<Order>& os) {
  const double V = b * p + q, beta = b * p / V, up = a * (1 + e), down = a * (1 - e);
  for (const Order& o : os) Note("  order " + Show(o) + "\n");
  for (const Order& o : os) CheckValid(o);
  for (const Order& o : os)
    if (o.type() == Order::LIMIT) Check(o.side() == Order::SELL ? o.price() > (float)p : o.price() < (float)p, "a limit order at the wrong side of the close: " + Show(o));
  if (std::fabs(beta - up) < 1e-5 || std::fabs(beta - down) < 1e-5) return;
  const double tol = 2e-6;
  if (beta > up || beta < down) {
    Check(os.size() == 1, Str("outside the band ", os.size(), " orders are emitted"));
    const Order& o = os[0];
    Check(o.type() == Order::MARKET && o.oneof_amount_case() == Order::kBaseAmount, "no market order for a base amount: " + Show(o));
    Check(o.side() == (beta > up ? Order::SELL : Order::BUY), "wrong side: " + Show(o));
    const double x = o.base_amount();
    const double after = (o.side() == Order::SELL ? b - x : b + x) * p / V;
    Check(std::fabs(after - a) < 1e-5, Str("base share after the order ", after, " instead of ", a));
    if (o.side() == Order::SELL) Check(x <= b * (1 + tol) + 1e-6 * V / p, "sells more than held");
    else Check(x * p <= q * (1 + tol) + 1e-6 * V, "spends more than held");
    return;
  }
  int sells = 0, buys = 0;
  for (const Order& o : os) {
    Check(o.type() == Order::LIMIT && o.oneof_amount_case() == Order::kBaseAmount, "no limit order for a base amount: " + Show(o));
    const double P = o.price(), x = o.base_amount();
    const double share = b * P / (b * P + q);
    if (o.side() == Order::SELL) {
      ++sells;
      Check(P > p * (1 - 1e-6), "limit sell below the close");
      Check(std::fabs(share - up) < 1e-5, Str("share at the sell price is ", share, " instead of the edge ", up));
      Check(x <= b * (1 + tol), "sells more than held");
      Check(std::fabs((b - x) * P / (b * P + q) - a) < 2e-5, "the limit sell does not restore alpha");
    } else {
      ++buys;
      Check(P < p * (1 + 1e-6), "limit buy above the close");
      Check(std::fabs(share - down) < 1e-5, Str("share at the buy price is ", share, " instead of the edge ", down));
      Check(x * P <= q * (1 + 1e-5), "spends more than held");
      Check(std::fabs((b + x) * P / (b * P + q) - a) < 2e-5, "the limit buy does not restore alpha");
    }
  }
  Check(sells <= 1 && buys <= 1, "more than one limit order of a side");
}

void T01(Gen& g) {
  RebalancingTraderConfig c;
  c.set_alpha((float)Fraction(g, "this.trader_config_.alpha", 0.02, 0.98));
  c.set_epsilon((float)Fraction(g, "this.trader_config_.epsilon", 0.005, 0.95));
  const double a = c.alpha(), e = c.epsilon();
  Note(Str("alpha ", a, " epsilon ", e, "\n"));
  RebalancingTrader tr(c);
  int64_t t = 1;
  double b = 0, q = 0, p = 0;
  for (int n = g.Int(1, 6); n > 0; --n) {
    double h;
    p = (g.Hint("arg0.close", &h) && h > 1e-3 && h < 1e7) ? h : std::pow(10.0, g.Real(-2, 5));
    b = Balance(g, "arg2");
    q = Balance(g, "arg3");
    if (g.P(0.6)) {      // inside or close to the band
      const double s = a * (1 + e * g.Real(-1.3, 1.3));
      if (b <= 0) b = g.Real(0.1, 5);
      if (s > 0 && s < 1) q = b * p * (1 - s) / s;
    }
    if (g.P(0.05)) {     // at an edge of the band
      const double s = a * (g.P(0.5) ? 1 + e : 1 - e);
      if (b <= 0) b = g.Real(0.1, 5);
      b = (float)b, p = (float)p;
      if (s > 0 && s < 1) q = b * p * (1 - s) / s * (1 + g.Int(-4, 4) * 3e-8);
    }
    if (b <= 0 && q <= 0) q = 10;
    b = (float)b, q = (float)q, p = (float)p;
    t += g.Int(1, 5000);
    Note(Str("t ", t, " close ", p, " base ", b, " quote ", q, "\n"));
    CheckRebalancing(a, e, b, q, p, NewOrders(&tr, Tick(t, (float)p, g), b, q, g));
  }
}

struct StopState {
  bool known = false, longer = false;
  int64_t t = 0;
  double stop = 0;
};

// one update of the stop trader against the statement
void CheckStop(const StopTraderConfig& c, StopState* st, int64_t t, double p, double b, double q, const std::vector<Order>& os) {
  for (const Order& o : os) Note("  order " + Show(o) + "\n");
  Check(os.size() == 1, Str(os.size(), " orders instead of one"));
  const Order& o = os[0];
  CheckValid(o);
  Check(o.type() == Order::STOP, "not a stop order: " + Show(o));
  const double vb = b * p;
  bool lng = vb >= q;
  if (Near(vb, q, 1e-6)) lng = o.side() == Order::SELL;      // rounding decides
  if (lng)
    Check(o.side() == Order::SELL && o.oneof_amount_case() == Order::kBaseAmount && o.base_amount() == (float)b,
          "not a sell of the whole base balance: " + Show(o));
  else
    Check(o.side() == Order::BUY && o.oneof_amount_case() == Order::kQuoteAmount && o.quote_amount() == (float)q,
          "not a buy with the whole quote balance: " + Show(o));
  const double s1 = o.price(), tol = 3e-6;
  if (!st->known || t >= st->t + 3600 || lng != st->longer) {
    const double want = (lng ? 1 - (double)c.stop_order_margin() : 1 + (double)c.stop_order_margin()) * p;
    Check(Near(s1, want, 1e-5 + 1e-7 / (1 - c.stop_order_margin())), Str("stop price ", s1, " instead of ", want, " after a reset"));
  } else {
    const double s = st->stop, days = std::min<double>(86400, t - st->t) / 86400;
    if (lng) {
      const double thr = (1 - (double)c.stop_order_move_margin()) * p, lim = s * std::pow(1 + (double)c.stop_order_increase_per_day(), days);
      const double want = s <= thr ? std::max(s, std::min(thr, lim)) : s;
      const double alt = Near(s, thr, tol) ? s : want;
      Check(s1 >= s, Str("the stop price moved down from ", s, " to ", s1, " while long"));
      Check(Near(s1, want, tol) || Near(s1, alt, tol), Str("stop price ", s1, " instead of ", want, " (before ", s, ", margin ", thr, ", rate limit ", lim, ")"));
    } else {
      const double thr = (1 + (double)c.stop_order_move_margin()) * p, lim = s * std::pow(1 - (double)c.stop_order_decrease_per_day(), days);
      const double want = s >= thr ? std::min(s, std::max(thr, lim)) : s;
      const double alt = Near(s, thr, tol) ? s : want;
      Check(s1 <= s, Str("the stop price moved up from ", s, " to ", s1, " while in cash"));
      Check(Near(s1, want, tol) || Near(s1, alt, tol), Str("stop price ", s1, " instead of ", want, " (before ", s, ", margin ", thr, ", rate limit ", lim, ")"));
    }
  }
  st->known = true;
  st->longer = lng;
  st->t = t;
  st->stop = s1;
}

StopTraderConfig StopConfig(Gen& g) {
  StopTraderConfig c;
  c.set_stop_order_margin((float)Fraction(g, "this.trader_config_.stop_order_margin", 0.005, 0.95));
  c.set_stop_order_move_margin((float)Fraction(g, "this.trader_config_.stop_order_move_margin", 0.005, 0.95));
  c.set_stop_order_increase_per_day((float)Fraction(g, "this.trader_config_.stop_order_increase_per_day", 0.005, 0.95));
  c.set_stop_order_decrease_per_day((float)Fraction(g, "this.trader_config_.stop_order_decrease_per_day", 0.005, 0.95));
  return c;
}

void RunStop(Trader* tr, const StopTraderConfig& c, Gen& g, int n) {
  StopState st;
  int64_t t = g.P(0.5) ? 0 : g.I64(1, 1500000000);
  double p = std::pow(10.0, g.Real(-1, 4)), b = 0, q = 0;
  bool lng = g.P(0.5);
  for (; n > 0; --n) {
    t += g.P(0.1) ? g.Int(3590, 3610) : g.P(0.05) ? g.Int(3600, 100000) : g.P(0.3) ? g.Int(1, 3599) : g.Pick({60, 300, 900, 1800, 3599});
    p = p * (g.P(0.15) ? g.Real(0.4, 2.5) : g.P(0.3) ? (lng ? g.Real(1, 1.2) : g.Real(0.85, 1)) : g.Real(0.97, 1.03));
    if (p < 1e-3) p = 1e-3;
    if (p > 1e7) p = 1e7;
    if (g.P(0.15)) lng = !lng;
    b = g.Real(0.1, 3);
    q = lng ? b * p * (g.P(0.5) ? 0 : g.Real(0, 0.99)) : b * p * g.Real(1.01, 3);
    if (!lng && g.P(0.5)) b = 0;
    if (b > 0 && g.P(0.1)) q = b * p * (1 + (lng ? -1 : 1) * g.Pick({1e-5, 1e-4, 1e-3, 3e-3}));
    b = (float)b, q = (float)q, p = (float)p;
    Note(Str("t ", t, " close ", p, " base ", b, " quote ", q, "\n"));
    CheckStop(c, &st, t, p, b, q, NewOrders(tr, Tick(t, (float)p, g), b, q, g));
  }
}

void T02(Gen& g) {
  StopTraderConfig c = StopConfig(g);
  Note(c.ShortDebugString() + "\n");
  StopTrader tr(c);
  RunStop(&tr, c, g, g.Int(1, 40));
}

// ---- T03
std::vector<float> List(Gen& g, double lo, double hi) {
  std::vector<float> v;
  for (int n = g.P(0.1) ? 0 : g.Int(1, 4); n > 0; --n) v.push_back((float)g.Real(lo, hi));
  if (v.size() > 1 && g.P(0.1)) v[1] = v[0];
  return v;
}

void SameOrders(const std::vector<Order>& a, const std::vector<Order>& b, const std::string& what) {
  bool same = a.size() == b.size();
  for (size_t i = 0; same && i < a.size(); ++i) same = a[i].SerializeAsString() == b[i].SerializeAsString();
  Check(same, what);
}

// The emitter's traders behave like a trader with the parameters, and fresh traders do not share state.
void SameBehaviour(TraderEmitter* e, Trader* ref, Gen& g, bool twice) {
  std::unique_ptr<Trader> t1 = e->NewTrader();
  Check(t1 != nullptr, "no trader");
  std::unique_ptr<Trader> other;
  int64_t t = 1;
  double p = g.Real(1, 1000);
  for (int i = 0; i < 5; ++i) {
    t += g.Pick({300, 900, 3600});
    p *= g.Real(0.7, 1.5);
    const float b = (float)g.Real(0.01, 2), q = (float)(b * p * g.Real(0.01, 3));
    OhlcTick k = Tick(t, (float)p, g);
    std::vector<Order> a, r, o;
    t1->Update(k, {}, b, q, a);
    ref->Update(k, {}, b, q, r);
    SameOrders(a, r, "the emitter's trader differs from one with the combination's parameters");
    Check(t1->GetInternalState() == ref->GetInternalState(), "the emitter's trader has a different state");
    if (twice && i == 2) other = e->NewTrader();
    if (other) other->Update(k, {}, (float)g.Real(0.1, 2), (float)g.Real(0, 100), o);
  }
}

void T03(Gen& g) {
  if (g.P(0.1)) {
    for (const char* n : {"rebalancing", "stop"}) {
      std::unique_ptr<TraderEmitter> e = GetTrader(n);
      Check(e != nullptr && e->GetName().find(n) == 0, std::string("trader for ") + n);
      Check(dynamic_cast<RebalancingTraderEmitter*>(e.get()) ? n[0] == 'r' : n[0] == 's', std::string("class of the trader for ") + n);
      auto b = GetBatchOfTraders(n);
      Check(!b.empty(), std::string("batch for ") + n);
      for (auto& x : b) {
        Check(x != nullptr && x->GetName().find(n) == 0, std::string("batch for ") + n);
        Check(dynamic_cast<RebalancingTraderEmitter*>(x.get()) ? n[0] == 'r' : n[0] == 's', std::string("class in the batch for ") + n);
      }
    }
    return;
  }
  if (g.P(0.5)) {
    std::vector<float> as = List(g, 0.1, 0.9), es = List(g, 0.01, 0.5);
    auto batch = RebalancingTraderEmitter::GetBatchOfTraders(as, es);
    Note(Str("lists of ", as.size(), ", ", es.size(), "\n"));
    Check(batch.size() == as.size() * es.size(), Str("batch of ", batch.size(), " for ", as.size(), " x ", es.size()));
    size_t k = 0;
    for (float a : as)
      for (float e : es) {
        RebalancingTraderConfig c;
        c.set_alpha(a);
        c.set_epsilon(e);
        Check(batch[k] != nullptr && batch[k]->GetName() == RebalancingTraderEmitter(c).GetName(), Str("parameters of emitter ", k));
        RebalancingTrader ref(c);
        SameBehaviour(batch[k].get(), &ref, g, true);
        ++k;
      }
  } else {
    std::vector<float> l[4];
    for (auto& x : l) x = List(g, 0.01, 0.9);
    auto batch = StopTraderEmitter::GetBatchOfTraders(l[0], l[1], l[2], l[3]);
    Note(Str("lists of ", l[0].size(), ", ", l[1].size(), ", ", l[2].size(), ", ", l[3].size(), "\n"));
    Check(batch.size() == l[0].size() * l[1].size() * l[2].size() * l[3].size(), Str("batch of ", batch.size()));
    size_t k = 0;
    for (float w : l[0])
      for (float x : l[1])
        for (float y : l[2])
          for (float z : l[3]) {
            StopTraderConfig c;
            c.set_stop_order_margin(w);
            c.set_stop_order_move_margin(x);
            c.set_stop_order_increase_per_day(y);
            c.set_stop_order_decrease_per_day(z);
            Check(batch[k] != nullptr && batch[k]->GetName() == StopTraderEmitter(c).GetName(), Str("parameters of emitter ", k));
            StopTrader ref(c);
            SameBehaviour(batch[k].get(), &ref, g, true);
            ++k;
          }
  }
}
}  // namespace

namespace replay {
void RunCase(const std::string& prop, Gen& g, uint64_t) {
  if (prop == "T01") T01(g);
  else if (prop == "T02") T02(g);
  else T03(g);
}
}  // namespace replay

int main(int argc, char** argv) { return replay::Main(argc, argv); }
