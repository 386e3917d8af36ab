// Independent reference for the Account properties A01..A08.
#include "common.h"

#include "base/account.h"

using namespace trader;
using replay::Fail;
using replay::Gen;
using replay::Note;
using replay::Str;

namespace {

// ---- reference arithmetic: doubles; "exact" while every value is also a float; otherwise tolerant
struct Ref {
  bool exact = true;      // all intermediate results are exactly representable as floats
  bool ambiguous = false; // a decision (comparison, floor) was too close to call
  double tol(double a, double b = 0) { return 4e-6 * (std::fabs(a) + std::fabs(b)) + 1e-12; }
  double r(double x) {
    if ((double)(float)x != x) exact = false;
    return x;
  }
  bool lt(double a, double b, double scale = 0) {  // a < b
    if (!exact && std::fabs(a - b) <= tol(a, b) + 4e-6 * scale) ambiguous = true;
    return a < b;
  }
  double fl(double x, double u) {
    if (!(u > 0)) return x;
    double q = r(x / u);
    if (!exact && std::fabs(q - std::round(q)) <= tol(q)) ambiguous = true;
    return r(u * std::floor(q));
  }
  double ce(double x, double u) {
    if (!(u > 0)) return x;
    double q = r(x / u);
    if (!exact && std::fabs(q - std::round(q)) <= tol(q)) ambiguous = true;
    return r(u * std::ceil(q));
  }
  double ro(double x, double u) {
    if (!(u > 0)) return x;
    double q = r(x / u);
    if (!exact && std::fabs(q - std::floor(q) - 0.5) <= tol(q)) ambiguous = true;
    return r(u * std::round(q));
  }
};

struct Case {
  Account a;
  AccountConfig cfg;
  FeeConfig* fee[3];
  OhlcTick t;
};

bool dyadic;

float Amt(Gen& g, const char* n, double lo, double hi) {
  double h;
  float f;
  if (g.Hint(n, &h)) {
    f = (float)h;
    if (!(f >= 0) || f > 1e9) f = 1;
  } else if (dyadic) {
    int s = g.Pick({0, 1, 2, 3, 4});
    f = std::floor(g.Real(lo, hi) * (1 << s)) / (1 << s);
    if (g.P(0.1)) f += 1.0f / 32;
  } else {
    f = g.P(0.3) ? std::exp(g.Real(std::log(std::max(lo, 1e-3)), std::log(hi))) : g.Real(lo, hi);
  }
  Note(Str(n, "=", f, " "));
  return f;
}

float Unit(Gen& g, const char* n) {
  double h;
  float f;
  if (g.Hint(n, &h) && h >= 0 && h < 1e6 && (h == 0 || h > 1e-6)) f = (float)h;
  else f = dyadic ? g.Pick({0.0f, 1.0f, 0.25f, 0.5f, 0.0625f, 2.0f, 8.0f}) : g.Pick({0.0f, 0.01f, 0.1f, 1.0f, 1e-5f, 3.0f, 0.0f});
  Note(Str(n, "=", f, " "));
  return f;
}

void MakeFee(Gen& g, FeeConfig* f, bool zero, const char* tag) {
  Note(Str(tag, "{"));
  f->Clear();
  if (!zero) {
    double h;
    if (g.P(0.8)) f->set_relative_fee(g.Hint("arg0.relative_fee", &h) && h >= 0 && h < 10 ? h : dyadic ? g.Pick({0.0, 0.125, 0.25, 0.5, 0.0078125, 1.0, 1.5}) : g.Pick({0.001, 0.01, 0.5, 0.0, 1.2}));
    if (g.P(0.5)) f->set_fixed_fee(g.Hint("arg0.fixed_fee", &h) && h >= 0 && h < 1e6 ? h : dyadic ? g.Pick({0.0, 1.0, 0.5, 3.0, 10.0}) : g.Real(0, 5));
    if (g.P(0.5)) f->set_minimum_fee(g.Hint("arg0.minimum_fee", &h) && h >= 0 && h < 1e6 ? h : dyadic ? g.Pick({0.0, 2.0, 0.75, 5.0, 40.0}) : g.Real(0, 10));
  }
  Note(Str(f->relative_fee(), " ", f->fixed_fee(), " ", f->minimum_fee(), "} "));
}

void MakeTick(Gen& g, OhlcTick* t, double lo = 1, double hi = 64) {
  float v[4];
  const char* nm[4] = {"arg1.low", "arg1.open", "arg1.close", "arg1.high"};
  for (int i = 0; i < 4; ++i) {
    v[i] = Amt(g, nm[i], lo, hi);
    if (!(v[i] > 0)) v[i] = 1;
  }
  float l = std::min(std::min(v[0], v[1]), std::min(v[2], v[3])), h = std::max(std::max(v[0], v[1]), std::max(v[2], v[3]));
  float o = v[1], c = v[2];
  if (g.P(0.2)) o = g.P(0.5) ? l : h;
  if (g.P(0.05)) l = h = o = c = v[0];
  t->set_timestamp_sec(1000);
  t->set_open(o), t->set_high(h), t->set_low(l), t->set_close(c);
  t->set_volume(g.P(0.1) ? 0 : Amt(g, "arg1.volume", 0, 400));
  Note(Str("tick{o=", o, " h=", h, " l=", l, " c=", c, " v=", t->volume(), "}\n"));
}

void MakeAccount(Gen& g, Account* a, double hi = 2000) {
  a->base_balance = g.P(0.1) ? 0 : Amt(g, "this.base_balance", 0, hi);
  a->quote_balance = g.P(0.1) ? 0 : Amt(g, "this.quote_balance", 0, hi * 20);
  a->total_fee = g.P(0.3) ? 0 : Amt(g, "this.total_fee", 0, 100);
  a->base_unit = Unit(g, "this.base_unit");
  a->quote_unit = Unit(g, "this.quote_unit");
  double h;
  a->market_liquidity = g.Hint("this.market_liquidity", &h) && h >= 0 && h <= 1 ? h : g.Pick({0.0f, 1.0f, 0.5f, 0.25f, 0.75f});
  a->max_volume_ratio = g.Hint("this.max_volume_ratio", &h) && h >= 0 && h <= 4 ? h : g.Pick({0.0f, 0.5f, 0.25f, 0.125f, 1.0f});
  Note(Str("account{b=", a->base_balance, " q=", a->quote_balance, " fee=", a->total_fee, " bu=", a->base_unit, " qu=",
           a->quote_unit, " liq=", a->market_liquidity, " ratio=", a->max_volume_ratio, "}\n"));
}

void OnGrid(Account* a) {
  auto r = [](float x, float u) { return u > 0 ? u * std::round(x / u) : x; };
  a->base_balance = r(a->base_balance, a->base_unit);
  a->quote_balance = r(a->quote_balance, a->quote_unit);
  a->total_fee = r(a->total_fee, a->quote_unit);
}

std::string Show(const Account& a) {
  return Str("{b=", a.base_balance, " q=", a.quote_balance, " fee=", a.total_fee, "}");
}
bool SameParams(const Account& a, const Account& b) {
  return a.base_unit == b.base_unit && a.quote_unit == b.quote_unit && a.market_liquidity == b.market_liquidity &&
         a.max_volume_ratio == b.max_volume_ratio;
}
bool Same(const Account& a, const Account& b) {
  return a.base_balance == b.base_balance && a.quote_balance == b.quote_balance && a.total_fee == b.total_fee && SameParams(a, b);
}

enum { MARKET, STOP, LIMIT };
struct Op {
  int type;       // -1: at price
  bool buy, quote, via_order;
  float amount, price, cap;
  bool stray = false;  // a MARKET order that carries a price (which must not matter)
};
const char* kType[] = {"market", "stop", "limit"};

Op MakeOp(Gen& g, const OhlcTick& t, double amax) {
  Op o;
  o.type = g.Int(-1, 2);
  o.buy = g.P(0.5);
  o.quote = g.P(0.5);
  o.via_order = o.type >= 0 && g.P(0.4);
  o.amount = Amt(g, g.P(0.5) ? "arg1" : "arg2", 0, o.quote ? amax * 16 : amax);
  if (o.via_order && !(o.amount > 0)) o.amount = 1;
  o.price = o.type < 0 ? Amt(g, "arg2", 1, 64) : g.P(0.3) ? g.Pick({t.high(), t.low(), t.open(), t.close()}) : Amt(g, "arg3", 1, 64);
  if (!(o.price > 0)) o.price = 2;
  o.stray = o.type == MARKET && o.via_order && g.P(0.3);
  o.cap = o.type < 0 && o.quote && g.P(0.5) ? Amt(g, "arg3", 0, amax) : std::numeric_limits<float>::max();
  Note(Str(o.via_order ? "order " : "", o.stray ? "(priced) " : "", o.type < 0 ? "at-price" : kType[o.type], o.buy ? " buy" : " sell",
           o.quote ? " quote" : " base", " amount=", o.amount, " price=", o.price, " cap=", o.cap, "\n"));
  return o;
}

Order MakeOrder(const Op& o) {
  Order r;
  r.set_type(o.type == MARKET ? Order::MARKET : o.type == STOP ? Order::STOP : Order::LIMIT);
  r.set_side(o.buy ? Order::BUY : Order::SELL);
  if (o.quote) r.set_quote_amount(o.amount);
  else r.set_base_amount(o.amount);
  if (o.type != MARKET || o.stray) r.set_price(o.price);
  return r;
}

bool Direct(Account& a, const Op& o, const FeeConfig& f, const OhlcTick& t) {
  switch (o.type) {
    case MARKET:
      return o.buy ? (o.quote ? a.MarketBuyAtQuote(f, t, o.amount) : a.MarketBuy(f, t, o.amount))
                   : (o.quote ? a.MarketSellAtQuote(f, t, o.amount) : a.MarketSell(f, t, o.amount));
    case STOP:
      return o.buy ? (o.quote ? a.StopBuyAtQuote(f, t, o.amount, o.price) : a.StopBuy(f, t, o.amount, o.price))
                   : (o.quote ? a.StopSellAtQuote(f, t, o.amount, o.price) : a.StopSell(f, t, o.amount, o.price));
    case LIMIT:
      return o.buy ? (o.quote ? a.LimitBuyAtQuote(f, t, o.amount, o.price) : a.LimitBuy(f, t, o.amount, o.price))
                   : (o.quote ? a.LimitSellAtQuote(f, t, o.amount, o.price) : a.LimitSell(f, t, o.amount, o.price));
    default:
      return o.buy ? (o.quote ? a.BuyAtQuote(f, o.amount, o.price, o.cap) : a.BuyBase(f, o.amount, o.price))
                   : (o.quote ? a.SellAtQuote(f, o.amount, o.price, o.cap) : a.SellBase(f, o.amount, o.price));
  }
}

bool Run(Account& a, const Op& o, const AccountConfig& cfg, const OhlcTick& t) {
  const FeeConfig& f = o.type == MARKET ? cfg.market_order_fee_config()
                       : o.type == STOP ? cfg.stop_order_fee_config() : cfg.limit_order_fee_config();
  bool r = o.via_order ? a.ExecuteOrder(cfg, MakeOrder(o), t) : Direct(a, o, f, t);
  Note(Str(" -> ", r, " ", Show(a), "\n"));
  return r;
}

double ExecPrice(const Account& a, const Op& o, const OhlcTick& t) {
  double L = a.market_liquidity;
  double x = o.buy ? t.high() : t.low();
  if (o.type == MARKET) return L * t.open() + (1 - L) * x;
  if (o.type == STOP) return L * (o.buy ? std::max(o.price, t.open()) : std::min(o.price, t.open())) + (1 - L) * x;
  return o.price;
}
bool Triggered(const Op& o, const OhlcTick& t) {
  if (o.type == STOP) return o.buy ? t.high() >= o.price : t.low() <= o.price;
  if (o.type == LIMIT) return o.buy ? t.low() <= o.price : t.high() >= o.price;
  return true;
}

double RefFee(Ref& r, const FeeConfig& f, double q, double qu) {
  double v = r.r(f.fixed_fee() + r.r((double)f.relative_fee() * q));
  return r.ce(std::max<double>(f.minimum_fee(), v), qu);
}

void Near(const char* what, double got, double want, double scale, bool exact) {
  double tol = exact ? 0 : 1e-5 * (std::fabs(want) + scale) + 1e-9;
  if (!(std::fabs(got - want) <= tol)) throw Fail{Str(what, " is ", got, ", expected ", want)};
}

void A03(Gen& g, Case& c) {
  Account& a = c.a;
  const FeeConfig& f = c.cfg.market_order_fee_config();
  bool buy = g.P(0.5);
  float amount = Amt(g, "arg1", 0, 1000), p = Amt(g, "arg2", 1, 64);
  if (!(p > 0)) p = 2;
  if (g.P(0.1)) amount = a.base_unit * g.Pick({0.5f, 1.0f, 0.25f, 0.75f, 1.5f});
  if (g.P(0.2) && !buy) amount = a.base_balance;
  Ref R;
  double bu = a.base_unit, qu = a.quote_unit;
  {
    Ref F;
    float q = amount;
    double want = RefFee(F, f, q, qu);
    double got = a.GetFee(f, q);
    Note(Str("GetFee(", q, ")=", got, "\n"));
    if (!F.ambiguous) Near("the fee", got, want, 0, F.exact);
  }
  double r = R.ro(amount, bu);
  double prod = R.r(r * p);
  double q = buy ? R.ce(prod, qu) : R.fl(prod, qu);
  double fee = RefFee(R, f, q, qu);
  double total = R.r(buy ? q + fee : q - fee);
  // place the balance exactly at / just off the affordability boundary now and then
  if (buy && g.P(0.25) && total < 1e7) {
    a.quote_balance = total + g.Pick({0.0, 0.0, 1.0, -1.0, 0.25, -0.25}) * (qu > 0 ? qu : 1.0);
    if (a.quote_balance < 0) a.quote_balance = 0;
  }
  if (!buy && g.P(0.25)) {
    a.base_balance = r + g.Pick({0.0, 0.0, 1.0, -1.0, 0.25, -0.25}) * (bu > 0 ? bu : 1.0);
    if (a.base_balance < 0) a.base_balance = 0;
  }
  Account b = a;
  bool want;
  if (buy) want = !R.lt(r, bu) && !R.lt(a.quote_balance, total, q);
  else want = !R.lt(r, bu) && !R.lt(a.base_balance, r) && !R.lt(total, qu, q);
  Note(Str(buy ? "BuyBase(" : "SellBase(", amount, ", ", p, ") on ", Show(a)));
  bool got = buy ? a.BuyBase(f, amount, p) : a.SellBase(f, amount, p);
  Note(Str(" -> ", got, " ", Show(a), "\n"));
  if (R.ambiguous) return;
  if (got != want) throw Fail{Str("the order ", got ? "succeeds" : "fails", " but the rule says it ", want ? "succeeds" : "fails")};
  if (!got) return;
  Ref B = R;
  double nb = B.ro(B.r(b.base_balance + (buy ? r : -r)), bu), nq = B.ro(B.r(b.quote_balance - (buy ? total : -total)), qu),
         nf = B.ro(B.r(b.total_fee + fee), qu);
  if (B.ambiguous) return;
  Near("the base balance", a.base_balance, nb, b.base_balance + r, B.exact);
  Near("the quote balance", a.quote_balance, nq, b.quote_balance + q, B.exact);
  Near("the accumulated fee", a.total_fee, nf, b.total_fee + fee, B.exact);
}

bool NearInteger(double x) { return x != std::round(x) && std::fabs(x - std::round(x)) <= 2e-6 * std::fabs(x) + 1e-9; }

void A04A08(Gen& g, Case& c, bool value) {
  if (g.P(0.7)) OnGrid(&c.a);
  Account a = c.a;
  Op o = MakeOp(g, c.t, 500);
  if (!value) o.quote = true;
  FeeConfig& f = *c.fee[o.type < 0 ? 0 : o.type];
  if (o.type < 0) f = *c.fee[2];
  const FeeConfig& fc = o.type < 0 ? *c.fee[2] : f;
  double p = o.type < 0 ? o.price : ExecPrice(a, o, c.t);
  double bu = a.base_unit, qu = a.quote_unit;
  // units a float cannot represent: single-precision error is not the subject of the property
  auto dy = [](double u) { return u == 0 || std::ldexp(1.0, (int)std::round(std::log2(u))) == u; };
  if (!dy(bu) || !dy(qu)) return;
  double scale = 4e-6 * (a.quote_balance + o.amount * (o.quote ? 1 : p) + a.base_balance * p) + 1e-6;
  if ((qu > 0 && scale > qu / 8) || (bu > 0 && 4e-6 * (a.base_balance + o.amount / (o.quote ? p : 1)) > bu / 8)) return;
  Ref R;
  double Q = R.ro(o.amount, qu);
  if (R.ambiguous) return;
  if (o.quote) {
    double fee = RefFee(R, fc, Q, qu);
    double x = o.buy ? (Q - fee) / p : (Q + fee) / p;
    if (bu > 0 ? NearInteger(x / bu) : qu > 0) return;  // decided by the last bit of a float division
    if (bu > 0 && qu > 0) {
      double y = std::floor(x / bu) * bu * p / qu;
      if (NearInteger(y) || (double)(float)(std::floor(x / bu) * bu * p) != std::floor(x / bu) * bu * p) return;
    }
  } else if (qu > 0) {
    double y = R.ro(o.amount, bu) * p / qu;
    if (R.ambiguous || NearInteger(y)) return;
  }
  bool ok = Run(a, o, c.cfg, c.t);
  auto slack = [&](double x, double u) { return u > 0 && x / u != std::round(x / u) ? u / 2 : 0.0; };
  double sq = slack(c.a.quote_balance, qu), sb = slack(c.a.base_balance, bu), sf = slack(c.a.total_fee, qu);
  double db = (double)a.base_balance - c.a.base_balance, dq = (double)a.quote_balance - c.a.quote_balance,
         df = (double)a.total_fee - c.a.total_fee;
  if (!value) {
    if (!ok) return;
    double spent = o.buy ? -dq : dq;
    if (spent > Q + sq + scale) throw Fail{Str(o.buy ? "spent " : "received ", spent, " in quote currency, more than ", Q)};
    if (o.type < 0) {
      double cap = R.fl(o.cap, bu);
      double traded = o.buy ? db : -db;
      if (traded > cap + sb + 4e-6 * (c.a.base_balance + std::fabs(traded)) + 1e-6)
        throw Fail{Str("traded ", traded, " base currency, more than the maximum ", cap)};
    }
    return;
  }
  double dv = dq + db * p;
  double bound = sq + sb * p + scale;
  if (dv > bound) throw Fail{Str("the account value at the execution price grew by ", dv, " (rounding allows ", bound, ")")};
  if (dv > bound + sf - df) throw Fail{Str("the account value fell by ", -dv, " which is less than the fee ", df)};
}

void A05(Gen& g, Case& c) {
  // ample balances, no fee, no granularity: amounts and prices can be read off the balances
  Account& a = c.a;
  float L = a.market_liquidity;
  a = Account();
  a.market_liquidity = L;
  a.base_balance = 4096;
  a.quote_balance = 65536;
  for (int i = 0; i < 3; ++i) c.fee[i]->Clear();
  Op o = MakeOp(g, c.t, 100);
  if (o.type < 0) o.type = MARKET;
  if (o.type != MARKET && g.P(0.3)) o.price = o.price + g.Pick({0.0f, 1e-3f, -1e-3f}) * o.price;
  o.amount = o.quote ? 256 : 16;
  Note(Str("price=", o.price, " amount=", o.amount, "\n"));
  Account b = a;
  bool ok = Run(a, o, c.cfg, c.t);
  bool trig = Triggered(o, c.t);
  double p = ExecPrice(b, o, c.t);
  if (ok && !trig) throw Fail{"the order executed although its price was not reached"};
  double need = o.quote ? (o.buy ? o.amount : o.amount / p) : (o.buy ? o.amount * p : o.amount);
  bool means = need < (o.buy ? b.quote_balance : b.base_balance) * 0.99;
  if (!ok && trig && means) throw Fail{"the order did not execute although its price was reached and it is affordable"};
  if (!ok) return;
  double db = std::fabs((double)a.base_balance - b.base_balance), dq = std::fabs((double)a.quote_balance - b.quote_balance);
  double got = dq / db;
  double err = 0.02 / db + 0.002 * p / std::max(1.0, db) + 1e-4 * p + 0.01 / db * p;
  if (db > 0.5 && std::fabs(got - p) > err) throw Fail{Str("executed at price ", got, ", expected ", p)};
}

void A06(Gen& g, Case& c) {
  Account& a = c.a;
  float ratio = a.max_volume_ratio, bu = a.base_unit, L = a.market_liquidity;
  auto pow2 = [](double u) { return u == 0 || std::ldexp(1.0, (int)std::round(std::log2(u))) == u; };
  if (!pow2(bu)) bu = 0.25f;
  a = Account();
  a.market_liquidity = L;
  a.max_volume_ratio = ratio;
  a.base_unit = bu;
  a.base_balance = 65536;
  a.quote_balance = 1 << 22;
  for (int i = 0; i < 3; ++i) c.fee[i]->Clear();
  Op o = MakeOp(g, c.t, 800);
  if (o.type < 0) o.type = LIMIT;
  if (o.type == LIMIT) o.price = o.buy ? c.t.high() : c.t.low();
  if (o.type == STOP) o.price = o.buy ? c.t.low() : c.t.high();
  if (g.P(0.3)) o.price = c.t.close(), o.type = LIMIT;
  Account b = a;
  bool ok = Run(a, o, c.cfg, c.t);
  double p = ExecPrice(b, o, c.t);
  double want = o.quote ? o.amount / p : o.amount;
  double cap = 1e30;
  if (o.type == LIMIT && ratio > 0) {
    double x = (double)ratio * c.t.volume();
    if (bu > 0 && NearInteger(x / bu)) return;
    cap = bu > 0 ? bu * std::floor(x / bu) : x;
  }
  double traded = ok ? std::fabs((double)a.base_balance - b.base_balance) : 0;
  double tol = 0.02 + 1e-5 * want;
  if (traded > cap + 0.01) throw Fail{Str("traded ", traded, ", above the volume cap ", cap)};
  if (traded > want + tol + bu / 2) throw Fail{Str("traded ", traded, ", above the requested ", want)};
  if (!Triggered(o, c.t)) return;
  double expect = std::min(want, cap);
  if (expect * p > 0.9 * b.quote_balance && o.buy) return;
  if (expect > 0.9 * b.base_balance && !o.buy) return;
  if (expect < bu) return;
  if (expect > 0.1 && traded < expect - bu - tol)
    throw Fail{Str("traded ", traded, " only; the request allows ", want, " and the volume ", cap)};
}

void A07(Gen& g, Case& c) {
  Account& a = c.a;
  Op o = MakeOp(g, c.t, 300);
  if (o.type < 0) o.type = MARKET;
  if (!(o.amount > 0)) o.amount = 3;
  Account b = a;
  o.via_order = true;
  bool x = Run(a, o, c.cfg, c.t);
  o.via_order = false;
  bool y = Run(b, o, c.cfg, c.t);
  if (x != y) throw Fail{"the order's outcome differs from the dedicated operation's"};
  if (!Same(a, b)) throw Fail{"the order's effect differs from the dedicated operation's"};
}

void Sequence(Gen& g, Case& c, bool a01) {
  Account& a = c.a;
  if (a01 && g.P(0.1)) {
    c.cfg.set_start_base_balance(a.base_balance);
    c.cfg.set_start_quote_balance(a.quote_balance);
    a.InitAccount(c.cfg);
  }
  int n = g.Int(1, 12);
  for (int i = 0; i < n; ++i) {
    OhlcTick t = c.t;
    if (i > 0) MakeTick(g, &t);
    Op o = MakeOp(g, t, g.P(0.5) ? 2000 : 60);
    if (g.P(0.2)) {  // sell or spend everything
      if (!o.quote && !o.buy) o.amount = a.base_balance;
      if (o.quote && o.buy) o.amount = a.quote_balance;
      if (o.via_order && !(o.amount > 0)) o.amount = 1;
      Note(Str("amount=", o.amount, "\n"));
    }
    Account b = a;
    bool ok = Run(a, o, c.cfg, t);
    if (a01) {
      if (!(a.base_balance >= 0)) throw Fail{Str("the base balance became ", a.base_balance)};
      if (!(a.quote_balance >= 0)) throw Fail{Str("the quote balance became ", a.quote_balance)};
      if (!(a.total_fee >= 0)) throw Fail{Str("the accumulated fee became ", a.total_fee)};
    } else {
      if (!SameParams(a, b)) throw Fail{"a parameter of the account changed"};
      if (!ok && !Same(a, b)) throw Fail{"a rejected order changed the account"};
    }
  }
}

void Init(Gen& g, Case& c) {
  AccountConfig k;
  k.set_start_base_balance(Amt(g, "arg0.start_base_balance", 0, 100));
  k.set_start_quote_balance(Amt(g, "arg0.start_quote_balance", 0, 100));
  if (g.P(0.7)) k.set_base_unit(Unit(g, "arg0.base_unit"));
  if (g.P(0.7)) k.set_quote_unit(Unit(g, "arg0.quote_unit"));
  if (g.P(0.7)) k.set_market_liquidity(g.Real(0, 1));
  if (g.P(0.7)) k.set_max_volume_ratio(g.Real(0, 1));
  Account a = c.a;
  a.InitAccount(k);
  if (a.base_balance != k.start_base_balance() || a.quote_balance != k.start_quote_balance() || a.total_fee != 0 ||
      a.base_unit != k.base_unit() || a.quote_unit != k.quote_unit() || a.market_liquidity != k.market_liquidity() ||
      a.max_volume_ratio != k.max_volume_ratio())
    throw Fail{"initialisation does not copy the configuration"};
}

}  // namespace

void replay::RunCase(const std::string& prop, Gen& g, uint64_t index) {
  Case c;
  dyadic = g.P(prop == "A03" || prop == "A04" || prop == "A08" ? 0.85 : 0.6);
  c.fee[0] = c.cfg.mutable_market_order_fee_config();
  c.fee[1] = c.cfg.mutable_stop_order_fee_config();
  c.fee[2] = c.cfg.mutable_limit_order_fee_config();
  for (int i = 0; i < 3; ++i) MakeFee(g, c.fee[i], g.P(0.25), i == 0 ? "market-fee" : i == 1 ? "stop-fee" : "limit-fee");
  MakeAccount(g, &c.a, g.P(0.5) ? 2000 : 50);
  MakeTick(g, &c.t);
  if (prop == "A01") Sequence(g, c, true);
  if (prop == "A02") g.P(0.1) ? Init(g, c) : Sequence(g, c, false);
  if (prop == "A03") A03(g, c);
  if (prop == "A04") A04A08(g, c, false);
  if (prop == "A05") A05(g, c);
  if (prop == "A06") A06(g, c);
  if (prop == "A07") A07(g, c);
  if (prop == "A08") A04A08(g, c, true);
}

int main(int argc, char** argv) { return replay::Main(argc, argv); }
