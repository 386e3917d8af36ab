// Reference checks of simulation and evaluation (E01..E07): the observed events and results are compared with an independent
// step by step simulation (which uses the real Account, whose behaviour is the subject of the A properties).
#include "common.h"

#include <mutex>
#include <thread>

#include "eval/eval.h"
#include "indicators/volatility.h"

using namespace replay;
using namespace trader;

namespace {
void Check(bool ok, const std::string& what) {
  if (!ok) throw Fail{what};
}
bool Near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * std::max(1e-30, std::max(std::fabs(a), std::fabs(b))); }
std::string Fl(float x) {
  char b[40];
  snprintf(b, sizeof b, "%.9g", x);
  return b;
}
std::string Show(const OhlcTick& t) { return Str(t.timestamp_sec(), "/", Fl(t.open()), "/", Fl(t.high()), "/", Fl(t.low()), "/", Fl(t.close()), "/", Fl(t.volume())); }
std::string Show(const Account& a) { return Str(Fl(a.base_balance), ",", Fl(a.quote_balance), ",", Fl(a.total_fee)); }

// The orders emitted by the n-th update of a trader: a function of (seed, n), the price and the balances.
std::vector<Order> Orders(uint64_t seed, int n, float close, float base, float quote) {
  Gen g(seed * 77 + n, nullptr);
  std::vector<Order> out;
  for (int k = g.P(0.03) ? g.Int(7, 20) : g.Pick({0, 1, 1, 1, 2, 2, 3}); k > 0; --k) {
    Order o;
    o.set_type(g.Pick({Order::MARKET, Order::MARKET, Order::STOP, Order::LIMIT}));
    o.set_side(g.P(0.5) ? Order::BUY : Order::SELL);
    if (g.P(0.5)) {
      o.set_base_amount((float)(g.Real(0.05, 1.3) * (o.side() == Order::SELL ? base : quote / close)));
    } else {
      o.set_quote_amount((float)(g.Real(0.05, 1.3) * (o.side() == Order::SELL ? base * close : quote)));
    }
    if (o.base_amount() <= 0 && o.quote_amount() <= 0) o.set_base_amount(0.01f);
    if (o.type() != Order::MARKET) o.set_price(close * (float)g.Real(0.9, 1.1));
    out.push_back(o);
  }
  return out;
}

struct Event {
  char kind;           // U update, T tick log, O order log, S state log
  std::string what;    // everything but the signals
  std::string signals;
};

struct RecTrader : public Trader {
  RecTrader(uint64_t s, std::vector<Event>* e) : seed(s), events(e) {}
  uint64_t seed;
  std::vector<Event>* events;
  int n = 0;
  void Update(const OhlcTick& t, const std::vector<float>& sig, float b, float q, std::vector<Order>& orders) override {
    ++n;
    if (events) {
      std::string s;
      for (float x : sig) s += Fl(x) + " ";
      events->push_back({'U', Str("update ", n, " tick ", Show(t), " balances ", Fl(b), ",", Fl(q), " with ", orders.size(), " orders"), s});
    }
    for (const Order& o : Orders(seed, n, t.close(), b, q)) orders.push_back(o);
  }
  std::string GetInternalState() const override { return Str("state", n); }
};

struct RecLogger : public Logger {
  explicit RecLogger(std::vector<Event>* e) : events(e) {}
  std::vector<Event>* events;
  void LogExchangeState(const OhlcTick& t, const Account& a) override { events->push_back({'T', Str("log tick ", Show(t), " account ", Show(a)), ""}); }
  void LogExchangeState(const OhlcTick& t, const Account& a, const Order& o) override {
    events->push_back({'O', Str("log order ", Show(t), " account ", Show(a), " order ", o.ShortDebugString()), ""});
  }
  void LogTraderState(absl::string_view s) override { events->push_back({'S', Str("log state ", std::string(s)), ""}); }
};

struct Setup {
  AccountConfig config;
  OhlcHistory history;
  SideHistory side;
};

float Price(Gen& g) { return (float)g.Pick({1.0, 10.0, 100.0, 7000.0}) * (float)g.Real(0.5, 2); }

Setup Make(Gen& g, int max_ticks, int64_t spacing) {
  Setup s;
  AccountConfig& c = s.config;
  c.set_start_base_balance((float)g.Pick({0.0, 1.0, 10.0, 0.5}));
  c.set_start_quote_balance((float)g.Pick({0.0, 1000.0, 50000.0}));
  if (c.start_base_balance() == 0 && c.start_quote_balance() == 0) c.set_start_quote_balance(1000);
  if (g.P(0.5)) c.set_base_unit((float)g.Pick({0.001, 0.00001}));
  if (g.P(0.5)) c.set_quote_unit(0.01f);
  c.set_market_liquidity((float)g.Pick({1.0, 0.5, 0.0, 1.0}));
  if (g.P(0.3)) c.set_max_volume_ratio((float)g.Pick({0.0, 0.5, 0.01}));
  for (FeeConfig* f : {c.mutable_market_order_fee_config(), c.mutable_limit_order_fee_config(), c.mutable_stop_order_fee_config()}) {
    if (g.P(0.6)) f->set_relative_fee((float)g.Pick({0.005, 0.1}));
    if (g.P(0.2)) f->set_fixed_fee(1.0f);
  }
  int n = g.P(0.05) ? 0 : g.Int(1, max_ticks);
  int64_t t = g.P(0.3) ? g.I64(1, 1000) : 1483228800 + g.I64(0, 100) * 3600;
  float close = Price(g);
  for (int i = 0; i < n; ++i) {
    OhlcTick k;
    k.set_timestamp_sec(t);
    float open = close * (float)g.Pick({1.0, 1.0, 0.99, 1.02});
    if (g.P(0.15)) {
      if (g.P(0.3)) close *= (float)g.Real(0.9, 1.1);   // a gap tick may come with any price
      k.set_open(close);
      k.set_high(close);
      k.set_low(close);
      k.set_close(close);
      k.set_volume(0);
    } else {
      close = open * (float)g.Real(0.85, 1.18);
      k.set_open(open);
      k.set_close(close);
      k.set_high(std::max(open, close) * (float)g.Real(1, 1.1));
      k.set_low(std::min(open, close) * (float)g.Real(0.9, 1));
      k.set_volume((float)g.Pick({1000.0, 10.0, 0.01, 100000.0}));
      if (g.P(0.05)) k.set_volume(0);      // nothing traded although the prices move
    }
    s.history.push_back(k);
    t += spacing > 0 ? (g.P(0.8) ? spacing : g.I64(1, 5) * spacing) : g.I64(1, 100000);
  }
  int m = g.Int(1, 6), ns = g.Int(0, 3);
  int64_t st = n ? std::max<int64_t>(1, s.history[0].timestamp_sec() + g.I64(-3, 3) * std::max<int64_t>(1, spacing)) : 1;
  for (int i = 0; i < m; ++i) {
    SideInputRecord r;
    r.set_timestamp_sec(st);
    for (int j = 0; j < ns; ++j) r.add_signal((float)g.Int(-9, 9) + (float)i);
    s.side.push_back(r);
    st += g.P(0.5) ? std::max<int64_t>(1, spacing) * g.I64(1, 4) : g.I64(1, 200000);
  }
  return s;
}

struct Reference {
  std::vector<Event> events;
  ExecutionResult result;
};

// The property text, step by step.
Reference Simulate(const AccountConfig& config, const OhlcTick* b, const OhlcTick* e, const SideHistory* side, bool fast, uint64_t seed, bool log) {
  Reference r;
  if (b == e) return r;
  Account a;
  a.InitAccount(config);
  std::vector<Order> pending;
  int updates = 0, executed = 0;
  Volatility bv(0, 86400), tv(0, 86400);
  for (const OhlcTick* t = b; t != e; ++t) {
    if (log) r.events.push_back({'T', Str("log tick ", Show(*t), " account ", Show(a)), ""});
    for (const Order& o : pending) {
      if (a.ExecuteOrder(config, o, *t)) {
        ++executed;
        if (log) r.events.push_back({'O', Str("log order ", Show(*t), " account ", Show(a), " order ", o.ShortDebugString()), ""});
      }
    }
    if (t->volume() == 0) continue;
    std::string sig;
    if (side) {
      const SideInputRecord* last = nullptr;
      for (const SideInputRecord& s : *side)
        if (s.timestamp_sec() <= t->timestamp_sec()) last = &s;
      if (last) {
        for (float x : last->signal()) sig += Fl(x) + " ";
        sig += Fl((float)(t->timestamp_sec() - last->timestamp_sec())) + " ";
      }
    }
    ++updates;
    r.events.push_back({'U', Str("update ", updates, " tick ", Show(*t), " balances ", Fl(a.base_balance), ",", Fl(a.quote_balance), " with 0 orders"), sig});
    pending = Orders(seed, updates, t->close(), a.base_balance, a.quote_balance);
    if (log) r.events.push_back({'S', Str("log state state", updates), ""});
    if (!fast) {
      bv.Update(*t, 1.0f, 0.0f);
      tv.Update(*t, a.base_balance, a.quote_balance);
    }
  }
  ExecutionResult& x = r.result;
  x.set_start_base_balance(config.start_base_balance());
  x.set_start_quote_balance(config.start_quote_balance());
  x.set_end_base_balance(a.base_balance);
  x.set_end_quote_balance(a.quote_balance);
  x.set_start_price(b->close());
  x.set_end_price((e - 1)->close());
  x.set_start_value(config.start_quote_balance() + b->close() * config.start_base_balance());
  x.set_end_value(a.quote_balance + (e - 1)->close() * a.base_balance);
  x.set_total_executed_orders(executed);
  x.set_total_fee(a.total_fee);
  if (!fast) {
    x.set_base_volatility(bv.GetVolatility() * std::sqrt(365.0));
    x.set_trader_volatility(tv.GetVolatility() * std::sqrt(365.0));
  }
  return r;
}

void CheckExecution(const std::string& prop, Gen& g) {
  Setup s = Make(g, 14, g.P(0.5) ? 86400 : 0);
  const bool log = prop == "E04" ? true : g.P(0.4), fast = g.P(0.3), with_side = prop == "E02" ? true : g.P(0.3);
  const uint64_t seed = g.U();
  Note(Str("config ", s.config.ShortDebugString(), "\n"));
  for (auto& t : s.history) Note("tick " + Show(t) + "\n");
  if (with_side)
    for (auto& r : s.side) Note("side " + r.ShortDebugString() + "\n");
  Note(Str("orders of seed ", seed, " log ", log, " fast ", fast, "\n"));
  std::vector<Event> got;
  RecTrader trader(seed, &got);
  RecLogger logger(&got);
  SideInput side(s.side);
  int skip = (int)s.history.size() > 3 && g.P(0.2) ? 1 : 0;
  auto b = s.history.cbegin() + skip, e = s.history.cend() - skip;
  ExecutionResult res = ExecuteTrader(s.config, b, e, with_side ? &side : nullptr, fast, trader, log ? &logger : nullptr);
  Reference want = Simulate(s.config, s.history.data() + skip, s.history.data() + s.history.size() - skip, with_side ? &s.side : nullptr, fast, seed, log);
  auto compare = [&](auto pred, bool signals) {
    std::vector<Event> a, w;
    for (auto& x : got) if (pred(x)) a.push_back(x);
    for (auto& x : want.events) if (pred(x)) w.push_back(x);
    for (size_t i = 0; i < std::max(a.size(), w.size()); ++i) {
      Check(i < a.size(), "missing: " + w[i].what);
      Check(i < w.size(), "unexpected: " + a[i].what);
      if (signals) {
        Check(a[i].signals == w[i].signals, Str("signals ", a[i].signals, " instead of ", w[i].signals, " at ", a[i].what));
      } else {
        Check(a[i].what == w[i].what, a[i].what + " instead of " + w[i].what);
      }
    }
  };
  auto updates = [](const Event& x) { return x.kind == 'U'; };
  if (prop == "E01") {
    compare(updates, false);
  } else if (prop == "E02") {
    compare(updates, true);
  } else if (prop == "E04") {
    compare([](const Event&) { return true; }, false);
    std::vector<Event> none;
    RecTrader again(seed, &none);
    ExecutionResult r2 = ExecuteTrader(s.config, b, e, with_side ? &side : nullptr, fast, again, nullptr);
    Check(r2.SerializeAsString() == res.SerializeAsString(), "logging changes the outcome: " + res.ShortDebugString() + " instead of " + r2.ShortDebugString());
  } else {
    const ExecutionResult& w = want.result;
    Note("result " + res.ShortDebugString() + "\n");
#define EQ(f) Check(res.f() == w.f(), Str(#f " ", res.f(), " instead of ", w.f()))
#define NEAR(f, tol) Check(Near(res.f(), w.f(), tol), Str(#f " ", res.f(), " instead of ", w.f()))
    EQ(start_base_balance); EQ(start_quote_balance); EQ(end_base_balance); EQ(end_quote_balance); EQ(start_price); EQ(end_price);
    EQ(total_executed_orders); EQ(total_fee);
    NEAR(start_value, 1e-5); NEAR(end_value, 1e-5); NEAR(base_volatility, 1e-4); NEAR(trader_volatility, 1e-4);
    if (b == e) Check(res.ByteSizeLong() == 0, "result of an empty history " + res.ShortDebugString());
  }
}

// ---- calendar, independent of the library
int64_t DaysFromCivil(int64_t y, int m, int d) {
  y -= m <= 2;
  const int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
  const int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
int64_t AddMonths(int64_t t, int64_t months) {
  int64_t days = t >= 0 ? t / 86400 : -((-t + 86399) / 86400), sec = t - days * 86400;
  int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  int d = (int)(doy - (153 * mp + 2) / 5 + 1), m = (int)(mp < 10 ? mp + 3 : mp - 9);
  int64_t y = yoe + era * 400 + (m <= 2);
  int64_t k = y * 12 + (m - 1) + months, ny = k >= 0 ? k / 12 : -((-k + 11) / 12);
  return (DaysFromCivil(ny, (int)(k - ny * 12) + 1, 1) + d - 1) * 86400 + sec;
}

struct Emitter : public TraderEmitter {
  Emitter(uint64_t s, int delay_us = 0) : seed(s), delay(delay_us) {}
  uint64_t seed;
  int delay;
  mutable std::vector<std::vector<Event>> seen;
  mutable std::vector<std::unique_ptr<std::vector<Event>>> logs;
  mutable std::mutex mu;
  std::string GetName() const override { return Str("emitter", seed % 1000); }
  std::unique_ptr<Trader> NewTrader() const override {
    if (delay) std::this_thread::sleep_for(std::chrono::microseconds(delay));
    std::lock_guard<std::mutex> l(mu);
    logs.emplace_back(new std::vector<Event>);
    return std::unique_ptr<Trader>(new RecTrader(seed, logs.back().get()));
  }
};

struct EvalSetup {
  Setup s;
  EvaluationConfig config;
};

EvalSetup MakeEval(Gen& g) {
  EvalSetup x;
  x.s = Make(g, 30, g.Pick<int64_t>({86400 * 5, 86400 * 10, 86400 * 31, 86400 * 45}));
  if (x.s.history.empty()) x.s = Make(g, 30, 86400 * 10);
  int64_t first = x.s.history.empty() ? 1483228800 : x.s.history.front().timestamp_sec(), last = x.s.history.empty() ? first : x.s.history.back().timestamp_sec();
  int64_t start = std::max<int64_t>(0, first + g.I64(-70, 70) * 86400);
  if (g.P(0.3)) start = std::max<int64_t>(0, first);
  int64_t end = g.P(0.3) ? last + g.I64(0, 2) : start + g.I64(0, 600) * 86400 + g.I64(-1, 1);
  int months = g.Pick({0, 0, 1, 1, 2, 3, 6, 12, -1});
  if (g.P(0.25)) end = AddMonths(start, g.Int(0, 14));      // exactly on a period boundary
  if (g.P(0.05)) end = 0;
  x.config.set_start_timestamp_sec(start);
  x.config.set_end_timestamp_sec(end);
  x.config.set_evaluation_period_months(months);
  x.config.set_fast_eval(g.P(0.5));
  Note(Str("account ", x.s.config.ShortDebugString(), "\nevaluation ", x.config.ShortDebugString(), "\n"));
  for (auto& t : x.s.history) Note("tick " + Show(t) + "\n");
  return x;
}

struct Span {
  int64_t start, end;
  size_t from, to;
};
std::vector<Span> Spans(const EvalSetup& x) {
  std::vector<Span> out;
  const int64_t end = x.config.end_timestamp_sec();
  for (int k = 0;; ++k) {
    Span p;
    p.start = AddMonths(x.config.start_timestamp_sec(), k);
    const int months = x.config.evaluation_period_months();
    p.end = months > 0 ? AddMonths(p.start, months) : end;
    if (months > 0 && p.end > end) break;
    p.from = p.to = 0;
    while (p.from < x.s.history.size() && p.start > 0 && x.s.history[p.from].timestamp_sec() < p.start) ++p.from;
    p.to = p.from;
    while (p.to < x.s.history.size() && (p.end <= 0 || x.s.history[p.to].timestamp_sec() < p.end)) ++p.to;
    if (p.from < p.to) out.push_back(p);
    if (months <= 0) break;
  }
  return out;
}

// Many periods whose gains differ widely from the baseline.
void Volatile(Gen& g, EvalSetup* x) {
  const double factor = g.Pick({0.05, 0.1, 10.0, 20.0});
  const int months = g.Int(30, 60);
  const float p = Price(g);
  x->s.config.set_start_base_balance(0);
  x->s.config.set_start_quote_balance(1000);
  x->s.history.clear();
  const int64_t start = 1483228800;
  for (int m = 0; m < months; ++m)
    for (int i = 0; i < 2; ++i) {
      OhlcTick k;
      k.set_timestamp_sec(AddMonths(start, m) + i * 86400);
      const float c = i ? p * factor : p;
      k.set_open(p);
      k.set_high(std::max(p, c));
      k.set_low(std::min(p, c));
      k.set_close(c);
      k.set_volume(1000);
      x->s.history.push_back(k);
    }
  x->config.set_start_timestamp_sec(start);
  x->config.set_end_timestamp_sec(AddMonths(start, months));
  x->config.set_evaluation_period_months(1);
  Note(Str("replaced by ", months, " months that each begin at ", p, " and end at ", p * factor, "\n"));
}

void CheckEvaluation(const std::string& prop, Gen& g) {
  EvalSetup x = MakeEval(g);
  if (prop == "E06" && g.P(0.02)) Volatile(g, &x);
  if (prop == "E06" && g.P(0.05)) {      // a trader that sells loses everything
    x.s.config.set_start_base_balance(1);
    x.s.config.set_start_quote_balance(0);
    x.s.config.mutable_market_order_fee_config()->set_relative_fee(1);
    x.config.set_fast_eval(true);
    Note("replaced by one base unit, no quote and a market fee of 100%\n");
  }
  const uint64_t seed = g.U();
  SideInput side(x.s.side);
  const bool with_side = g.P(0.3);
  Emitter em(seed);
  std::vector<Event> logged;
  RecLogger logger(&logged);
  const bool log = g.P(0.3);
  EvaluationResult r = EvaluateTrader(x.s.config, x.config, x.s.history, with_side ? &side : nullptr, em, log ? &logger : nullptr);
  const int n = r.period_size();
  if (prop == "E06") {
    double gain = 0, base = 0, orders = 0, fee = 0, logscore = 0;
    bool zero = false;
    for (auto& p : r.period()) {
      gain += p.final_gain();
      base += p.base_final_gain();
      orders += p.result().total_executed_orders();
      fee += p.result().total_fee();
      if (p.final_gain() <= 0) zero = true;
      else logscore += std::log((double)p.final_gain() / p.base_final_gain());
    }
    const double d = std::max(1, n);
    const double want[5] = {gain / d, base / d, orders / d, fee / d, n == 0 || zero ? 0 : std::exp(logscore / d)};
    const double got[5] = {r.avg_gain(), r.avg_base_gain(), r.avg_total_executed_orders(), r.avg_total_fee(), r.score()};
    const char* name[5] = {"avg_gain", "avg_base_gain", "avg_total_executed_orders", "avg_total_fee", "score"};
    for (int i = 0; i < 5; ++i) Check(Near(got[i], want[i], 2e-5), Str(name[i], " ", got[i], " instead of ", want[i], " over ", n, " periods"));
    return;
  }
  std::vector<Span> spans = Spans(x);
  Check(n == (int)spans.size(), Str(n, " periods instead of ", spans.size()));
  Check((int)em.logs.size() == n, Str(em.logs.size(), " traders created for ", n, " periods"));
  Check(r.account_config().SerializeAsString() == x.s.config.SerializeAsString() && r.eval_config().SerializeAsString() == x.config.SerializeAsString(), "configurations not reported");
  std::vector<Event> all;
  for (int i = 0; i < n; ++i) {
    const auto& p = r.period(i);
    Check(p.start_timestamp_sec() == spans[i].start && p.end_timestamp_sec() == spans[i].end,
          Str("period ", i, " [", p.start_timestamp_sec(), ", ", p.end_timestamp_sec(), ") instead of [", spans[i].start, ", ", spans[i].end, ")"));
    std::vector<Event> ev;
    RecTrader t(seed, &ev);
    RecLogger lg(&ev);
    ExecutionResult want = ExecuteTrader(x.s.config, x.s.history.cbegin() + spans[i].from, x.s.history.cbegin() + spans[i].to, with_side ? &side : nullptr,
                                         x.config.fast_eval(), t, log ? &lg : nullptr);
    Check(p.result().SerializeAsString() == want.SerializeAsString(), Str("result of period ", i, ": ", p.result().ShortDebugString(), " instead of ", want.ShortDebugString()));
    Check(Near(p.final_gain(), (double)want.end_value() / want.start_value(), 1e-5), Str("gain ", p.final_gain(), " of period ", i));
    Check(Near(p.base_final_gain(), (double)want.end_price() / want.start_price(), 1e-5), Str("base gain ", p.base_final_gain(), " of period ", i));
    std::vector<Event> upd;
    for (auto& e : ev) (e.kind == 'U' ? upd : all).push_back(e);
    Check(upd.size() == em.logs[i]->size(), Str("the trader of period ", i, " was updated ", em.logs[i]->size(), " times instead of ", upd.size()));
    for (size_t j = 0; j < upd.size(); ++j) Check(upd[j].what == (*em.logs[i])[j].what && upd[j].signals == (*em.logs[i])[j].signals, "the trader of a period saw " + (*em.logs[i])[j].what);
  }
  Check(all.size() == logged.size(), Str(logged.size(), " log entries instead of ", all.size()));
}

void CheckBatch(Gen& g) {
  EvalSetup x = MakeEval(g);
  SideInput side(x.s.side);
  const bool with_side = g.P(0.3);
  std::vector<std::unique_ptr<TraderEmitter>> batch;
  std::vector<uint64_t> seeds;
  for (int k = g.Int(0, 6); k > 0; --k) {
    seeds.push_back(g.U());
    batch.emplace_back(new Emitter(seeds.back(), g.P(0.4) ? g.Int(0, 300) : 0));
  }
  std::vector<EvaluationResult> got = EvaluateBatchOfTraders(x.s.config, x.config, x.s.history, with_side ? &side : nullptr, batch);
  Check(got.size() == seeds.size(), Str(got.size(), " results for ", seeds.size(), " traders"));
  for (size_t i = 0; i < seeds.size(); ++i) {
    Emitter one(seeds[i]);
    EvaluationResult want = EvaluateTrader(x.s.config, x.config, x.s.history, with_side ? &side : nullptr, one, nullptr);
    Check(got[i].SerializeAsString() == want.SerializeAsString(), Str("trader ", i, ": ", got[i].ShortDebugString(), " instead of ", want.ShortDebugString()));
  }
}
}  // namespace

namespace replay {
void RunCase(const std::string& prop, Gen& g, uint64_t) {
  if (prop == "E07") {
    CheckBatch(g);
  } else if (prop == "E05" || prop == "E06") {
    CheckEvaluation(prop, g);
  } else {
    CheckExecution(prop, g);
  }
}
}  // namespace replay

int main(int argc, char** argv) { return replay::Main(argc, argv); }
