// Reference checks of the utilities: delimited messages (U01) and calendar times (U03).
#include "common.h"

#include <zlib.h>

#include <sstream>

#include "absl/time/clock.h"
#include "base/base.h"
#include "util/proto.h"
#include "util/time.h"

using namespace replay;
using namespace trader;

namespace {
void Check(bool ok, const std::string& what) {
  if (!ok) throw Fail{what};
}

// ---------------------------------------------------------------- U03
bool Leap(int64_t y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
int Len(int64_t y, int m) {
  static const int t[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && Leap(y) ? 29 : t[m - 1];
}
int64_t FloorDiv(int64_t a, int64_t b) { return a / b - (a % b != 0 && (a % b < 0) != (b < 0)); }
// days since 1970-01-01 of the first day of a year, by counting leap years
int64_t YearStart(int64_t y) {
  int64_t p = y - 1;
  return 365 * (y - 1970) + (FloorDiv(p, 4) - FloorDiv(p, 100) + FloorDiv(p, 400)) - (1969 / 4 - 1969 / 100 + 1969 / 400);
}
int64_t MonthStart(int64_t y, int m) {
  int64_t d = YearStart(y);
  for (int i = 1; i < m; ++i) d += Len(y, i);
  return d;
}
struct Civil {
  int64_t y;
  int m, d;
  int64_t q;  // second of the day
};
Civil ToCivil(int64_t t) {
  Civil c;
  int64_t days = FloorDiv(t, 86400);
  c.q = t - days * 86400;
  c.y = 1970 + FloorDiv(days, 366);
  while (YearStart(c.y + 1) <= days) c.y += 1 + (days - YearStart(c.y + 1)) / 366;
  while (YearStart(c.y) > days) --c.y;
  c.m = 1;
  while (MonthStart(c.y, c.m) + Len(c.y, c.m) <= days) ++c.m;
  c.d = (int)(days - MonthStart(c.y, c.m)) + 1;
  return c;
}
int64_t Shift(int64_t t, int64_t months) {
  Civil c = ToCivil(t);
  int64_t k = 12 * c.y + c.m - 1 + months;
  int64_t y = FloorDiv(k, 12);
  return (MonthStart(y, (int)(k - 12 * y) + 1) + c.d - 1) * 86400 + c.q;
}

int64_t AnyTime(Gen& g) {
  switch (g.Int(0, 5)) {
    case 0: return g.I64(-100, 100);
    case 1: return g.I64(0, 4102444800ll);
    case 2: return g.I64(-50000000000ll, 50000000000ll);
    case 3: {  // near the ends of months
      int64_t y = g.I64(1890, 2110);
      int m = g.Int(1, 12);
      return (MonthStart(y, m) + Len(y, m) - g.Int(0, 3)) * 86400 + g.I64(-2, 86401);
    }
    case 4: return 1483228800 + g.I64(-400, 400) * 86400;
    default: return (MonthStart(g.Pick<int64_t>({1600, 1700, 1900, 2000, 2004, 2100, 2400}), g.Int(1, 4)) + g.Int(-2, 31)) * 86400 + g.I64(0, 86399);
  }
}

void Times(Gen& g) {
  int64_t t = AnyTime(g);
  double h;
  if (g.Hint("timestamp_sec", &h) && std::fabs(h) < 1e12) t = (int64_t)h;
  int months = g.Pick({0, 1, -1, 2, 3, 6, 11, 12, 13, -12, -13, 24, g.Int(-40, 40), g.Int(-3000, 3000)});
  if (g.Hint("months", &h) && std::fabs(h) < 1e5) months = (int)h;
  Note(Str("time ", t, " months ", months, "\n"));
  int64_t want = Shift(t, months);
  int64_t got = AddMonthsToTimestampSec(t, months);
  Check(got == want, Str("AddMonthsToTimestampSec: ", got, " instead of ", want));
  absl::Duration frac = absl::Nanoseconds(g.Pick({0, 0, 1, 500000000, 999999999}));
  absl::Time r = AddMonthsToTime(absl::FromUnixSeconds(t) + frac, months);
  Check(r == absl::FromUnixSeconds(want), Str("AddMonthsToTime: ", absl::FormatTime(r, absl::UTCTimeZone()), " instead of second ", want));
}

void Parsing(Gen& g) {
  int64_t t = g.I64(-60000000000ll, 200000000000ll);
  Civil c = ToCivil(t);
  if (g.P(0.3)) {
    c.q = 0;
  }
  char date[64], tod[32], off[16];
  snprintf(date, sizeof date, "%04lld-%02d-%02d", (long long)c.y, c.m, c.d);
  snprintf(tod, sizeof tod, "%02d:%02d:%02d", (int)(c.q / 3600), (int)(c.q / 60 % 60), (int)(c.q % 60));
  int oh = g.Pick({0, 0, 1, 5, 12, 23}), om = g.Pick({0, 0, 30, 45, 59});
  bool neg = g.P(0.5);
  snprintf(off, sizeof off, "%c%02d:%02d", neg ? '-' : '+', oh, om);
  int64_t shift = (neg ? -1 : 1) * (oh * 3600 + om * 60);
  int64_t day0 = MonthStart(c.y, c.m) + c.d - 1;
  std::string s;
  int64_t want = 0;
  bool ok = true;
  switch (g.Int(0, 9)) {
    case 0: s = date; want = day0 * 86400; break;
    case 1: s = Str(date, " ", off); want = day0 * 86400 - shift; break;
    case 2: s = Str(date, " ", tod); want = day0 * 86400 + c.q; break;
    case 3: s = Str(date, " ", tod, " ", off); want = day0 * 86400 + c.q - shift; break;
    case 4: s = Str(date, "T", tod, off); want = day0 * 86400 + c.q - shift; break;
    case 5: s = Str(date, "T", tod, "Z"); want = day0 * 86400 + c.q; break;
    case 6: {
      int m = g.Int(1, 12);
      char b[64];
      snprintf(b, sizeof b, "%04d-%02d-%02d", 2001, m, Len(2001, m) + g.Int(1, 3));
      s = g.P(0.5) ? std::string(b) : Str(b, " ", tod);
      ok = false;
      break;
    }
    case 7:
      s = g.Pick<std::string>({Str(date, " ", tod, ".5"), Str(date, " ", tod, " x"), Str(date, "x"), Str("x", date), Str(date, " 24:30:00"), Str(date, " 10:60:00"),
                               Str(date, " 10:20"), Str(date, " 10"), "", "now", "2020", "2020-01", "2020-13-01", "2020-00-10", "2020-01-00", "01/02/2020", "20200102T", Str(date, " ", off, " ", tod)});
      ok = false;
      break;
    case 8:
      s = g.Pick<std::string>({Str(date, "T", tod), Str(date, "/", tod), Str(date, " ", tod, " +1"), Str(date, " +99:00:00"), Str(date, ",", tod), Str("date ", date),
                               Str(date, " ", tod, " UTC"), Str(date, " UTC"), Str(date, " ", tod, " ", off, off)});
      ok = false;
      break;
    default:
      s = date;
      want = day0 * 86400;
  }
  Note(Str("ParseTime \"", s, "\"\n"));
  auto r = ParseTime(s);
  Check(r.ok() == ok, r.ok() ? Str("accepted as ", absl::FormatTime(r.value(), absl::UTCTimeZone())) : "rejected");
  if (ok) Check(r.value() == absl::FromUnixSeconds(want), Str("parsed as ", absl::FormatTime(r.value(), absl::UTCTimeZone()), " instead of second ", want));
  // formatting
  Civil f = ToCivil(t);
  char b[96];
  snprintf(b, sizeof b, "%lld-%02d-%02d %02d:%02d:%02d", (long long)f.y, f.m, f.d, (int)(f.q / 3600), (int)(f.q / 60 % 60), (int)(f.q % 60));
  if (f.y >= 1000) {
    std::string out = FormatTimeUTC(absl::FromUnixSeconds(t));
    Check(out == b, Str("FormatTimeUTC(", t, ") = ", out, " instead of ", b));
  }
}

// ---------------------------------------------------------------- U01
OhlcTick AnyTick(Gen& g, int i) {
  OhlcTick t;
  if (g.P(0.1)) return t;  // an empty message
  t.set_timestamp_sec(g.P(0.5) ? 1483228800 + 300 * i : g.I64(0, 1ll << 40));
  if (g.P(0.8)) {
    t.set_open((float)g.Real(0, 1000));
    t.set_high((float)g.Real(0, 1000));
    t.set_low((float)g.Real(0, 1000));
    t.set_close((float)g.Real(0, 1000));
  }
  if (g.P(0.6)) t.set_volume((float)g.Real(0, 1000));
  return t;
}
bool Same(const OhlcTick& a, const OhlcTick& b) { return a.SerializeAsString() == b.SerializeAsString(); }
bool Prefix(const std::vector<OhlcTick>& a, const std::vector<OhlcTick>& b) {
  if (a.size() > b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!Same(a[i], b[i])) return false;
  return true;
}

// zlib itself finds an error in the data (data that merely ends early is not distinguishable from an end by the library in use)
bool Corrupt(const std::string& d) {
  z_stream z;
  memset(&z, 0, sizeof z);
  inflateInit2(&z, 15 + 32);
  z.next_in = (Bytef*)d.data();
  z.avail_in = d.size();
  static char buf[1 << 16];
  int r = Z_OK;
  while (r == Z_OK) {
    z.next_out = (Bytef*)buf;
    z.avail_out = sizeof buf;
    r = inflate(&z, Z_NO_FLUSH);
  }
  inflateEnd(&z);
  return r == Z_DATA_ERROR || r == Z_NEED_DICT;
}

// accepts a number of bytes, then fails
struct FailingBuf : std::streambuf {
  explicit FailingBuf(size_t n) : room(n) {}
  size_t room, lost = 0;
  std::string data;
  int overflow(int c) override {
    if (c == EOF) return 0;
    if (room == 0) {
      ++lost;
      return EOF;
    }
    --room;
    data.push_back((char)c);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    std::streamsize k = std::min<std::streamsize>(n, room);
    data.append(s, k);
    room -= k;
    lost += n - k;
    return k;
  }
};
// accepts everything, fails when it is synchronised
struct FailingSync : std::stringbuf {
  int sync() override { return -1; }
};
// delivers a number of bytes, then throws
struct FailingIn : std::streambuf {
  FailingIn(const std::string& s, size_t n) : data(s), left(std::min(n, s.size())) {}
  std::string data;
  size_t left, pos = 0;
  bool thrown = false;
  int underflow() override {
    if (pos >= left) {
      thrown = true;
      throw std::runtime_error("i/o error");
    }
    size_t n = std::min<size_t>(left - pos, 64);
    setg(&data[pos], &data[pos], &data[pos] + n);
    pos += n;
    return traits_type::to_int_type(*gptr());
  }
};

void Messages(Gen& g) {
  std::vector<OhlcTick> msgs;
  int n = g.Pick({0, 1, 2, 3, g.Int(0, 40), g.Int(0, 40), g.P(0.05) ? g.Int(1000, 30000) : 5});
  for (int i = 0; i < n; ++i) msgs.push_back(AnyTick(g, i));
  bool compress = g.P(0.6);
  Note(Str(n, " messages, ", compress ? "compressed" : "not compressed", "\n"));
  std::string data;
  {
    std::ostringstream o;
    absl::Status s = WriteDelimitedMessagesToOStream(msgs.begin(), msgs.end(), o, compress);
    Check(s.ok(), Str("writing to a string fails: ", s.ToString()));
    data = o.str();
  }
  auto read = [](const std::string& d, std::vector<OhlcTick>& out) {
    std::istringstream i(d);
    return ReadDelimitedMessagesFromIStream<OhlcTick>(i, out);
  };
  {
    std::vector<OhlcTick> out;
    absl::Status s = read(data, out);
    Check(s.ok(), Str("reading back fails: ", s.ToString()));
    Check(out.size() == msgs.size(), Str("read back ", out.size(), " messages"));
    Check(Prefix(out, msgs), "the messages differ after a round trip");
  }
  {  // the reader stops or fails
    int at = g.Int(0, n + 1), kind = g.Int(0, 2), calls = 0;
    Note(Str("reader ", kind == 0 ? "continues" : kind == 1 ? "breaks" : "fails", " at message ", at, "\n"));
    std::vector<OhlcTick> out;
    std::istringstream i(data);
    absl::Status s = ReadDelimitedMessagesFromIStream<OhlcTick>(i, [&](const OhlcTick& m) -> ReaderStatus {
      out.push_back(m);
      if (calls++ == at) {
        if (kind == 1) return ReaderSignal::kBreak;
        if (kind == 2) return absl::InternalError("reader");
      }
      return ReaderSignal::kContinue;
    });
    bool hit = at < n && kind != 0;
    Check((int)out.size() == (hit ? at + 1 : n), Str("the reader was called ", out.size(), " times"));
    Check(Prefix(out, msgs), "the reader got other messages");
    Check(s.ok() == !(hit && kind == 2), Str("the status is ", s.ToString()));
  }
  if (data.size() > 0) {
    for (int k = 0; k < 20; ++k) {  // corruption
      std::string d = data;
      size_t p = g.P(0.5) ? g.I64(0, d.size() - 1) : d.size() - 1 - g.I64(0, std::min<size_t>(d.size() - 1, 30));
      int bit = g.Int(0, 7);
      d[p] ^= 1 << bit;
      std::vector<OhlcTick> out;
      absl::Status s = read(d, out);
      if (!Corrupt(d)) continue;
      Check(!s.ok(),
            Str("bit ", bit, " of byte ", p, " of ", d.size(), " flipped: success with ", out.size(), " messages of ", msgs.size()));
    }
    for (int k = 0; k < 8; ++k) {  // truncation
      size_t len = g.I64(0, data.size() - 1);
      std::vector<OhlcTick> out;
      absl::Status s = read(data.substr(0, len), out);
      Check(Prefix(out, msgs), Str("truncated to ", len, " of ", data.size(), " bytes: other messages"));
      (void)s;
    }
    {  // garbage
      std::string d(g.Int(1, 60), 0);
      for (char& c : d) c = (char)g.Int(0, 255);
      if (g.P(0.2) && d.size() > 6) d[0] = 0x78, d[1] = (char)0xbb;  // needs a dictionary
      if (Corrupt(d)) {
        std::vector<OhlcTick> out;
        absl::Status s = read(d, out);
        Check(!s.ok(), "garbage is read successfully");
      }
    }
    {  // well compressed, but the last message is incomplete
      std::string raw;
      std::vector<size_t> ends = {0};
      for (const OhlcTick& m : msgs) {
        std::string b = m.SerializeAsString();
        raw.push_back((char)b.size());
        raw += b;
        ends.push_back(raw.size());
      }
      size_t len = g.I64(0, raw.size());
      if (g.P(0.5)) len = ends[g.Int(0, n)];
      if (g.P(0.3) && len > 0) --len;
      size_t whole = 0;
      while (whole + 1 < ends.size() && ends[whole + 1] <= len) ++whole;
      std::ostringstream o;
      {
        google::protobuf::io::OstreamOutputStream out(&o);
        google::protobuf::io::GzipOutputStream z(&out);
        google::protobuf::io::CodedOutputStream c(&z);
        c.WriteRaw(raw.data(), (int)len);
      }
      std::vector<OhlcTick> out;
      absl::Status s = read(o.str(), out);
      Note(Str("payload of ", len, " of ", raw.size(), " bytes\n"));
      Check(out.size() == whole && Prefix(out, msgs), Str("an incomplete payload gives ", out.size(), " of ", whole, " messages"));
      Check(s.ok() == (ends[whole] == len), Str("an incomplete payload gives ", s.ToString()));
    }
    {  // i/o errors while reading
      size_t len = g.I64(0, data.size() - 1);
      FailingIn b(data, len);
      std::istream i(&b);
      std::vector<OhlcTick> out;
      absl::Status s = ReadDelimitedMessagesFromIStream<OhlcTick>(i, out);
      Check(Prefix(out, msgs), "other messages after an i/o error");
      Check(!s.ok() || !b.thrown || out.size() == msgs.size(), Str("success although reading failed after ", len, " bytes; ", out.size(), " messages of ", msgs.size()));
    }
  }
  {  // i/o errors while writing
    size_t room = g.P(0.3) ? data.size() : g.I64(0, data.size() + 5);
    FailingBuf b(room);
    std::ostream o(&b);
    absl::Status s = WriteDelimitedMessagesToOStream(msgs.begin(), msgs.end(), o, compress);
    std::vector<OhlcTick> out;
    bool complete = b.lost == 0 && read(b.data, out).ok() && out.size() == msgs.size();
    Check(s.ok() == complete, Str("writing with room for ", room, " of ", data.size(), " bytes: ", s.ToString()));
    FailingSync fs;
    std::ostream p(&fs);
    Check(!WriteDelimitedMessagesToOStream(msgs.begin(), msgs.end(), p, compress).ok(), "success although the stream cannot be flushed");
  }
  {  // files
    std::string f = "messages.bin";
    if (g.P(0.3)) {
      std::ofstream o(f, std::ios::binary);
      o << std::string(g.Int(0, 3000), 'x');
    }
    absl::Status s = WriteDelimitedMessagesToFile(msgs.begin(), msgs.end(), f, compress);
    Check(s.ok(), Str("writing a file fails: ", s.ToString()));
    std::vector<OhlcTick> out;
    s = ReadDelimitedMessagesFromFile<OhlcTick>(f, out);
    Check(s.ok() && out.size() == msgs.size() && Prefix(out, msgs), Str("reading the file back: ", s.ToString(), ", ", out.size(), " messages"));
    size_t calls = 0;
    s = ReadDelimitedMessagesFromFile<OhlcTick>(f, [&](const OhlcTick& m) -> ReaderStatus {
      Check(calls < msgs.size() && Same(m, msgs[calls]), "the reader of the file got another message");
      ++calls;
      return ReaderSignal::kContinue;
    });
    Check(s.ok() && calls == msgs.size(), "the reader of the file got fewer messages");
    unlink(f.c_str());
    std::vector<OhlcTick> none;
    Check(!ReadDelimitedMessagesFromFile<OhlcTick>("missing/file", none).ok() && none.empty(), "a missing file is read successfully");
    Check(!ReadDelimitedMessagesFromFile<OhlcTick>(f, none).ok() && none.empty(), "a missing file is read successfully");
    Check(!WriteDelimitedMessagesToFile(msgs.begin(), msgs.end(), "missing/file", compress).ok(), "writing to a missing folder succeeds");
    Check(access(f.c_str(), F_OK) != 0, "reading created a file");
  }
}
}  // namespace

void replay::RunCase(const std::string& prop, Gen& g, uint64_t index) {
  if (prop == "U01") {
    Messages(g);
  } else if (prop == "U03") {
    if (g.P(0.6)) Times(g);
    else Parsing(g);
  } else {
    throw Fail{"no such property"};
  }
}
int main(int argc, char** argv) {
  setenv("TZ", "America/New_York", 1);
  tzset();
  return replay::Main(argc, argv);
}
