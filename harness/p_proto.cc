// The line protocol, its framing into datagrams, and the statsd dialect.
#include "common.h"
#include "gen.h"
#include "lines.h"
#include "vclock.h"

namespace {
using namespace vf;
using model::kSec;
using model::Model;

constexpr int64_t kStart = 1700000000LL * kSec;

struct World {
  int64_t cfg_ttl;
  Model m;
  std::unique_ptr<TestRegistry> reg;
  std::unique_ptr<TestServer> srv;
  World(Ctx& c, bool status, bool vary_ttl = true) {
    vclock_set(kStart);
    m.now = kStart;
    cfg_ttl = vary_ttl && c.chance(1, 3) ? c.range(1, 3600) * kSec : 0;
    auto cfg = config(status);
    cfg->meter_ttl = absl::Nanoseconds(cfg_ttl);
    m.ttl = cfg_ttl == 0 ? 15 * 60 * kSec : cfg_ttl;
    m.gauge_ttl = cfg_ttl;
    reg = std::make_unique<TestRegistry>(std::move(cfg), null_logger());
    srv = std::make_unique<TestServer>(reg.get());
    c.trace([&](auto& os) { os << "meter ttl " << (m.ttl / kSec) << " s"; });
  }
  void advance(int64_t ns) {
    vclock_advance(ns);
    m.now += ns;
  }
  void compare(Ctx& c) {
    auto want = m.measure();
    auto got = report(reg->Measurements());
    auto d = model::diff(want, got);
    c.check_f(d.empty(), [&] { return "reported measurements differ from the meaning of the lines:\n" + d; });
  }
};

// time passing: around the ttl boundaries as well as within them
int64_t some_time(Ctx& c, const Model& m) {
  switch (c.weighted({6, 3, 2, 2, 1})) {
    case 0:
      return c.range(0, 4 * kSec);
    case 1:
      return c.range(4 * kSec, 7 * kSec);
    case 2:
      return 5 * kSec + c.range(0, 2) - 1;
    case 3:
      return m.ttl + c.range(0, 2) - 1;
    default:
      return m.ttl + c.range(0, 4000 * kSec);
  }
}

// ---------------------------------------------------------------------------
Reg c01{{"C01",
         "A case is a history of well-formed protocol lines of types c,d,t,m,g[,ttl],T,D,C,U,A over a small pool of "
         "arbitrary names/tags, packed into datagrams and interleaved with reporting intervals, elapsed virtual time "
         "and expiry runs; every report is compared with the reference model. Non-trivial: at least 3 lines, at least "
         "2 meter types, and a report that is not empty.",
         24000, 600000,
         [](Ctx& c) {
           World w(c, false);
           lines::Pool pool;
           std::set<char> kinds;
           size_t nlines = 0, reports = 0;
           bool expired = false;
           while (c.more(14)) {
             Ctx::Span sp(c);
             switch (c.weighted({10, 3, 4, 1})) {
               case 0: {
                 std::string pkt;
                 if (c.chance(1, 250)) {  // many lines, one or many meters
                   auto n = c.range(50, 3000), names = c.flip() ? 1 : c.range(2, 2000);
                   for (int64_t i = 0; i < n; ++i) {
                     auto name = "bulk" + std::to_string(i % names);
                     pkt += (pkt.empty() ? "c:" : "\nc:") + name + ":1";
                     w.m.counter({name, {}}, 1);
                   }
                   c.label("hundreds of lines");
                 }
                 do {
                   char k;
                   auto l = lines::line(c, &pool, &w.m, &k);
                   kinds.insert(k);
                   ++nlines;
                   if (!pkt.empty()) pkt += c.chance(1, 8) ? "\n\n" : "\n";
                   pkt += l;
                 } while (c.more(3));
                 if (c.chance(1, 3)) pkt += "\n";
                 c.trace([&](auto& os) { os << "datagram " << quote(pkt); });
                 auto err = w.srv->feed(pkt);
                 c.check_f(!err, [&] { return "well-formed lines were rejected: " + *err; });
                 break;
               }
               case 1: {
                 c.trace([&](auto& os) { os << "report"; });
                 w.compare(c);
                 ++reports;
                 break;
               }
               case 2: {
                 auto dt = some_time(c, w.m);
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 w.advance(dt);
                 break;
               }
               case 3:
                 c.trace([&](auto& os) { os << "expire"; });
                 w.reg->remove_expired_meters();
                 w.m.expire();
                 expired = true;
                 break;
             }
           }
           c.trace([&](auto& os) { os << "final report"; });
           Model copy = w.m;
           auto want = copy.measure();
           w.compare(c);
           c.nontrivial(nlines >= 3 && kinds.size() >= 2 && !want.empty());
           for (char k : kinds) c.label(std::string("type ").append(1, k).c_str());
           c.label_if(expired, "with expiry");
           c.label_if(reports > 0, "several reports");
         },
         false, true, 8, 60, 60, 700, [] { quiet_logs(); },
         {"the clock of the program is replaced by a virtual one (absl and std::chrono clocks)",
          "values stay inside the range where the conversions to integral nanoseconds are defined"}}};


// ---------------------------------------------------------------------------
model::Report without_registry_size(model::Report r) {
  r.erase(std::remove_if(r.begin(), r.end(),
                         [](const auto& p) { return p.first.rfind("spectator.registrySize|", 0) == 0; }),
          r.end());
  return r;
}

Reg c02{{"C02",
         "A case is a history of datagrams for either parser, with status metrics enabled. Each mixes well-formed "
         "lines with lines from families that the protocol forbids (unknown type, missing separator, name or value, "
         "bad ttl, timestamp, sampling rate or tags), separated by one or more newlines, interleaved with reports, "
         "elapsed virtual time and expiry. Oracle: only the well-formed lines have an effect, the call reports an error "
         "exactly when a line is bad, and spectatord.parsedCount / parseErrors count each line once (also after they "
         "were idle for longer than the meter ttl). Non-trivial: good and bad lines in one datagram, and a report.",
         48000, 600000,
         [](Ctx& c) {
           World w(c, true);
           lines::Pool pool;
           lines::StatsdPool spool;
           model::MId parsed{"spectatord.parsedCount", {}}, errors{"spectatord.parseErrors", {}};
           bool mixed = false, idle = false, both = false;
           int64_t last_line = w.m.now;
           size_t reports = 0;
           while (c.more(10)) {
             Ctx::Span sp(c);
             switch (c.weighted({10, 3, 3, 2})) {
               case 0: {
                 bool statsd = c.chance(1, 3);
                 std::string pkt;
                 int good = 0, bad = 0;
                 do {
                   Ctx::Span sp2(c);
                   std::string l;
                   char k;
                   if (c.chance(1, 3)) {
                     l = statsd ? lines::bad_statsd_line(c, &spool) : lines::bad_line(c, &pool);
                     w.m.counter(errors, 1);
                     ++bad;
                   } else {
                     l = statsd ? lines::statsd_line(c, &spool, &w.m, &k) : lines::line(c, &pool, &w.m, &k);
                     w.m.counter(parsed, 1);
                     ++good;
                   }
                   if (!pkt.empty()) pkt.append(c.chance(1, 6) ? static_cast<size_t>(c.range(2, 4)) : 1, '\n');
                   pkt += l;
                 } while (c.more(4));
                 if (c.chance(1, 3)) pkt.append(static_cast<size_t>(c.range(1, 3)), '\n');
                 c.trace([&](auto& os) {
                   os << (statsd ? "statsd " : "") << "datagram (" << good << " good, " << bad << " bad) " << quote(pkt);
                 });
                 auto err = statsd ? w.srv->feed_statsd(pkt) : w.srv->feed(pkt);
                 c.check_f(err.has_value() == (bad > 0), [&] {
                   return bad > 0 ? std::string("bad lines were accepted") : "well-formed lines were rejected: " + *err;
                 });
                 mixed = mixed || (good > 0 && bad > 0);
                 idle = idle || w.m.now - last_line > w.m.ttl;
                 both = both || statsd;
                 last_line = w.m.now;
                 break;
               }
               case 1: {
                 c.trace([&](auto& os) { os << "report"; });
                 auto d = model::diff(w.m.measure(), without_registry_size(report(w.reg->Measurements())));
                 c.check_f(d.empty(), [&] { return "the report differs from the effect of the good lines:\n" + d; });
                 ++reports;
                 break;
               }
               case 2: {
                 auto dt = some_time(c, w.m);
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 w.advance(dt);
                 break;
               }
               case 3:
                 c.trace([&](auto& os) { os << "expire"; });
                 w.reg->remove_expired_meters();
                 w.m.expire();
                 break;
             }
           }
           auto d = model::diff(w.m.measure(), without_registry_size(report(w.reg->Measurements())));
           c.check_f(d.empty(), [&] { return "the final report differs from the effect of the good lines:\n" + d; });
           c.nontrivial(mixed);
           c.label_if(idle, "lines after the counters were idle for the ttl");
           c.label_if(both, "statsd");
           c.label_if(mixed, "good and bad lines in one datagram");
         },
         false, true, 8, 60, 60, 700, [] { quiet_logs(); },
         {"virtual clock", "datagrams do not start with an empty line and contain no NUL",
          "bad lines come from families that are forbidden by construction, not from all text"}}};

// ---------------------------------------------------------------------------
Reg c03{{"C03",
         "A case is a history of well-formed statsd lines (c, g, h, ms, s; optional @rate in (0,1]; optional #tags with "
         "markers) over a small pool of arbitrary names, with reports, virtual time and expiry; every report is compared "
         "with the reference model (c: value/rate, h and ms: round(1/rate) records, ms: milliseconds, marker: value 1). "
         "Non-trivial: at least 3 lines of at least 2 types, and a report that is not empty.",
         20000, 500000,
         [](Ctx& c) {
           World w(c, false);
           lines::StatsdPool pool;
           std::set<char> kinds;
           size_t n = 0;
           while (c.more(12)) {
             Ctx::Span sp(c);
             switch (c.weighted({10, 3, 3, 1})) {
               case 0: {
                 std::string pkt;
                 do {
                   char k;
                   auto l = lines::statsd_line(c, &pool, &w.m, &k);
                   kinds.insert(k);
                   ++n;
                   if (!pkt.empty()) pkt += "\n";
                   pkt += l;
                 } while (c.more(2));
                 if (c.chance(1, 3)) pkt += "\n";
                 c.trace([&](auto& os) { os << "statsd datagram " << quote(pkt); });
                 auto err = w.srv->feed_statsd(pkt);
                 c.check_f(!err, [&] { return "well-formed lines were rejected: " + *err; });
                 break;
               }
               case 1:
                 c.trace([&](auto& os) { os << "report"; });
                 w.compare(c);
                 break;
               case 2: {
                 auto dt = some_time(c, w.m);
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 w.advance(dt);
                 break;
               }
               case 3:
                 c.trace([&](auto& os) { os << "expire"; });
                 w.reg->remove_expired_meters();
                 w.m.expire();
                 break;
             }
           }
           Model copy = w.m;
           auto want = copy.measure();
           w.compare(c);
           c.nontrivial(n >= 3 && kinds.size() >= 2 && !want.empty());
           for (char k : kinds) c.label(std::string("type ").append(1, k).c_str());
         },
         false, true, 8, 60, 60, 700, [] { quiet_logs(); },
         {"virtual clock", "sampling rates of h and ms are at least 1/2000: the work per line is 1/rate"}}};

// ---------------------------------------------------------------------------
// text with the structure of the protocol, but no validity
std::string junk_datagram(Ctx& c, bool statsd) {
  static const std::vector<const char*> kMain = {
      "c:", "d:", "t:", "g:", "g,", "m:", "A:", "C:", "D:", "T:", "U:", "X,", "X:", ":", ",", "=", "\n", "name",
      "k=v", ",k=v", "1", "-1", "1e308", "nan", "0x1p", "18446744073709551615", "9223372036854775808", "1543160297100:",
      "5:", " ", "\t", "statistic=count", "1e-320", ".", "#", "|", "\r", "{}", "{:d}", "%s", "%n", "\xff\xfe"};
  static const std::vector<const char*> kStatsd = {
      "name:", ":", "|", "c", "g", "h", "ms", "s", "|c", "|ms", "|h", "|#", "#", ",", "k:v", "marker", "1", "-1", "nan",
      "1e308", "\n", "|@0.5|", "|@1|", "|@0.1|", "|@nan|", "|@|", "|@-1|", " ", "{}", "%s", "\r", "\xff"};
  const auto& frags = statsd ? kStatsd : kMain;
  std::string s;
  auto n = c.size(0, 60);
  for (int64_t i = 0; i < n; ++i) {
    switch (c.weighted({12, 3, 1, 1})) {
      case 0:
        s += c.pick(frags);
        break;
      case 1: {
        char ch = static_cast<char>(1 + c.draw(255));
        s += ch == '@' ? '_' : ch;
        break;
      }
      case 2:
        s.append(static_cast<size_t>(c.chance(1, 10) ? c.range(300, 20000) : c.range(1, 300)), c.flip() ? 'a' : '7');
        break;
      case 3: {
        static const std::vector<const char*> kWhole = {"c:n:1\n", "g,5:n,a=b:2\n", "T:p:0.1\n", "n:1|c\n"};
        s += c.pick(kWhole);
        break;
      }
    }
  }
  if (!c.chance(1, 12)) s.erase(0, s.find_first_not_of('\n'));
  if (!s.empty() && c.chance(1, 16)) s[c.draw(s.size())] = '\0';
  if (s.size() > 65535) s.resize(65535);
  return s;
}

Reg c04{{"C04",
         "A case is up to four datagrams of arbitrary bytes (fragments of the protocols, raw bytes, long runs; coverage "
         "guided) given to either parser in an exactly sized heap buffer, with trace logging to a null sink, then a "
         "report. Oracle: AddressSanitizer/UBSan report nothing and the call returns; every reported or registered id "
         "has a name and only Atlas characters; a datagram whose lines are all rejected creates no meter and changes no "
         "reported value. Non-trivial: a datagram of at least two lines or 20 bytes.",
         80000, 1500000,
         [](Ctx& c) {
           World w(c, true, false);
           TestRegistry& reg = *w.reg;
           auto split_counts = [&](model::Report r, double* parsed, double* errors) {
             model::Report rest;
             for (auto& p : r) {
               if (p.first == "spectatord.parsedCount|statistic=count")
                 *parsed = p.second;
               else if (p.first == "spectatord.parseErrors|statistic=count")
                 *errors = p.second;
               else if (p.first.rfind("spectator.registrySize|", 0) != 0)
                 rest.push_back(p);
             }
             return rest;
           };
           double dummy;
           (void)reg.GetCounter("spectatord.parsedCount");
           (void)reg.GetCounter("spectatord.parseErrors");
           reg.Measurements();
           auto packets = c.range(1, 4);
           bool big = false, rejected_all = false;
           for (int64_t i = 0; i < packets; ++i) {
             Ctx::Span sp(c);
             bool statsd = c.chance(1, 3);
             auto pkt = junk_datagram(c, statsd);
             c.trace([&](auto& os) { os << (statsd ? "statsd " : "") << "datagram " << quote(pkt); });
             // gauges and age gauges are reported again at every interval, so
             // the state before is the report of a second measurement
             auto before = split_counts(report(reg.Measurements()), &dummy, &dummy);
             before = split_counts(report(reg.Measurements()), &dummy, &dummy);
             auto size_before = reg.Size();
             auto err = statsd ? w.srv->feed_statsd(pkt) : w.srv->feed(pkt);
             double parsed = 0, errors = 0;
             auto size_after = reg.Size();
             auto ms = reg.Measurements();
             auto after = split_counts(report(ms), &parsed, &errors);
             size_t segments = 0;
             for (size_t p = 0; p < pkt.size();) {
               auto e = pkt.find('\n', p);
               if (e == std::string::npos) e = pkt.size();
               if (e > p) ++segments;
               p = e + 1;
             }
             // an empty line at the start may count, and what stands behind a NUL
             bool nul = pkt.find('\0') != std::string::npos, lead = !pkt.empty() && pkt[0] == '\n';
             c.label_if(nul, "with a NUL");
             c.label_if(lead, "starts with an empty line");
             c.check_f(nul || parsed + errors == static_cast<double>(segments) || (lead && parsed + errors == static_cast<double>(segments + 1)), [&] {
               return "lines: " + std::to_string(segments) + ", parsed: " + dstr(parsed) + ", errors: " + dstr(errors);
             });
             c.check(err.has_value() == (errors > 0), "the result of the call does not tell whether a line was bad");
             if (parsed == 0) {
               rejected_all = rejected_all || errors > 0;
               c.check_f(size_after == size_before,
                         [&] { return "a datagram that was rejected as a whole created meters"; });
               auto d = model::diff(before, after);
               c.check_f(d.empty(), [&] { return "a datagram that was rejected as a whole changed the report:\n" + d; });
             }
             for (auto& m : ms) {
               auto ok = [](const char* s) {
                 return s != nullptr && model::clean(s) == s;
               };
               c.check_f(ok(m.id.Name().Get()) && m.id.Name().Get()[0] != 0,
                         [&] { return "reported name is not valid: " + quote(m.id.Name().Get()); });
               for (auto& t : m.id.GetTags())
                 c.check_f(ok(t.key.Get()) && ok(t.value.Get()), [&] { return std::string("reported tag is not valid"); });
             }
             big = big || segments >= 2 || pkt.size() >= 20;
             c.label_if(statsd, "statsd");
           }
           c.nontrivial(big);
           c.label_if(rejected_all, "a datagram rejected as a whole");
         },
         false, true, 8, 60, 60, 700, [] { quiet_logs(spdlog::level::trace); },
         {"virtual clock", "the lines of datagrams with NUL bytes are not counted; an empty line at the start may count", "sampling rates below 0.1 are left out"}}};

// a single line of a few bytes keeps the parser busy for 1/rate steps
KnownReg tiny_rate{{"statsd-tiny-rate", 2.0, [] {
                      quiet_logs();
                      vclock_set(kStart);
                      TestRegistry reg(config(), null_logger());
                      TestServer srv(&reg);
                      srv.feed_statsd("x:1|h|@1e-9");
                    }}};

}  // namespace
