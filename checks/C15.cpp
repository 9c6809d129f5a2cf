// Days, dates, times of day, intervals: every conversion agrees with the calendar and with its inverse.
// flavour: asan
#include "dss.h"
#include "cal.h"
extern "C" {
#include "heclibDate.h"
#include "standardIntervals.h"
}
using namespace dss; using namespace mc; using std::string; using std::vector; typedef long long ll;
static const char* const LONG[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static string upperS(string s) { for (auto& c : s) if (c >= 'a' && c <= 'z') c -= 32; return s; }
static string year4(ll y) { return y >= 0 ? strf("%04lld", y) : strf("%lld", y); }
// the table of date styles, written out independently; `alt` gets the other form where the table and its neighbours disagree
static string fmt(int style, ll y, int m, int d, string* alt = nullptr) {
  string yy = strf("%02lld", y % 100), yyyy = year4(y), s; if (style == -13) return strf("%s-%02d-%02d", yyyy.c_str(), m, d);
  if (style < 0) { string Y = style < -100 ? yyyy : yy; int b = style < -100 ? style + 100 : style; const char* sep = b == -2 || b == -12 ? "-" : "/"; return b < -10 ? strf("%02d%s%02d%s%s", m, sep, d, sep, Y.c_str()) : strf("%d%s%d%s%s", m, sep, d, sep, Y.c_str()); }
  bool up = style >= 100; int t = style % 100; string Y = t >= 10 ? yy : yyyy, L = LONG[m - 1], M = cal::mon(m);
  switch (t % 10) { case 0: s = L + strf(" %d, ", d) + Y; break; case 1: s = M + strf(" %d, ", d) + Y; break; case 2: s = strf("%d ", d) + L + " " + Y; if (alt && style == 112) *alt = upperS(strf("%d ", d) + M + " " + Y); break; case 3: s = L + " " + Y; break; case 4: s = strf("%02d", d) + M + Y; break; case 5: s = strf("%d", d) + M + Y; if (alt && style == 115) *alt = upperS(strf("%02d", d) + M + Y); break; case 6: s = M + Y; break; case 7: s = strf("%02d ", d) + M + " " + Y; break; case 8: s = strf("%d ", d) + M + " " + Y; break; case 9: s = M + " " + Y; break; }
  return up ? upperS(s) : s; }
static const int STYLES[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, -1, -2, -11, -12, -101, -102, -111, -112, -13}; static const int NS = sizeof STYLES / sizeof *STYLES;
static bool hasDay(int s) { int b = s % 10; return s < 0 || !(b == 3 || b == 6 || b == 9); }
static bool fullYear(int s) { return s == -13 || s < -100 || (s >= 0 && s % 100 < 10); }
// a buffer of exactly n bytes (the sanitizer sees any other byte touched)
struct Buf { char* p; size_t n; Buf(size_t n) : p((char*)malloc(n ? n : 1)), n(n) { memset(p, '#', n ? n : 1); } ~Buf() { free(p); } };
static void days(ll from, ll to, const string& key) { ll y; int m, d; cal::civil(from, y, m, d); int wd = (int)(((from % 7) + 7) % 7) + 1;   // julian 0 = Sunday 31 Dec 1899
  for (ll j = from; j < to; j++) { int Y = 0, M = 0, D = 0; int rc = julianToYearMonthDay((int)j, &Y, &M, &D); if (rc) { fail(key, "converting day %lld (%02d%s%lld) returned %d", j, d, cal::mon(m), y, rc); return; } if (Y != y || M != m || D != d) { fail(key, "day %lld is %02d%s%lld, converted to day %d month %d year %d", j, d, cal::mon(m), y, D, M, Y); return; } int k = yearMonthDayToJulian((int)y, m, d); if (k != j) { fail(key, "%02d%s%lld is day %lld, converted to %d", d, cal::mon(m), y, j, k); return; } if (dayOfWeek((int)j) != wd) { fail(key, "%02d%s%lld (day %lld) is day %d of the week, got %d", d, cal::mon(m), y, j, wd, dayOfWeek((int)j)); return; } if (m == 1 && d == 1 && !!isLeapYear((int)y) != cal::leap(y)) { fail(key, "leap year %lld", y); return; }
    if (++d > cal::dim(y, m)) { d = 1; if (++m > 12) { m = 1; y++; } } if (++wd > 7) wd = 1; } transition(to - from); }
static string showTime(ll abs) { return cal::date(abs) + " " + cal::time(abs); }
// the time the library says, as absolute seconds; midnight must be 24:00 of the day it ends
static bool clean(int s) { return s >= 1 && s <= 86400; }
int main(int argc, char** argv) {
  Check c; c.id = "C15"; c.level = "model_checking"; c.assumptions = {"none: the conversions are called directly, with the calendar worked out independently"};
  c.build = [](bool th, std::vector<Family>& fs) {
    { ll A = th ? -2100000000LL : -1000000, B = th ? 2100000000LL - 693960 : 12000000; ll step = th ? 1000000 : 20000; Family f; f.name = "days"; f.n = (B - A + step - 1) / step; f.chunk = 8; f.timeoutS = 200; f.rule = strf("every day from day %lld to day %lld: day number to year, month, day and back, day of the week, leap years", A, B); f.describe = [=](uint64_t i) { return strf("days %lld..", A + (ll)i * step); }; f.run = [=](uint64_t i) { days(A + (ll)i * step, std::min(B, A + (ll)(i + 1) * step), strf("days:%lld", A + (ll)i * step)); }; fs.push_back(f); }
    { int W = th ? 1300 : 500, DD = th ? 800 : 400; static const int Y[] = {1999, 2000, 1900, 1, 0, 5, 4, -1, 9999, 3000, 400, 1601}; Family f; f.name = "months-days"; f.n = 12ull * (2 * W + 1); f.chunk = 64; f.rule = strf("12 years x months -%d..%d x days -%d..%d: months and days beyond their range carry over", W, W, DD, DD); f.describe = [=](uint64_t i) { int y = Y[digit(i, 12)]; return strf("year %d month %d", y, (int)i - W); };
      f.run = [=](uint64_t i) { string key = strf("months-days:%llu", (unsigned long long)i); int y = Y[digit(i, 12)], m = (int)i - W; ll mm = (ll)y * 12 + m - 1, yy = cal::floordiv(mm, 12); ll base = cal::julian(yy, (int)(mm - yy * 12) + 1, 1); for (int d = -DD; d <= DD; d++) { transition(); ll j = yearMonthDayToJulian(y, m, d); if (j != base + d - 1) { fail(key, "year %d month %d day %d is day %lld, got %lld", y, m, d, base + d - 1, j); return; } } }; fs.push_back(f); }
    { vector<int> YS; for (int y = 1; y <= 9999; y++) if (th || y <= 130 || (y >= 1890 && y <= 2110) || y % 250 < 2 || y > 9960) YS.push_back(y); Family f; f.name = "styles"; f.n = YS.size(); f.chunk = 4; f.timeoutS = 120; f.rule = string(th ? "every day of the years 1..9999" : "every day of the years 1..130, 1890..2110, 9961..9999 and two in each 250 others") + " in each of the 49 date styles: as the table has it, and read back (from upper, lower and mixed case) where the style has the full year"; f.describe = [=](uint64_t i) { return strf("year %d", YS[i]); };
      f.run = [=](uint64_t i) { ll y = YS[i]; string key = strf("styles:%lld", y); char b[40]; for (int m = 1; m <= 12; m++) for (int d = 1; d <= cal::dim(y, m); d++) { int j = (int)cal::julian(y, m, d); for (int s = 0; s < NS; s++) { int st = STYLES[s]; string alt, w = fmt(st, y, m, d, &alt); transition(); memset(b, '#', sizeof b); int rc = yearMonthDayToDate((int)y, m, d, st, b, sizeof b); if (w != b && (alt.empty() || alt != b)) { fail(key, "%02d%s%lld in style %d is '%s', expected '%s'", d, cal::mon(m), y, st, b, w.c_str()); return; } if (rc != (int)strlen(b)) { fail(key, "length %d returned for '%s'", rc, b); return; }
            if (st == 4 || d == 1) { char q[40]; int r2 = julianToDate(j, st, q, sizeof q); if (strcmp(q, b) || r2 != rc) { fail(key, "day %d in style %d is '%s', but '%s' from its year, month and day", j, st, q, b); return; } }
            if (!fullYear(st)) continue; int day = hasDay(st) ? d : 0; string t[3] = {b, upperS(b), b}; for (auto& ch : t[2]) ch = tolower(ch); for (int v = 0; v < (d % 9 == 1 ? 3 : 1); v++) { int Y = -1, M = -1, D = -1; rc = hec_dss_dateToYearMonthDay(t[v].c_str(), &Y, &M, &D); if (rc || Y != y || M != m || D != day) { fail(key, "'%s' read as day %d month %d year %d (%d)", t[v].c_str(), D, M, Y, rc); return; } if (y >= 100 || t[v].size() != 7) { int k = hec_dss_dateToJulian(t[v].c_str()), e = day ? j : (int)cal::julian(y, m, 1); if (k != e) { fail(key, "'%s' is day %d, read as %d", t[v].c_str(), e, k); return; } } } } } }; fs.push_back(f); }
    { int W = th ? 30000 : 12000; Family f; f.name = "far-years"; f.n = (uint64_t)W + 999 - 9999 + 200; f.n = (uint64_t)(W - 10000 + 1) + 999; f.chunk = 32; f.rule = strf("every day of the years -999..-1 and 10000..%d, in the styles of records (02Jun12345, 2Jun12345, 02Jun-500): written and read back", W); f.describe = [](uint64_t i) { return strf("year %lld", (ll)i < 999 ? (ll)i - 999 : (ll)i - 999 + 10000); };
      f.run = [](uint64_t i) { ll y = (ll)i < 999 ? (ll)i - 999 : (ll)i - 999 + 10000; string key = strf("far-years:%lld", y); for (int m = 1; m <= 12; m++) for (int d = 1; d <= cal::dim(y, m); d++) for (int st : {4, 104, 5}) { if (st == 5 && y < 0) continue; transition(); char b[40]; int j = (int)cal::julian(y, m, d); julianToDate(j, st, b, sizeof b); int Y = 0, M = 0, D = 0; int rc = dateToYearMonthDay(b, &Y, &M, &D); if (rc || Y != y || M != m || D != d) { fail(key, "%02d%s%lld, written as '%s', read as day %d month %d year %d (%d)", d, cal::mon(m), y, b, D, M, Y, rc); return; } if (dateToJulian(b) != j) { fail(key, "'%s' is day %d, read as %d", b, j, dateToJulian(b)); return; } } }; fs.push_back(f); }
    { Family f; f.name = "date-buffers"; f.n = NS * 34ull; f.chunk = 64; f.rule = "every style x buffers of 0..33 bytes x a short and a long date: what fits, terminated, and nothing beyond the buffer; undefined days and impossible months and days refused"; f.describe = [](uint64_t i) { int s = STYLES[digit(i, NS)]; return strf("style %d, %llu bytes", s, (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("date-buffers:%llu", (unsigned long long)i); int st = STYLES[digit(i, NS)]; size_t n = i; for (auto& ymd : {std::make_pair(2003, 9), std::make_pair(2015, 5), std::make_pair(987, 12)}) for (int d : {3, 30}) { transition(); char full[60]; int L = yearMonthDayToDate(ymd.first, ymd.second, d, st, full, sizeof full); Buf b(n); int rc = yearMonthDayToDate(ymd.first, ymd.second, d, st, b.p, n); if (!n) { if (rc != 0) fail(key, "returned %d for no buffer", rc); continue; } string w = string(full).substr(0, n - 1); if (strnlen(b.p, n) >= n || w != b.p || rc != (int)w.size()) { fail(key, "'%s' (length %d) into %zu bytes gave '%.*s', %d", full, L, n, (int)strnlen(b.p, n), b.p, rc); return; } Buf q(n); julianToDate((int)cal::julian(ymd.first, ymd.second, d), st, q.p, n); if (strnlen(q.p, n) >= n || w != q.p) { fail(key, "day number into %zu bytes", n); return; } }
        if (n) { Buf b(n); if (julianToDate(UNDEFINED_TIME, st, b.p, n) != -1 || strnlen(b.p, n) >= n) fail(key, "an undefined day"); for (auto& md : {std::make_pair(0, 3), std::make_pair(13, 3), std::make_pair(5, 0), std::make_pair(5, 32), std::make_pair(-1, 1), std::make_pair(1, -1)}) if (yearMonthDayToDate(2000, md.first, md.second, st, b.p, n) != -1) fail(key, "month %d day %d accepted", md.first, md.second); } }; fs.push_back(f); }
    { static const char* const T[] = {"0", "1", "3", "9", "00", "99", "1985", "/", "-", " ", ":", ",", "Jun", "JANUARY", "may", "x"}; int K = 16, D = th ? 7 : 5; Family f; f.name = "date-texts"; f.n = (seqCount(K, 0, D) + 255) / 256; f.chunk = 32; f.rule = strf("every text made of up to %d of sixteen pieces (digits, years, separators, month names): either refused, or read as a month 1..12 and a day 0..31, the same in upper and lower case and through the public interface; nothing outside the text touched", D); f.describe = [=](uint64_t i) { string s; for (int k : seqDecode(i * 256, K, 0, D)) s += T[k]; return "texts from '" + s + "'"; };
      f.run = [=](uint64_t blk) { uint64_t tot = seqCount(K, 0, D); for (uint64_t i = blk * 256; i < std::min(tot, (blk + 1) * 256); i++) { string s; for (int k : seqDecode(i, K, 0, D)) s += T[k]; string key = "date-texts:" + s; transition(); Buf b(s.size() + 1); memcpy(b.p, s.c_str(), s.size() + 1); int Y = -7, M = -7, D2 = -7; int rc = dateToYearMonthDay(b.p, &Y, &M, &D2); if (s != b.p) { fail(key, "the text was changed"); return; } if (rc != 0 && rc != -1) { fail(key, "'%s' returned %d", s.c_str(), rc); return; } if (rc == 0 && (M < 1 || M > 12 || D2 < 0 || D2 > 31)) { fail(key, "'%s' accepted as day %d month %d year %d", s.c_str(), D2, M, Y); return; } string u = upperS(s); int Y2 = -7, M2 = -7, D3 = -7; int r2 = hec_dss_dateToYearMonthDay(u.c_str(), &Y2, &M2, &D3); if (r2 != rc || (!rc && (Y2 != Y || M2 != M || D3 != D2))) { fail(key, "'%s' and '%s' are read differently", s.c_str(), u.c_str()); return; } int j = dateToJulian(b.p); if ((j == UNDEFINED_TIME) != (rc != 0)) { fail(key, "'%s' is day %d, though reading it returned %d", s.c_str(), j, rc); return; } Buf b2(s.size() + 1); memcpy(b2.p, s.c_str(), s.size() + 1); int jj, sec; spatialDateTime(b2.p, &jj, &sec); if (s != b2.p) { fail(key, "the text was changed"); return; } } }; fs.push_back(f); }
    { Family f; f.name = "times"; f.n = 1441; f.chunk = 16; f.rule = "every second of the day 0..86400 in the four time styles x milliseconds 0, 1, 9, 10, 76, 100, 999 x buffers of 0..15 bytes: as the table has it, and read back; minutes as hours and minutes"; f.describe = [](uint64_t i) { return strf("minute %llu", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("times:%llu", (unsigned long long)i); { char b[8]; memset(b, '#', 8); minutesToHourMin((int)i, b, 5); if (strf("%02d%02d", (int)i / 60, (int)i % 60) != b || b[5] != '#') { fail(key, "minute %d is '%s'", (int)i, b); return; } }
        for (int s = (int)i * 60; s < std::min(86401, (int)i * 60 + 60); s++) { int h = s / 3600, m = s / 60 % 60, q = s % 60; string w[4] = {strf("%02d%02d", h, m), strf("%02d:%02d", h, m), strf("%02d:%02d:%02d", h, m, q), ""}; for (int st = 0; st < 4; st++) for (int ms : {0, 1, 9, 10, 76, 100, 999}) { if (s == 86400 && ms) continue; if (st < 3 && ms > 1) continue; if (st == 3) w[3] = w[2] + strf(".%03d", ms); static const size_t MIN[] = {5, 6, 9, 13}; for (size_t n = (q == 7 ? 0 : MIN[st]); n <= (q == 7 ? 15 : MIN[st]); n++) { transition(); Buf b(n); secondsToTimeString(s, ms, st, b.p, n); if (n >= MIN[st] && w[st] != b.p) { fail(key, "second %d in style %d is '%.*s', expected '%s'", s, st, (int)strnlen(b.p, n), b.p, w[st].c_str()); return; } }
            float got = timeStringToSecondsMills(w[st].c_str()); double want = st < 2 ? s - q : s + (st == 3 ? ms / 1000. : 0); if (fabs(got - want) > 0.005) { fail(key, "'%s' read as %.4f seconds", w[st].c_str(), got); return; } if (st < 3 && timeStringToSeconds(w[st].c_str()) != (st < 2 ? s - q : s)) { fail(key, "'%s' read as %d seconds", w[st].c_str(), timeStringToSeconds(w[st].c_str())); return; } } } char b[16]; memset(b, 'q', 16); for (int bad : {-1, 86401, 100000}) { secondsToTimeString(bad, 0, 1, b, 16); if (b[0]) fail(key, "second %d accepted", bad); b[0] = 'q'; } }; fs.push_back(f); }
    { static const int G[] = {1, 60, 3600, 86400}; int W = th ? 400000 : 200000; Family f; f.name = "clean-times"; f.n = 4ull * 9 * 64; f.chunk = 32; f.rule = strf("days -3..3, 40000 and -40000 x every time from -%d to %d units, in seconds, minutes, hours and days: the same moment, within its day", W, W); f.describe = [](uint64_t i) { return strf("case %llu", (unsigned long long)i); };
      f.run = [=](uint64_t i) { string key = strf("clean-times:%llu", (unsigned long long)i); int g = G[digit(i, 4)]; static const int J[] = {-3, -2, -1, 0, 1, 2, 3, 40000, -40000}; int j = J[digit(i, 9)]; int per = 86400 / g; for (int t = -W + (int)i; t <= W; t += 64) { if (j == 0 && t == 0) continue; int jj = j, tt = t; transition(); int rc = cleanTime(&jj, &tt, g); if (rc != 1 || tt < 1 || tt > per || (ll)jj * per + tt != (ll)j * per + t) { fail(key, "day %d, %d units of %d s became day %d, %d units (%d)", j, t, g, jj, tt, rc); return; } } int a = UNDEFINED_TIME, b = 5; if (cleanTime(&a, &b, g) != 0 || isTimeDefined(UNDEFINED_TIME, 5) || !isTimeDefined(j, 5) || isTimeDefined(j, -1)) fail(key, "undefined time"); }; fs.push_back(f); }
    { static const int G[] = {1, 60, 3600, 86400}; Family f; f.name = "compare"; f.n = 16ull * 5 * 5; f.chunk = 8; f.rule = "pairs of moments in every pair of units, with and without base dates, from three days before to three days after each other: before, same or after"; f.describe = [](uint64_t i) { return strf("case %llu", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("compare:%llu", (unsigned long long)i); int g1 = G[digit(i, 4)], g2 = G[digit(i, 4)]; static const int B[] = {0, 1, -5, 36524, -36524}; int b1 = B[digit(i, 5)], b2 = B[digit(i, 5)]; auto vals = [](int g) { vector<int> v; int per = 86400 / g; for (int k = -3; k <= 3; k++) for (int e : {0, 1, per / 2, -1}) v.push_back(k * per + e); return v; }; auto v1 = vals(g1), v2 = vals(g2); for (int t1 : v1) for (int t2 : v2) for (int d = -2; d <= 2; d++) { int j1 = 37000 - b1, j2 = 37000 + d - b2; transition(); ll a = (ll)37000 * 86400 + (ll)t1 * g1, b = (ll)(37000 + d) * 86400 + (ll)t2 * g2; int want = a < b ? -1 : a > b, got = compareTimes(j1, t1, b1, g1, j2, t2, b2, g2); if (got != want) { fail(key, "day %d base %d + %d x %d s against day %d base %d + %d x %d s: %d", j1, b1, t1, g1, j2, b2, t2, g2, got); return; } } }; fs.push_back(f); }
    { static const int G[] = {1, 60, 3600, 86400}; int W = th ? 300000 : 100000; Family f; f.name = "date-and-time"; f.n = 4ull * 6 * 64; f.chunk = 32; f.rule = strf("six base dates x every time from -%d to %d units, in seconds, minutes, hours and days, as date and time texts", W, W); f.describe = [](uint64_t i) { return strf("case %llu", (unsigned long long)i); };
      f.run = [=](uint64_t i) { string key = strf("date-and-time:%llu", (unsigned long long)i); int g = G[digit(i, 4)]; static const int B[] = {0, 1, 36524, -36524, 2000000, 109572}; int base = B[digit(i, 6)]; for (int t = -W + (int)i; t <= W; t += 64) { ll abs = (ll)base * 86400 + (ll)t * g; ll y; int m, d; cal::civil(cal::dayOf(abs), y, m, d); if (y < 1 || y > 99999) continue; Buf a(13), b(9); transition(); getDateAndTime(t, g, base, a.p, 13, b.p, 9); string wd = cal::date(abs), wt = cal::time(abs); if (g != 1) wt = wt.substr(0, 2) + wt.substr(3, 2); if (wd != a.p || wt != b.p) { fail(key, "%d units of %d s from day %d is %s, given as '%s' '%s'", t, g, base, showTime(abs).c_str(), a.p, b.p); return; } } }; fs.push_back(f); }
    { int K = th ? 40000 : 12000; Family f; f.name = "since-1970"; f.n = K; f.chunk = 64; f.rule = strf("milliseconds since 1970: %d days from 01Jan1970 x 200 moments of the day", K); f.describe = [](uint64_t i) { return strf("day %llu", (unsigned long long)i); }; f.run = [](uint64_t i) { string key = strf("since-1970:%llu", (unsigned long long)i); for (int k = 0; k < 200; k++) { ll ms = (ll)i * 86400000 + (ll)k * 432000 + (k * 37 % 1000); if (k == 199) ms = (ll)i * 86400000 + 86399999; Buf a(13), b(13); millsToDateTime(ms, a.p, b.p, 13, 13); ll r = ms % 86400000; string wd = cal::dateStr((ll)i + 25568), wt = strf("%02lld:%02lld:%02lld.%03lld", r / 3600000, r / 60000 % 60, r / 1000 % 60, r % 1000); transition(); if (wd != a.p || wt != b.p) { fail(key, "%lld ms is %s %s, given as '%s' '%s'", ms, wd.c_str(), wt.c_str(), a.p, b.p); return; } } }; fs.push_back(f); }
    { Family f; f.name = "grid-times"; f.n = 1441; f.chunk = 16; f.rule = "times of grids (01DEC2016:0830): every minute 0000..2400 x 40 dates, in upper and mixed case"; f.describe = [](uint64_t i) { return strf("minute %llu", (unsigned long long)i); }; f.run = [](uint64_t i) { string key = strf("grid-times:%llu", (unsigned long long)i); for (int k = 0; k < 40; k++) { int j = 36000 + k * 379 - (k % 2) * 70000; string d = cal::dateStr(j); if (k % 3) d = upperS(d); string s = d + strf(":%02d%02d", (int)i / 60, (int)i % 60); Buf b(s.size() + 1); memcpy(b.p, s.c_str(), s.size() + 1); int jj = 0, sec = 0; transition(); int rc = spatialDateTime(b.p, &jj, &sec); if (rc || jj != j || sec != (int)i * 60) { fail(key, "'%s' read as day %d second %d (%d)", s.c_str(), jj, sec, rc); return; } } }; fs.push_back(f); }
    { auto& I = cal::intervals(); int N = I.size(), P = th ? 400 : 120; static const int START[] = {36524, 36525 + 58, -1, 1, -36890, 0, 109000, -640000, 25568, 51544, 36159 - 40, 2000000}; Family f; f.name = "increment"; f.n = (uint64_t)N * 12; f.chunk = 2; f.timeoutS = 120; f.rule = strf("each of the %d standard intervals x 12 starting points x 60 successive periods x -%d..%d periods: the end of the right period; and counting the periods between the two gives the number back; steps compose", N, P, P); f.describe = [=](uint64_t i) { return strf("%s from day %d", I[i % N].name, START[i / N]); };
      f.run = [=](uint64_t i) { string key = strf("increment:%llu", (unsigned long long)i); const cal::Iv& v = I[digit(i, N)]; ll k0 = cal::slotOf(v, (ll)START[i] * 86400); for (ll k = k0; k < k0 + 60; k++) { ll a = cal::slotTime(v, k); for (int n = -P; n <= P; n++) { ll b = cal::slotTime(v, k + n); int j, s; transition(); int rc = incrementTime(v.secs, n, (int)cal::dayOf(a), (int)cal::secOf(a), &j, &s); if (rc || !clean(s) || (ll)j * 86400 + s != b) { fail(key, "%s: %s plus %d periods is %s, got day %d second %d (%s) %d", v.name, showTime(a).c_str(), n, showTime(b).c_str(), j, s, showTime((ll)j * 86400 + s).c_str(), rc); return; } int c = hec_dss_numberPeriods(v.secs, (int)cal::dayOf(a), (int)cal::secOf(a), (int)cal::dayOf(b), (int)cal::secOf(b)); if (c != n) { fail(key, "%s: from %s to %s are %d periods, got %d", v.name, showTime(a).c_str(), showTime(b).c_str(), n, c); return; } } } int j, s; for (int bad : {0, -1, -86400}) if (incrementTime(bad, 1, 5, 5, &j, &s) != -1) fail(key, "interval %d accepted", bad); }; fs.push_back(f); }
    { auto& I = cal::intervals(); int N = I.size(); Family f; f.name = "offsets"; f.n = (uint64_t)N * 24; f.chunk = 4; f.timeoutS = 120; f.rule = "each standard interval x days of 24 years (leap and not, from 1 to 9999) x times of day: the period a moment is in, its offset, and going to the end of the period and back by the offset; adding whole periods keeps the offset (up to a day; for longer intervals the day in the period)"; static const int Y[] = {2000, 2001, 1999, 1900, 1899, 1904, 1904, 1, 4, 5, 9999, 2400, 1600, 1700, 3000, 1800, 2024, 2023, 1850, 1896, 401, 1582, 99, 100}; f.describe = [=](uint64_t i) { return strf("%s in %d", I[i % N].name, Y[i / N]); };
      f.run = [=](uint64_t i) { string key = strf("offsets:%llu", (unsigned long long)i); const cal::Iv& v = I[digit(i, N)]; int y = Y[i]; ll j0 = cal::julian(y, 1, 1), j1 = cal::julian(y + 1, 1, 1); for (ll j = j0; j < j1; j++) { ll yy; int m, d; cal::civil(j, yy, m, d); vector<int> S = {1, 5, 60, 61, 3599, 3600, 28800, 43199, 43200, 54321, 86399, 86400}; for (int s : S) { ll a = j * 86400 + s, e = cal::slotTime(v, cal::slotOf(v, a)), b = cal::slotTime(v, cal::slotOf(v, a) - 1); transition(); int off = ztsOffset(v.secs, (int)j, s); int jj = (int)j, ss = s; int off2 = ztsOffsetAdjustToStandard(v.secs, &jj, &ss); if (off2 != off) { fail(key, "%s at %s: offset %d, but %d when moved to the end of the period", v.name, showTime(a).c_str(), off, off2); return; } if (!clean(ss) || (ll)jj * 86400 + ss != e) { fail(key, "%s at %s: the period ends %s, got %s", v.name, showTime(a).c_str(), showTime(e).c_str(), showTime((ll)jj * 86400 + ss).c_str()); return; }
            if (v.secs <= 604800) { if (off != (a == e ? 0 : a - b)) { fail(key, "%s at %s: offset %d", v.name, showTime(a).c_str(), off); return; } } else if (a == e && off) { fail(key, "%s at %s, the end of the period: offset %d", v.name, showTime(a).c_str(), off); return; } if (!off) continue;
            if (v.secs == 31536000 && cal::leap(y) && (m == 3 && d == 1 || m == 2 && d == 29)) continue; int q = ztsOffsetAdjustToOffset(off, v.secs, &jj, &ss); if (q || (ll)jj * 86400 + ss != a) { fail(key, "%s at %s: offset %d, but back from the end of the period is %s", v.name, showTime(a).c_str(), off, showTime((ll)jj * 86400 + ss).c_str()); return; } } if (failed()) return; } }; fs.push_back(f); }
    { auto& I = cal::intervals(); int N = I.size(), P = th ? 260 : 60; Family f; f.name = "increment-offset"; f.n = (uint64_t)N * 40; f.chunk = 8; f.timeoutS = 120; f.rule = strf("each standard interval x 5 starting periods x 8 offsets into the period x -%d..%d periods (for months and longer, a day that every month has): the same place in the right period, and counting gives the number back", P, P); f.describe = [=](uint64_t i) { return strf("%s case %d", I[i % N].name, (int)(i / N)); };
      f.run = [=](uint64_t i) { string key = strf("increment-offset:%llu", (unsigned long long)i); const cal::Iv& v = I[digit(i, N)]; static const int ST[] = {36585, -700, 54777, -400, 109500}; ll k0 = cal::slotOf(v, (ll)ST[digit(i, 5)] * 86400); int o = (int)i; ll span = v.secs <= 604800 ? v.secs : v.secs == 864000 ? 7 * 86400 : v.secs == 1296000 ? 12 * 86400 : v.secs == 2592000 ? 27 * 86400 : 0; auto at = [&](ll k) -> ll { if (v.secs == 31536000) { static const int MD[][2] = {{1, 1}, {2, 28}, {3, 2}, {6, 15}, {9, 30}, {10, 1}, {12, 25}, {12, 30}}; return cal::julian(k, MD[o][0], MD[o][1]) * 86400 + 3600 * (o + 17); } ll off = o == 0 ? 1 : o == 7 ? span - 1 : span * o / 8; if (off < 1) off = 1; return cal::slotTime(v, k - 1) + off; };
        for (ll k = k0; k < k0 + 30; k++) { ll a = at(k); for (int n = -P; n <= P; n++) { ll b = at(k + n); int j, s; transition(); int rc = incrementTime(v.secs, n, (int)cal::dayOf(a), (int)cal::secOf(a), &j, &s); if (rc || !clean(s) || (ll)j * 86400 + s != b) { fail(key, "%s: %s plus %d periods is %s, got %s (%d)", v.name, showTime(a).c_str(), n, showTime(b).c_str(), showTime((ll)j * 86400 + s).c_str(), rc); return; } int c = hec_dss_numberPeriods(v.secs, (int)cal::dayOf(a), (int)cal::secOf(a), (int)cal::dayOf(b), (int)cal::secOf(b)); if (c != n) { fail(key, "%s: from %s to %s are %d periods, got %d", v.name, showTime(a).c_str(), showTime(b).c_str(), n, c); return; } } } }; fs.push_back(f); }
    { Family f; f.name = "first-of-march"; f.n = 1; f.rule = "a yearly time on 1 March or 29 February of a leap year: back from the end of the year by its offset"; f.describe = [](uint64_t) { return string("2000"); }; f.run = [](uint64_t) { for (auto md : {std::make_pair(2, 29), std::make_pair(3, 1)}) { ll a = cal::julian(2000, md.first, md.second) * 86400 + 28800; int j = (int)cal::dayOf(a), s = (int)cal::secOf(a); int off = ztsOffsetAdjustToStandard(31536000, &j, &s); ztsOffsetAdjustToOffset(off, 31536000, &j, &s); transition(); if ((ll)j * 86400 + s != a) fail("first-of-march:" + cal::date(a), "a yearly time on %s comes back as %s", showTime(a).c_str(), showTime((ll)j * 86400 + s).c_str()); } }; fs.push_back(f); }
    { Family f; f.name = "interval-names"; f.n = 34ull * 2 + 1; f.chunk = 8; f.rule = "the names of the 34 intervals (DSS 7 and DSS 6 names, any case, cut to 1..all characters where unambiguous) and the irregular ones: to seconds, to the standard name, from seconds; the enumeration of all; unknown names and lengths refused"; f.describe = [](uint64_t i) { return strf("name %llu", (unsigned long long)i); };
      f.run = [](uint64_t i) { string key = strf("interval-names:%llu", (unsigned long long)i); auto& I = cal::intervals(); if (i == 68) { for (int ver : {6, 7}) { vector<std::pair<string, int>> got; int secs = 0, op = BEGIN_ENUMERATION; char b[20]; while (ztsGetStandardInterval(ver, &secs, b, sizeof b, &op) == 0 && got.size() < 60) got.push_back({b, secs}); int irr = 0; size_t reg = 0; for (auto& g : got) { transition(); if (g.second > 0) { reg++; bool ok = false; for (auto& v : I) ok |= v.secs == g.second; if (!ok) fail(key, "interval %d s listed", g.second); } else irr++; } size_t want = 0; for (auto& v : I) want += ver == 7 || v.secs >= 60; if (reg != want || irr != 5 || op == CONTINUE_ENUMERATION) fail(key, "%zu regular and %d irregular intervals listed for version %d", reg, irr, ver); } static const char* const R[] = {"IR-Day", "IR-Month", "IR-Year", "IR-Decade", "IR-Century"}; for (int k = 0; k < 5; k++) for (int up = 0; up < 2; up++) { string n = up ? upperS(R[k]) : R[k]; Buf b(20); strcpy(b.p, n.c_str()); int secs = 0, op = 0; int rc = ztsGetStandardInterval(7, &secs, b.p, 20, &op); transition(); if (rc != 1 || secs != -(k + 1) || strcmp(b.p, R[k])) fail(key, "'%s': %d, %d, '%s'", n.c_str(), rc, secs, b.p); } return; }
        const cal::Iv& v = I[digit(i, 34)]; int ver = i ? 6 : 7; if (ver == 6 && v.secs < 60) return; string full; { char b[20]; int secs = v.secs, op = SECONDS_TO_EPART; int rc = ztsGetStandardInterval(ver, &secs, b, sizeof b, &op); if (rc) { fail(key, "%d seconds: %d", v.secs, rc); return; } full = b; string w = v.name; if (ver == 6) { w = upperS(w); size_t p; if ((p = w.find("MINUTE")) != string::npos) w.resize(p + 3); if (w == "1MONTH") w = "1MON"; } if (full != w) { fail(key, "%d seconds is '%s', expected '%s'", v.secs, full.c_str(), w.c_str()); return; } }
        for (size_t len = std::min<size_t>(full.size(), 6); len <= full.size(); len++) for (int cs = 0; cs < 3; cs++) { string n = full.substr(0, len); if (cs == 1) n = upperS(n); if (cs == 2) for (auto& ch : n) ch = tolower(ch); for (int op0 : {EPART_TO_SECONDS, EPART_TO_SECONDS_TO_EPART}) { Buf b(20); strcpy(b.p, n.c_str()); int secs = -99, op = op0; int rc = ztsGetStandardInterval(ver, &secs, b.p, 20, &op); transition(); string w = op0 == EPART_TO_SECONDS ? n : full; if (rc != 0 || secs != v.secs || w != b.p) { fail(key, "'%s' is %d seconds '%s' (%d)", n.c_str(), secs, b.p, rc); return; } } } for (int bad : {7, 61, 59, 86401, 100000000}) { int secs = bad, op = SECONDS_TO_EPART; char b[20]; if (ztsGetStandardInterval(ver, &secs, b, sizeof b, &op) != -1) fail(key, "%d seconds accepted", bad); } for (const char* bad : {"7Hour", "1Fortnight", "Year", "1Decade", "X"}) { int secs = 5, op = EPART_TO_SECONDS; char b[20]; strcpy(b, bad); if (ztsGetStandardInterval(ver, &secs, b, sizeof b, &op) != -1) fail(key, "'%s' accepted", bad); } }; fs.push_back(f); }
    { auto& I = cal::intervals(); int N = I.size(), P = th ? 500 : 120; Family f; f.name = "periods-between"; f.n = (uint64_t)N * 6; f.chunk = 4; f.timeoutS = 120; f.rule = strf("each standard interval x 6 starting points x %d ends in thirds of a period before and after: the whole periods between any two moments (up to a week), within one of them (longer)", 2 * P); f.describe = [=](uint64_t i) { return strf("%s case %d", I[i % N].name, (int)(i / N)); };
      f.run = [=](uint64_t i) { string key = strf("periods-between:%llu", (unsigned long long)i); const cal::Iv& v = I[digit(i, N)]; static const int ST[] = {36585, -700, 54777, -400, 109500, 2}; ll a0 = (ll)ST[i] * 86400 + 4321; for (int sh = 0; sh < 40; sh++) { ll a = a0 + (ll)sh * v.secs * 2 / 7; for (int k = -P; k <= P; k++) { ll b = a + (ll)k * v.secs / 3; transition(); int c = numberPeriods(v.secs, (int)cal::dayOf(a), (int)cal::secOf(a), (int)cal::dayOf(b), (int)cal::secOf(b)); if (v.secs <= 604800) { if (c != (b - a) / v.secs) { fail(key, "%s: from %s to %s are %lld periods, got %d", v.name, showTime(a).c_str(), showTime(b).c_str(), (b - a) / v.secs, c); return; } } else { ll lo = cal::slotOf(v, b) - cal::slotOf(v, a); if (c < lo - 1 || c > lo + 1) { fail(key, "%s: from %s to %s are about %lld periods, got %d", v.name, showTime(a).c_str(), showTime(b).c_str(), lo, c); return; } } } } }; fs.push_back(f); }
  };
  return run(argc, argv, c);
}
