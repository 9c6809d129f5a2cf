// Independent calendar arithmetic (proleptic Gregorian) and HEC time conventions, used as oracle.
// Absolute time = julian * 86400 + seconds, julian day 1 = 01 Jan 1900; midnight belongs to the day it ends (24:00).
#pragma once
#include "dss.h"
namespace cal {
typedef long long ll;
inline ll floordiv(ll a, ll b) { ll q = a / b; return (a % b && ((a < 0) != (b < 0))) ? q - 1 : q; }
inline ll daysCivil(ll y, int m, int d) { y -= m <= 2; ll era = floordiv(y, 400); ll yoe = y - era * 400; ll doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; ll doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
inline ll julian(ll y, int m, int d) { return daysCivil(y, m, d) + 25568; }
inline void civil(ll jul, ll& y, int& m, int& d) { ll z = jul - 25568 + 719468; ll era = floordiv(z, 146097); ll doe = z - era * 146097; ll yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; ll doy = doe - (365 * yoe + yoe / 4 - yoe / 100); ll mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2; }
inline bool leap(ll y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int dim(ll y, int m) { static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : D[m - 1]; }
inline const char* mon(int m) { static const char* const M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; return M[m - 1]; }
inline ll dayOf(ll abs) { return floordiv(abs - 1, 86400); }      // midnight belongs to the previous day
inline ll secOf(ll abs) { return abs - dayOf(abs) * 86400; }
inline std::string dateStr(ll jul) { ll y; int m, d; civil(jul, y, m, d); return mc::strf("%02d%s%04lld", d, mon(m), y); }
inline std::string date(ll abs) { return dateStr(dayOf(abs)); }
inline std::string time(ll abs) { ll s = secOf(abs); return mc::strf("%02lld:%02lld:%02lld", s / 3600, s / 60 % 60, s % 60); }
struct Iv { const char* name; int secs; };                        // a standard interval
inline const std::vector<Iv>& intervals() { static const std::vector<Iv> v = {{"1Year", 31536000}, {"1Month", 2592000}, {"Semi-Month", 1296000}, {"Tri-Month", 864000}, {"1Week", 604800}, {"1Day", 86400}, {"12Hour", 43200}, {"8Hour", 28800}, {"6Hour", 21600}, {"4Hour", 14400}, {"3Hour", 10800}, {"2Hour", 7200}, {"1Hour", 3600}, {"30Minute", 1800}, {"20Minute", 1200}, {"15Minute", 900}, {"12Minute", 720}, {"10Minute", 600}, {"6Minute", 360}, {"5Minute", 300}, {"4Minute", 240}, {"3Minute", 180}, {"2Minute", 120}, {"1Minute", 60}, {"30Second", 30}, {"20Second", 20}, {"15Second", 15}, {"10Second", 10}, {"6Second", 6}, {"5Second", 5}, {"4Second", 4}, {"3Second", 3}, {"2Second", 2}, {"1Second", 1}}; return v; }
inline const Iv& iv(const std::string& n) { for (auto& i : intervals()) if (n == i.name) return i; abort(); }
// end of period k (end-of-period convention)
inline ll slotTime(const Iv& v, ll k) {
  auto eod = [](ll y, int m, int d) { return (julian(y, m, d) + 1) * 86400; };
  if (v.secs <= 604800) return k * v.secs;
  if (v.secs == 31536000) return eod(k, 12, 31);
  int per = v.secs == 2592000 ? 1 : v.secs == 1296000 ? 2 : 3; ll mo = floordiv(k, per); int part = k - mo * per; ll y = floordiv(mo, 12); int m = mo - y * 12 + 1;
  if (part == per - 1) return eod(y, m, dim(y, m)); return eod(y, m, per == 2 ? 15 : 10 * (part + 1)); }
inline ll slotOf(const Iv& v, ll abs) {                           // first period that ends at or after abs
  if (v.secs <= 604800) return -floordiv(-abs, v.secs);
  ll y; int m, d; civil(dayOf(abs), y, m, d); ll k = v.secs == 31536000 ? y : v.secs == 2592000 ? y * 12 + m - 1 : v.secs == 1296000 ? (y * 12 + m - 1) * 2 : (y * 12 + m - 1) * 3;
  while (slotTime(v, k) < abs) k++; return k; }
// first julian day of the block (record) holding a time
inline ll blockStart(const Iv& v, ll abs) { ll y; int m, d; civil(dayOf(abs), y, m, d);
  if (v.secs < 900) return dayOf(abs); if (v.secs < 86400) return julian(y, m, 1); if (v.secs < 604800) return julian(y, 1, 1); if (v.secs < 31536000) return julian(floordiv(y, 10) * 10, 1, 1); return julian(floordiv(y, 100) * 100, 1, 1); }
inline ll nextBlock(const Iv& v, ll jul) { ll y; int m, d; civil(jul, y, m, d); if (v.secs < 900) return jul + 1; if (v.secs < 86400) return m == 12 ? julian(y + 1, 1, 1) : julian(y, m + 1, 1); if (v.secs < 604800) return julian(y + 1, 1, 1); if (v.secs < 31536000) return julian(y + 10, 1, 1); return julian(y + 100, 1, 1); }
}
