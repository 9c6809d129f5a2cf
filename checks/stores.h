// Shared stores of every kind of record, for the crash, fault and access checks.
#pragma once
#include "items.h"
#include "irr.h"
// typed stores: a first store, or one over an earlier store of another size, with neighbours
inline items::P kind(int k, int seed) { using namespace items; const char* G = "/S/G/PRECIP/01JAN2000:0100/01JAN2000:0200/F/"; switch (k) { case 0: return Text::make("/S/T/TEXT///F/", 9, 0, 0, 0, 0, seed); case 1: return Text::make("/S/T/TEXT///F/", 300, 2, 2, 3, 3, seed); case 2: return Array::make("/S/A/ARR///F/", 2, 0, 1, 1, seed); case 3: return Array::make("/S/A/ARR///F/", 0, 41, 30, 2, seed); case 4: return Loc::make("/S/L/X///F/", 3, 4, seed); case 5: return Loc::make("/S/L/Y///G/", 12, 90, seed);
  case 6: return Grid::make(G, 430, 2, 3, 1, 2, 1, 4, seed); case 7: return Grid::make(G, 430, 11, 9, 26, 3, 3, 6, seed); case 8: return Tin::make("/S/N/TIN///F/", 3, 6, 5, 4, seed); case 9: return Tin::make("/S/N/TIN///F/", 20, 31, 60, 7, seed); case 10: return Blob::make("/S/B/FILE///F/", 7, seed); default: return Blob::make("/S/B/FILE///F/", 700, seed); } }
inline int storeTs(File& f, int w) {   // seven kinds of stores into series of the same location
  std::vector<double> v; cal::ll t0 = (cal::julian(2001, 12, 31)) * 86400LL; auto vals = [&](int n, int s) { v.clear(); for (int i = 0; i < n; i++) v.push_back(s * 100 + i * 1.5); };
  switch (w) { case 0: vals(30, 1); return ts::store(f, ts::path("1Hour"), t0 + 3600 * 5, v, 0); case 1: vals(40, 2); return ts::store(f, ts::path("1Hour"), t0 + 3600 * 20, v, 0); case 2: vals(900, 3); return ts::store(f, ts::path("1Hour"), t0 - 86400 * 20, v, 0); case 3: vals(500, 4); for (auto& x : v) x = 7; return ts::store(f, ts::path("1Hour"), t0 - 86400 * 3, v, 0); case 4: vals(20, 5); return ts::store(f, ts::path("1Day"), t0 - 86400 * 3, v, 0);
    case 5: case 6: { irr::Series p; for (int i = 0; i < (w == 5 ? 6 : 60); i++) p[t0 + i * 5040 + w * 60] = {i * 2.0 + w, 0, 0, ""}; return irr::store(f, ts::path("IR-Day"), p, 0, true, 60, false); } }
  return 0; }
