#include "dss.h"
namespace dss {
const char* const PATHS[8] = {"/A/B/C/D/E/F/", "/A/B/C/D/E/G/", "/AB/LONGER PART/FLOW-DATA/X/Y/SOMEVERSION/", "/a1/b1/c1//e1/f1/",
                              "/A/B/STAGE//IR-DAY/RUN:1/", "/Q/W/E/R/T/Y/", "/A/B/C/D/E/H/", "/Z/LONGER PARTS/FLOW-DATA/X/Y/SOMEVERSIOM/"};
static void mute() { zset("mlvl", "", 0); hec_dss_set_value("mlvl", 0); }
void setup() { static bool done = false; if (done) return; done = true; vfs::init(false); vfs::reset(); mute(); }
void freshWorld() { setup(); vfs::reset(); mute(); zset("prog", "MC", 0); }
static void fold(uint64_t& h, const std::vector<int>& v) { h = mc::mix(h, v.size()); for (int x : v) h = mc::mix(h, (uint32_t)x); }
bool Rec::operator==(const Rec& o) const { return type == o.type && ih == o.ih && h2 == o.h2 && uh == o.uh && v1 == o.v1 && v2 == o.v2 && v3 == o.v3 && numberValues == o.numberValues && logical == o.logical; }
uint64_t Rec::hash() const { uint64_t h = mc::mix(7, type); fold(h, ih); fold(h, h2); fold(h, uh); fold(h, v1); fold(h, v2); fold(h, v3); return mc::mix(mc::mix(h, numberValues), logical); }
std::string Rec::str() const { auto d = [](const std::vector<int>& v) { std::string s = mc::strf("%zu[", v.size()); for (size_t i = 0; i < v.size() && i < 3; i++) s += mc::strf("%x ", v[i]); return s + "]"; };
  return mc::strf("type %d nv %d ln %d ih %s h2 %s uh %s v1 %s v2 %s v3 %s", type, numberValues, logical, d(ih).c_str(), d(h2).c_str(), d(uh).c_str(), d(v1).c_str(), d(v2).c_str(), d(v3).c_str()); }
Rec makeRec(int type, int nih, int nh2, int nuh, int n1, int n2, int n3, int seed) {
  Rec r; r.type = type; int k = seed * 100003 + 17;
  auto fill = [&](std::vector<int>& v, int n) { for (int i = 0; i < n; i++) v.push_back((int)mc::mix(k++, 99) | 1); };
  fill(r.ih, nih); fill(r.h2, nh2); fill(r.uh, nuh); fill(r.v1, n1); fill(r.v2, n2); fill(r.v3, n3);
  r.numberValues = n1 + 1; r.logical = n1 + 2; return r;
}
int File::open(const std::string& p, int access, int hash, int bin) {
  memset(ifltab, 0, sizeof ifltab); path = p; status = zopenExtended(ifltab, p.c_str(), 7, access, 0, hash, bin); isOpen = status == 0; return status;
}
int File::close() { if (!isOpen) return 0; isOpen = false; return zclose(ifltab); }
int File::write(const std::string& p, const Rec& r, int allocated, int expanded) {
  zStructTransfer* t = zstructTransferNew(p.c_str(), 0); t->dataType = r.type;
  auto cp = [](const std::vector<int>& v) { int* q = (int*)calloc(v.size() + 2, 4); if (v.size()) memcpy(q, v.data(), v.size() * 4); return q; };
  int* q[6] = {cp(r.ih), cp(r.h2), cp(r.uh), cp(r.v1), cp(r.v2), cp(r.v3)};
  t->internalHeader = q[0]; t->internalHeaderNumber = r.ih.size(); t->header2 = q[1]; t->header2Number = r.h2.size(); t->userHeader = q[2]; t->userHeaderNumber = r.uh.size();
  t->values1 = q[3]; t->values1Number = r.v1.size(); t->values2 = q[4]; t->values2Number = r.v2.size(); t->values3 = q[5]; t->values3Number = r.v3.size();
  t->numberValues = r.numberValues; t->logicalNumberValues = r.logical; t->totalAllocatedSize = allocated; t->totalExpandedSize = expanded;
  int st = zwrite(ifltab, t); zstructFree(t); for (auto x : q) free(x); return st;
}
int File::read(const std::string& p, Rec& r) {
  r = Rec(); r.type = 0; zStructTransfer* t = zstructTransferNew(p.c_str(), 1); int st = zread(ifltab, t);
  if (st == 0) { auto cp = [](std::vector<int>& v, int* q, int n) { if (q && n > 0) v.assign(q, q + n); else if (n > 0) v.assign(n, -559038737); };
    r.type = t->dataType; cp(r.ih, t->internalHeader, t->internalHeaderNumber); cp(r.h2, t->header2, t->header2Number); cp(r.uh, t->userHeader, t->userHeaderNumber);
    cp(r.v1, t->values1, t->values1Number); cp(r.v2, t->values2, t->values2Number); cp(r.v3, t->values3, t->values3Number); r.numberValues = t->numberValues; r.logical = t->logicalNumberValues; }
  zstructFree(t); return st;
}
std::vector<std::string> File::catalog(const std::string& pat, int stat, int sorted, int* rc) {
  std::vector<std::string> v; zStructCatalog* c = zstructCatalogNew(); c->statusWanted = stat; int n = zcatalog(ifltab, pat.empty() ? nullptr : pat.c_str(), c, sorted); if (rc) *rc = n;
  for (int i = 0; i < c->numberPathnames; i++) v.push_back(c->pathnameList[i]); zstructFree(c); return v;
}
std::string upper(std::string s) { for (auto& c : s) c = toupper(c); return s; }
bool isErr(int st) { return st != 0 && st != STATUS_RECORD_NOT_FOUND; }

Walk walk(const std::string& bytes, bool checkFree, bool checkCounts) {
  Walk w; auto err = [&](const std::string& s) { if (w.errors.size() < 8) w.errors.push_back(s); };
  long long nw = bytes.size() / 8; std::vector<long long> d(nw + 1); memcpy(d.data(), bytes.data(), nw * 8);
  auto& FK = zdssFileKeys; auto& IK = zdssInfoKeys; auto& BK = zdssBinKeys;
  if (bytes.size() % 8) err(mc::strf("file length %zu is not a whole number of words", bytes.size()));
  if (nw < 110 || memcmp(bytes.data(), "ZDSS", 4)) { err("no DSS header"); return w; }
  long long* h = d.data(); long long fsz = w.fileSize = h[FK.kfileSize];
  if (fsz >= nw) err(mc::strf("header says the file is %lld words but only %lld exist", fsz, nw));
  else if (d[fsz] != DSS_END_FILE_FLAG) err(mc::strf("no end-of-file flag at word %lld", fsz));
  auto add = [&](long long a, long long n, const std::string& s) { if (n <= 0) return; if (a <= 0 && a + n > 0 && s != "header") { err(mc::strf("%s has address %lld", s.c_str(), a)); return; } w.extents.push_back({a, n, s}); };
  w.extents.push_back({0, h[FK.kfileHeaderSize], "header"});
  add(h[FK.kaddHashTableStart], h[FK.kmaxHash], "hash table");
  long long ra = h[FK.kreclaimTableAddress], rs = h[FK.kreclaimSize]; int seg = 0;
  while (ra > 0 && ra + rs <= nw && seg++ < 40) { add(ra, rs, "reclaim table"); for (int i = 0; i + 1 < rs - 2; i += 2) if (d[ra + i] > 0) w.freeList.push_back({d[ra + i + 1], d[ra + i], "free space"}); ra = d[ra + rs - 1]; }
  long long bs = h[FK.kbinSize], pb = h[FK.kbinsPerBlock]; std::set<long long> binStarts; long long ba = h[FK.kaddFirstBin]; int nb = 0;
  while (ba > 0 && nb++ < 1000) { if (ba + bs * pb + 1 > nw) { err("bin block beyond end of file"); break; } add(ba, bs * pb + 1, "bin block"); for (int i = 0; i < pb; i++) binStarts.insert(ba + i * bs); ba = d[ba + bs * pb]; }
  if (h[FK.kcatSortAddress] > 0 && h[FK.kcatSortSize] > 0 && h[FK.kcatSortStatus] > 0) add(h[FK.kcatSortAddress], h[FK.kcatSortSize] + 2, "catalog sort list");
  std::set<std::string> seen; std::set<long long> usedBins, infos; bool fatal = false;
  if (h[FK.kaddHashTableStart] <= 0 || h[FK.kmaxHash] <= 0 || h[FK.kaddHashTableStart] + h[FK.kmaxHash] > nw || bs < 12 || rs < 0) { err("the hash table is not in the file"); return w; }
  for (long long k = 0; k < h[FK.kmaxHash] && !fatal; k++) {
    long long b = d[h[FK.kaddHashTableStart] + k]; int guard = 0;
    while (b) {
      if (!binStarts.count(b)) { err(mc::strf("hash chain %lld points to %lld which is not a bin", k, b)); fatal = true; break; }
      if (!usedBins.insert(b).second) { err(mc::strf("bin %lld is in two chains", b)); fatal = true; break; }
      long long i = 0;
      while (i + BK.kbinSize < bs - 1) { long long* e = &d[b + i]; if (e[BK.kbinHash] == 0) break;
        int nchars, nlong; memcpy(&nchars, &e[BK.kbinPathLen], 4); memcpy(&nlong, (char*)&e[BK.kbinPathLen] + 4, 4); 
        if (nchars < 0 || nchars > 400 || nlong < 0 || nlong > 60) { std::swap(nchars, nlong); }
        if (nchars <= 0 || nchars > 393 || nlong <= 0 || nlong > 50 || i + BK.kbinSize + nlong > bs - 1) { err(mc::strf("bad path length in bin %lld", b)); fatal = true; break; }
        if (nlong * 8 < nchars) { std::swap(nchars, nlong); }
        std::string path((char*)&e[BK.kbinPath], nchars); int st = (int)e[BK.kbinStatus]; int t1, t2; memcpy(&t1, &e[BK.kbinTypeAndCatSort], 4); memcpy(&t2, (char*)&e[BK.kbinTypeAndCatSort] + 4, 4);
        w.entries.push_back({path, st, t1, e[BK.kbinInfoAdd], e[BK.kbinHash]});
        if (st == REC_STATUS_VALID || st == REC_STATUS_PRIMARY || st == REC_STATUS_ALIAS) {
          if (!seen.insert(upper(path)).second) err("record listed twice: " + path);
          if (st == REC_STATUS_ALIAS) w.aliases++; else w.records++;
          if (st != REC_STATUS_ALIAS) {
            long long a = e[BK.kbinInfoAdd]; long long ni = zdssVals.infoSize + (nchars + 7) / 8;
            if (a <= 0 || a + ni > nw || a + zdssVals.infoSize > nw) { err("information block of " + path + " outside the file"); i += BK.kbinSize + nlong; continue; }
            long long* f = &d[a];
            if (f[IK.kinfoFlag] != DSS_INFO_FLAG) err("information block of " + path + " has no flag");
            else {
              if (f[IK.kinfoHash] != e[BK.kbinHash]) err("hash differs between bin and information block: " + path);
              if (upper(std::string((char*)&f[IK.kinfoPathname], nchars)) != upper(path)) err("pathname differs between bin and information block: " + path);
              add(a, ni, "info " + path);
              struct { int ka, kn; const char* n; } A[] = {{IK.kinfoInternalHeadAddress, IK.kinfoInternalHeadNumber, "internal header"}, {IK.kinfoHeader2Address, IK.kinfoHeader2Number, "header2"}, {IK.kinfoUserHeadAddress, IK.kinfoUserHeadNumber, "user header"}, {IK.kinfoValues1Address, IK.kinfoValues1Number, "values1"}, {IK.kinfoValues2Address, IK.kinfoValues2Number, "values2"}, {IK.kinfoValues3Address, IK.kinfoValues3Number, "values3"}};
              for (auto& x : A) add(f[x.ka], (f[x.kn] + 1) / 2, std::string(x.n) + " of " + path);
            }
          }
        }
        i += BK.kbinSize + nlong; }
      if (fatal) break;
      b = d[b + bs - 1]; if (++guard > 2000) { err("hash chain does not end"); fatal = true; break; }
    }
  }
  if (fatal) return w;
  auto ex = w.extents; if (checkFree) for (auto& f : w.freeList) ex.push_back(f);
  std::sort(ex.begin(), ex.end(), [](const Extent& a, const Extent& b) { return a.a < b.a; });
  long long end = 0; std::string who;
  for (auto& x : ex) { if (x.a < end) err(mc::strf("%s [%lld,+%lld) overlaps %s ending at %lld", x.what.c_str(), x.a, x.n, who.c_str(), end)); if (x.a + x.n > end) { end = x.a + x.n; who = x.what; } if (x.a < 0 || x.a + x.n > fsz) err(mc::strf("%s [%lld,+%lld) lies outside the file of %lld words", x.what.c_str(), x.a, x.n, fsz)); }
  if (checkCounts) {
    if (w.records != h[FK.knumberRecords]) err(mc::strf("header counts %lld records, %lld exist", h[FK.knumberRecords], w.records));
    if (w.aliases != h[FK.knumberAliases]) err(mc::strf("header counts %lld aliases, %lld exist", h[FK.knumberAliases], w.aliases));
  }
  return w;
}
}
