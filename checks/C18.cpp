// Reading leaves a file as it was, and what is read depends on the file alone.
// flavour: asan
#include "reads.h"
using reads::Rd; using reads::LONG; using reads::LIRR;
static string rich; static const int ACC[] = {1, 0, 2, 4};
static bool base(const string& key) { freshWorld(); *vfs::nowMs = 1700000000000LL; { File o; if (o.open("/mc/other.dss", 0, 0, 0) || Array::make("/O/O/O///O/", 4, 2, 1, 0, 3)->put(o)) { fail(key, "the other file"); return false; } o.close(); }
  if (rich.empty()) { cached.clear(); File f; if (!world(key, f, 0)) return false; *vfs::nowMs += 1000; vector<double> v; ts::Extra x; x.qe = 1; x.ne = 1; irr::Series s; ll t0 = cal::julian(2001, 12, 20) * 86400LL; for (int i = 0; i < 500; i++) { v.push_back(i % 7 == 3 ? ts::MISS : i * 0.25); x.q.push_back(i % 5); x.notes.push_back(i * 3); if (i % 9 == 0) s[t0 + i * 4000] = {i * 1.0, i % 3, 0, ""}; }
    bool bad = ts::store(f, LONG, t0 + 3600, v, 0, true, &x) || irr::store(f, LIRR, s, 0, true, 60, true) || zaliasAdd(f.ifltab, TX, reads::ALIAS) || zaliasAdd(f.ifltab, TX, reads::ALIAS2); for (int i = 1; i <= 3; i++) bad = bad || put(f, 3, strf("/R/COLL/FLOW/01Dec2001/1Hour/C:00000%d|RUN/", i).c_str(), i); bad = bad || zdelete(f.ifltab, "/R/COLL/FLOW/01Dec2001/1Hour/C:000002|RUN/"); if (bad) { fail(key, "making the file"); return false; } f.close(); rich = vfs::get(F0); }
  vfs::put(F0, rich); *vfs::nowMs = 1700000020000LL; return true; }
static const vector<Rd>& R() { static vector<Rd> r = reads::all(); return r; }
// what each read gives by itself, on a handle opened for reading only
static const string& alone(int r, const string& key) { static std::map<int, string> m; auto i = m.find(r); if (i != m.end()) return i->second; if (base(key)) { File f; if (f.open(F0, 1)) fail(key, "opening for reading"); else { m[r] = R()[r].run(f); f.close(); } } return m[r]; }
static string others; static void openOther(File& o, const string& key) { if (o.open("/mc/other.dss", 1)) fail(key, "other"); other = &o; }
// the same records for whoever opens the file next
static bool sameRecords(const string& key, const string& what) { structure(key); for (int r = 0; r < (int)R().size() && !failed(); r++) if (R()[r].name.find("catalogue") != string::npos || r % 7 == 0) { string want = alone(r, key); string now = vfs::get(F0); File f; *vfs::nowMs = 1700000020000LL; vfs::put(F0, now); if (f.open(F0, 1)) { fail(key, "reopen"); return false; } string got = R()[r].run(f); f.close(); if (got != want) fail(key, "%s, then %s by another handle: %s, not %s", what.c_str(), R()[r].name.c_str(), got.c_str(), want.c_str()); } return !failed(); }
static void chain(const string& key, int acc, const vector<int>& rs) { string what; vector<string> want; for (int r : rs) { want.push_back(alone(r, key)); what += (what.size() ? ", " : "") + R()[r].name; } if (failed() || !base(key)) return; int fd0 = vfs::openFdCount(); File f; if (f.open(F0, acc)) { fail(key, "open"); return; } bool order = false; for (size_t i = 0; i < rs.size(); i++) { string got = R()[rs[i]].run(f); execution(); order = order || R()[rs[i]].order; if (got != want[i]) { fail(key, "%s (access mode %d): the last gives%s, alone%s", what.c_str(), acc, got.c_str(), want[i].c_str()); return; } if (acc != 4 && vfs::holds(vfs::pid, 800)) { fail(key, "%s: the file is locked", what.c_str()); return; } state(hashBytes(got.data(), got.size(), i)); } f.close(); if (vfs::openFdCount() != fd0) { fail(key, "%s: file descriptors are left open", what.c_str()); return; }
  string now = vfs::get(F0); if (acc == 1 || !order) { string d = firstDiff(rich, now); if (d.size()) fail(key, "%s (access mode %d): %s", what.c_str(), acc, d.c_str()); } else sameRecords(key, what); }
int main(int argc, char** argv) {
  Check c; c.id = "C18"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system"};
  c.build = [](bool th, std::vector<Family>& fs) { int n = R().size();
    auto add = [&](const char* name, const string& rule, uint64_t n, int chunk, std::function<string(uint64_t)> desc, std::function<void(uint64_t, const string&)> run) { Family f; f.name = name; f.rule = rule; f.n = n; f.chunk = chunk; string nm = name; f.describe = desc; f.run = [=](uint64_t i) { string key = strf("%s:%llu", nm.c_str(), (unsigned long long)i); run(i, key); }; fs.push_back(f); };
    add("two reads", "every two of the reads, one after the other x access mode", (uint64_t)n * n * (th ? 4 : 2), 200, [=](uint64_t i) { int a = digit(i, n), b = digit(i, n); return strf("%s, then %s, access mode %d", R()[a].name.c_str(), R()[b].name.c_str(), ACC[i]); }, [=](uint64_t i, const string& key) { int a = digit(i, n), b = digit(i, n); chain(key, ACC[i], {a, b}); });
    add("one read", "every read x access mode x once to three times", (uint64_t)n * 4 * 3, 60, [=](uint64_t i) { int a = digit(i, n), m = digit(i, 4); return strf("%s, %d times, access mode %d", R()[a].name.c_str(), (int)i + 1, ACC[m]); }, [=](uint64_t i, const string& key) { int a = digit(i, n), m = digit(i, 4); chain(key, ACC[m], vector<int>(i + 1, a)); });
    { static vector<Bad> W = goods(); int w = W.size(); static const int SEC[] = {0, 2, 7}; int ns = th ? w : 3; static bool t2; t2 = th;
      add("between writes", "every operation that writes x every read x a second operation that writes (three; thorough: all, without access modes): the file ends as without the read, the read gives what a handle opened anew gives", (uint64_t)w * n * ns, 100, [=](uint64_t i) { int a = digit(i, w), r = digit(i, n); int s = t2 ? i : SEC[i] * 5 % w; return strf("%s, %s, %s", W[a].name.c_str(), R()[r].name.c_str(), W[s].name.c_str()); },
        [=](uint64_t i, const string& key) { int a = digit(i, w), r = digit(i, n); int s = t2 ? i : SEC[i] * 5 % w; static std::map<std::pair<int, int>, string> ends; static std::map<int, string> mids; auto go = [&](bool read, bool second, string* got, string* bytes) { if (!base(key)) return false; File o; openOther(o, key); File f; if (f.open(F0, 0)) { fail(key, "open"); return false; } int rc = W[a].run(f); count(rc ? "first operation refused" : "first operation done"); *vfs::nowMs += 1000; if (read) { *got = R()[r].run(f); execution(); } *vfs::nowMs = 1700000022000LL; if (second) { int rc = W[s].run(f); *got += strf("/%d", rc); } f.close(); o.close(); *bytes = vfs::get(F0); return !failed(); };
          string g0, g1, b1; if (!mids.count(a)) { string b; if (!go(false, false, &g0, &b)) return; mids[a] = b; } if (!ends.count({a, s})) { string b; g0 = ""; if (!go(false, true, &g0, &b)) return; ends[{a, s}] = g0 + b; } if (!go(true, true, &g1, &b1)) return; size_t slash = g1.rfind('/'); string rc1 = g1.substr(slash), got = g1.substr(0, slash); const string& e = ends[{a, s}];
          if (!R()[r].order) { string d = firstDiff(e, rc1 + b1); if (d.size()) { fail(key, "%s, %s, %s: %s", W[a].name.c_str(), R()[r].name.c_str(), W[s].name.c_str(), d.c_str()); return; } } else structure(key);
          if (R()[r].name.find("copy") != string::npos) return; vfs::put(F0, mids[a]); *vfs::nowMs = 1700000021000LL; File h; if (h.open(F0, 1)) { fail(key, "reopen"); return; } string fresh = R()[r].run(h); h.close(); if (fresh != got) fail(key, "%s, then %s gives%s; a handle opened anew%s", W[a].name.c_str(), R()[r].name.c_str(), got.c_str(), fresh.c_str()); state(hashBytes(got.data(), got.size(), a)); }); }
    { static vector<Bad> W = goods(); int w = W.size(), m = th ? 3 : 2; static const int HOW[] = {1, 2, 0}; static bool t3; t3 = th; int nf = th ? n : 4;
      add("behind a change", "a handle (opened for reading or for several users) reads, another process changes the file (every operation that writes) and closes it, the handle reads (every read): it gets what a handle opened anew gets", (uint64_t)w * n * nf * m, 100, [=](uint64_t i) { int a = digit(i, w), r = digit(i, n), r0 = digit(i, nf); return strf("%s, then another process: %s, then %s, access mode %d", R()[t3 ? r0 : (r0 * 37 + r) % n].name.c_str(), W[a].name.c_str(), R()[r].name.c_str(), HOW[i]); },
        [=](uint64_t i, const string& key) { int a = digit(i, w), r = digit(i, n), r0 = digit(i, nf); if (!t3) r0 = (r0 * 37 + r) % n; if (R()[r].mine || !base(key)) return; File f; if (f.open(F0, HOW[i])) { fail(key, "open"); return; } R()[r0].run(f); int pid = vfs::pid; vfs::pid = pid + 1; { File o; openOther(o, key); File g; if (g.open(F0, 2)) { fail(key, "the other process cannot open the file"); return; } W[a].run(g); g.close(); o.close(); } vfs::pid = pid; *vfs::nowMs += 1000; ll t = *vfs::nowMs;
          string got = R()[r].run(f); execution(); *vfs::nowMs = t; string fresh; { File h; if (h.open(F0, HOW[i])) { fail(key, "reopen"); return; } fresh = R()[r].run(h); h.close(); } f.close(); if (got != fresh) { fail(key, "%s; then, by another process, %s; then %s gives%s, a handle opened anew%s", R()[r0].name.c_str(), W[a].name.c_str(), R()[r].name.c_str(), got.c_str(), fresh.c_str()); return; } if (!R()[r].order) structure(key); state(hashBytes(got.data(), got.size(), a)); }); }
    { static const char* const HOWF[] = {"cut off", "one byte changed", "a text", "zeros", "a header of version 6", "another version"}; static const int ACF[] = {1, 0, 2, 3, 4};
      add("not of this kind", "a file that is not one of this kind: a proper one cut off within its first 32 bytes, with any byte of its mark or version changed, a text, zeros, of version 6 x access mode x opening with heclib or the public interface: refused, the bytes are as they were, no other file is made", 6ull * 40 * 5 * 2, 60, [=](uint64_t i) { int h = digit(i, 6), k = digit(i, 40), a = digit(i, 5); return strf("%s, %d, access mode %d, %s", HOWF[h], k, ACF[a], i ? "public interface" : "heclib"); },
        [=](uint64_t i, const string& key) { int h = digit(i, 6), k = digit(i, 40), a = digit(i, 5); if (!base(key)) return; string b = rich, was; int ver = -9; switch (h) { case 0: b = b.substr(0, k); break; case 1: if (k >= 4) { if (k < 36) return; k = 16; } b[k] ^= 0x20 + k; break; case 2: b = chars(k * 8, k); break; case 3: b = string(k * 16, 0); break; case 4: { b = string(512, 0); memcpy(&b[0], "ZDSS", 4); b[16] = '6'; b[17] = '-'; if (k) return; break; } default: { const char* v = "01234568 9ABZ"; if (k >= 13) return; b[16] = v[k]; } } if (b.empty() || (h == 4 && 0)) return; if (h == 0 && k >= 32) return;
          vfs::put("/mc/b.dss", b); was = b; auto names = vfs::list(); int fd0 = vfs::openFdCount(); int rc; if (i) { dss_file* d = nullptr; rc = hec_dss_open("/mc/b.dss", &d); if (!rc) { fail(key, "the public interface opened it"); return; } ver = hec_dss_getFileVersion("/mc/b.dss"); if (ver == 7) { fail(key, "its version is said to be 7"); return; } } else { File f; rc = zopenExtended(f.ifltab, "/mc/b.dss", 7, ACF[a], 0, 0, 0); if (!rc) { fail(key, "it was opened"); return; } }
          if (vfs::get("/mc/b.dss") != was) { fail(key, "opening was refused (%d), but the file changed: %s", rc, firstDiff(was, vfs::get("/mc/b.dss")).c_str()); return; } if (vfs::list() != names) { fail(key, "opening was refused (%d), but there are other files now", rc); return; } if (vfs::openFdCount() != fd0) { fail(key, "opening was refused (%d), but the file is still open", rc); return; } File g; if (g.open(F0, 0)) { fail(key, "afterwards a proper file cannot be opened"); return; } string t = reads::text(g, TX); g.close(); state(mix(rc, hashBytes(b.data(), b.size(), a))); }); }
  };
  return run(argc, argv, c);
}
