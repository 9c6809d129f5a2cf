// An operation that is refused leaves the file as it was, and a record keeps its type.
// flavour: asan
#include "bads.h"
// --- the world: neighbours, the record under test, a deleted and a renamed one
static bool base(File& f, const string& key, int e, const char* p, int access = 0, int hash = 1) { freshWorld(); { File o; if (o.open("/mc/other.dss", 0, 0, 0) || Array::make("/O/O/O///O/", 4, 2, 1, 0, 3)->put(o)) { fail(key, "the other file"); return false; } o.close(); }
  if (f.open(F0, 0, hash, 40)) { fail(key, "open"); return false; } bool bad = Array::make(SRC, 3, 1, 2, 1, 8)->put(f) || Text::make("/N/1/TEXT///GONE/", 30, 0, 0, 0, 0, 4)->put(f) || Text::make("/N/1/TEXT///MOVED/", 12, 0, 0, 0, 0, 5)->put(f); if (!bad && e >= 0) bad = put(f, e, p, 1); bad = bad || Array::make("/N/2/C/D/E/AFTER/", 1, 2, 1, 3, 9)->put(f) || zdelete(f.ifltab, "/N/1/TEXT///GONE/") || zrename(f.ifltab, "/N/1/TEXT///MOVED/", "/N/1/TEXT///NEW/"); if (bad) { fail(key, "making the file"); return false; }
  f.close(); *vfs::nowMs += 5000; if (f.open(F0, access)) { fail(key, "reopen"); return false; } return true; }
// what a reopening and closing alone leaves
static string idle(const string& key, int access) { string was = vfs::get(F0); File g; if (g.open(F0, access)) { fail(key, "reopen"); return ""; } g.close(); string is = vfs::get(F0); vfs::put(F0, was); return is; }
static const char* const PRE[] = {"", "after storing arrays", "after extending the series", "after deleting a record", "after a retrieval", "after storing a grid"}; static const int NPRE = 6;
static const char* const SUF[] = {"then nothing", "then a text", "then the series", "then deleting", "then renaming", "then replacing paired data", "then a grid", "then undeleting"}; static const int NSUF = 8;
static int step(File& f, int pre) { switch (pre) { case 0: return 0; case 1: return put(f, 2, "/P/NEW/ARR///F/", 6); case 2: return put(f, 3, SF, 9); case 3: return zdelete(f.ifltab, "/R/THREE/TEXT///F/"); case 4: { zStructText* z = zstructTextNew(TX); int rc = ztextRetrieve(f.ifltab, z); zstructFree(z); return rc; } default: return put(f, 9, "/R/G/PRECIP/01JAN2000:0200/01JAN2000:0300/F/", 5); } }
static int after(File& f, int suf) { switch (suf) { case 0: return 0; case 1: return put(f, 0, "/P/AFTER/TEXT///F/", 7); case 2: return put(f, 3, SF, 12); case 3: return zdelete(f.ifltab, AR); case 4: return zrename(f.ifltab, TI, "/R/N/TIN///NEW/"); case 5: return put(f, 7, PA, 30); case 6: return put(f, 9, "/R/G/PRECIP/01JAN2000:0300/01JAN2000:0400/F/", 6); default: return zundelete(f.ifltab, GONE); } }
// the file after: opened, a first step, the operations in question, a last step, closed
static bool sequence(const string& key, int access, int pre, const vector<const Bad*>& ops, int suf, string& bytes, vector<int>& rcs, int& rs) { File f; if (!world(key, f, access)) return false; File o; if (o.open("/mc/other.dss", 1)) { fail(key, "other"); return false; } other = &o; int rc = step(f, pre); if (rc) { fail(key, "the step before returned %d", rc); return false; } *vfs::nowMs += 1000; for (auto* b : ops) { rcs.push_back(b->run(f)); execution(); if (access == 2 && vfs::holds(vfs::pid, 800)) { fail(key, "%s: the file is still locked", b->name.c_str()); return false; } } *vfs::nowMs += 1000; rs = after(f, suf); f.close(); o.close(); bytes = vfs::get(F0); return true; }
static void refused(const string& key, int access, int pre, const vector<const Bad*>& ops, int suf) { string a, b; vector<int> none, rcs; int r0, r1; if (!sequence(key, access, pre, {}, suf, a, none, r0) || !sequence(key, access, pre, ops, suf, b, rcs, r1)) return; string who; bool all = true; for (size_t i = 0; i < ops.size(); i++) { who += (i ? ", " : "") + ops[i]->name; if (!rcs[i]) { bool first = all; all = false; if (ops[i]->must && first) { fail(key, "%s was not refused", ops[i]->name.c_str()); return; } } } if (!all) { if (verbose()) printf("accepted: %s\n", who.c_str()); return; }
  if (r0) { fail(key, "the last step returned %d", r0); return; } if (r1) { fail(key, "%s refused (%d), and %s returned %d", who.c_str(), rcs[0], SUF[suf], r1); return; } string d = firstDiff(a, b); if (d.size()) { fail(key, "%s refused (%d), %s: %s", who.c_str(), rcs[0], SUF[suf], d.c_str()); return; } state(mix(rcs[0], suf)); }
int main(int argc, char** argv) {
  Check c; c.id = "C17"; c.level = "model_checking"; c.assumptions = {"in-memory file system instead of the operating system"};
  c.build = [](bool th, std::vector<Family>& fs) {
    auto add = [&](const char* name, const string& rule, uint64_t n, int chunk, std::function<string(uint64_t)> desc, std::function<void(uint64_t, const string&)> run) { Family f; f.name = name; f.rule = rule; f.n = n; f.chunk = chunk; string nm = name; f.describe = desc; f.run = [=](uint64_t i) { string key = strf("%s:%llu", nm.c_str(), (unsigned long long)i); freshWorld(); run(i, key); }; fs.push_back(f); };
    // every kind over every kind
    { static const int ACC[] = {0, 2, 4}; add("types", "a record of each of thirteen kinds x a store of each of sixteen kinds over it x five flags (series) x access mode: replaced or merged if the type is the same (or differs in precision only), else refused with the file as it was; the handle works on", 13ull * 16 * 5 * 3, 60, [](uint64_t i) { int e = digit(i, 13), s = digit(i, 16), fl = digit(i, 5); return strf("%s over %s, flag %d, access mode %d", KIND[s].name, KIND[e].name, fl, ACC[i]); },
        [](uint64_t i, const string& key) { int e = digit(i, 13), s = digit(i, 16), fl = digit(i, 5), acc = ACC[i]; if (fl && !reg(s) && !irreg(s)) return; if ((irreg(e) && reg(s)) || (reg(e) && irreg(s))) return; if (irreg(s) && fl > 1) return; const char* p = irreg(e) || irreg(s) ? IRR : REG; File f; if (!base(f, key, e, p, acc)) return; f.close(); string want = idle(key, acc); if (failed() || f.open(F0, acc)) return; File o; if (o.open("/mc/other.dss", 1)) { fail(key, "other"); return; } other = &o;
          int rc = put(f, s, p, 2, fl); if (compatible(e, s)) { if (rc) { fail(key, "storing %s over %s returned %d", KIND[s].name, KIND[e].name, rc); return; } int t = zdataType(f.ifltab, p); if (t != KIND[s].type && t != KIND[e].type) { fail(key, "the type is %d, stored %d", t, KIND[s].type); return; } f.close(); structure(key); state(t); return; }
          if (!rc) { fail(key, "%s was stored over %s", KIND[s].name, KIND[e].name); return; } int t = zdataType(f.ifltab, p); if (t != KIND[e].type) { fail(key, "the type is %d, was %d", t, KIND[e].type); return; } f.close(); string d = firstDiff(want, vfs::get(F0)); if (d.size()) { fail(key, "storing %s over %s was refused (%d), but %s", KIND[s].name, KIND[e].name, rc, d.c_str()); return; }
          File g; if (g.open(F0, acc)) { fail(key, "reopen"); return; } put(g, s, p, 2, fl); rc = put(g, 0, "/NEXT/RECORD/TEXT///F/", 3); if (rc) { fail(key, "after the refusal, a store returned %d", rc); return; } rc = put(g, e, p, 4); if (rc) { fail(key, "after the refusal, storing %s again returned %d", KIND[e].name, rc); return; } g.close(); if (!structure(key)) return; File h; if (h.open(F0, 1)) { fail(key, "reopen"); return; } Text::make("/NEXT/RECORD/TEXT///F/", 12, 0, 0, 0, 0, 3)->check(h, key, "after the refusal"); state(rc); }); }
    // one refused operation between two others
    { static const int ACC[] = {0, 2, 4}; static vector<Bad> B = bads(); int nb = B.size(); add("one refused", "every operation that is or may be refused (%d of them) x access mode x what went before x what comes after: the file ends byte for byte as without it", (uint64_t)nb * 3 * NPRE * NSUF, 60, [=](uint64_t i) { int b = digit(i, nb), s = digit(i, NSUF), p = digit(i, NPRE); return strf("%s %s, %s, access mode %d", B[b].name.c_str(), PRE[p], SUF[s], ACC[i]); },
        [=](uint64_t i, const string& key) { int b = digit(i, nb), s = digit(i, NSUF), p = digit(i, NPRE); refused(key, ACC[i], p, {&B[b]}, s); }); }
    { int most = th ? 6 : 5; add("times going back", "irregular series with every sequence of two to five (six) times out of three that is not ascending x existing or new x float or double x merging or replacing x what comes after: refused, the file ends byte for byte as without it", seqCount(3, 2, most) * 2 * 2 * 2 * 2, 60, [=](uint64_t i) { int e = digit(i, 2), d = digit(i, 2), r = digit(i, 2), s = digit(i, 2); string t; for (int x : seqDecode(i, 3, 2, most)) t += strf(" %d", 10 * (x + 1)); return strf("times%s, %s%s%s, %s", t.c_str(), e ? "an existing" : "a new", d ? " double" : "", r ? " series replaced" : " series merged", SUF[s ? 5 : 1]); },
        [=](uint64_t i, const string& key) { bool e = digit(i, 2), d = digit(i, 2); int r = digit(i, 2), s = digit(i, 2) ? 5 : 1; vector<int> t; for (int x : seqDecode(i, 3, 2, most)) t.push_back(10 * (x + 1)); if (std::is_sorted(t.begin(), t.end())) return; Bad b{"times going back", true, [=](File& f) { vector<float> v(t.size(), 1.5f); vector<double> w(t.size(), 1.5); vector<int> tt = t; const char* p = e ? SI : "/R/NEW/C/01Dec2001/IR-Month/F/"; zStructTimeSeries* z = d ? zstructTsNewIrregDoubles(p, w.data(), tt.size(), tt.data(), 60, "10Dec2001", "cfs", "INST-VAL") : zstructTsNewIrregFloats(p, v.data(), tt.size(), tt.data(), 60, "10Dec2001", "cfs", "INST-VAL"); int rc = ztsStore(f.ifltab, z, r); zstructFree(z); return rc; }}; refused(key, 0, 0, {&b}, s); }); }
    { static vector<Bad> B = bads(); int nb = B.size(); static const int SF2[] = {1, 2, 5, 7}; add("two refused", "every two of the operations that are or may be refused, one after the other, then a store: the file ends byte for byte as without them", (uint64_t)nb * nb * (th ? 4 : 1), 60, [=](uint64_t i) { int b = digit(i, nb), c = digit(i, nb); return strf("%s, %s, %s", B[b].name.c_str(), B[c].name.c_str(), SUF[SF2[i]]); },
        [=](uint64_t i, const string& key) { int b = digit(i, nb), c = digit(i, nb); refused(key, 0, 0, {&B[b], &B[c]}, SF2[i]); }); }
    // read-only handles
    { static vector<Bad> B; B = goods(); for (auto& x : bads()) if (x.must) B.push_back(x); int nb = B.size(); static const int RD[] = {0, 4, 9, 10}; add("read-only", "every operation that would write, on a handle opened for reading, after one of the retrievals: refused, the file byte for byte as it was, no lock left, the retrieval works afterwards", (uint64_t)nb * 4, 60, [=](uint64_t i) { int b = digit(i, nb); return strf("%s, case %d", B[b].name.c_str(), (int)i); },
        [=](uint64_t i, const string& key) { int b = digit(i, nb); static vector<Bad> R = readings(); auto& r = R[RD[i] % R.size()]; File f; if (!world(key, f, 0)) return; f.close(); string was = vfs::get(F0); if (f.open(F0, 1)) { fail(key, "opening for reading"); return; } File o; if (o.open("/mc/other.dss", 1)) { fail(key, "other"); return; } other = &o; if (i) { int rc = r.run(f); if (rc) { fail(key, "%s, before: %d", r.name.c_str(), rc); return; } } int rc = B[b].run(f); transition(); if (!rc) { fail(key, "%s on a handle opened for reading was not refused", B[b].name.c_str()); return; } rc = r.run(f); if (rc) { fail(key, "after the refusal, %s: %d", r.name.c_str(), rc); return; } f.close(); o.close(); string d = firstDiff(was, vfs::get(F0)); if (d.size()) { fail(key, "%s was refused on a handle opened for reading, but %s", B[b].name.c_str(), d.c_str()); return; } File g; if (g.open(F0, 0)) { fail(key, "reopen"); return; } rc = put(g, 0, "/P/AFTER/TEXT///F/", 7); if (rc) fail(key, "a store by a handle opened afterwards returned %d", rc); state(mix(rc, i)); }); }
    // handles that are not open
    { static vector<Bad> B; B = goods(); for (auto& x : readings()) B.push_back(x); int nb = B.size(); add("closed", "every operation that writes and every one that reads, on a handle that was never opened, was closed, or whose opening failed: refused, no file is changed", (uint64_t)nb * (th ? 24 : 12), 1, [=](uint64_t i) { int b = digit(i, nb); static const char* const W[] = {"a handle never opened", "a closed handle", "a handle whose opening failed: a text", "a handle whose opening failed: version 6", "a handle whose opening failed: no such directory", "a handle whose opening failed: no such file", "a handle whose opening failed: a file cut short"}; if (i > 6) return strf("%s on a handle whose opening failed: read or write %d of it", B[b].name.c_str(), (int)i - 6); return strf("%s on %s", B[b].name.c_str(), W[i]); },
        [=](uint64_t i, const string& key) { int b = digit(i, nb); File f; if (!world(key, f, 0)) return; if (i != 1) { f.close(); memset(f.ifltab, 0, sizeof f.ifltab); } else f.close(); string was = vfs::get(F0); auto names = vfs::list(); if (i >= 2) { string t(4000, 0); memcpy(&t[0], "ZDSS", 4); memcpy(&t[16], "6-AB", 4); vfs::put("/mc/bad.dss", i == 2 ? string("this is not a file of this kind, although it has the name of one") : i == 3 ? t : was.substr(0, 700)); names = vfs::list(); memset(f.ifltab, 0, sizeof f.ifltab); static int left; left = (int)i - 7; if (i > 6) vfs::hook = [](const vfs::Op& o) { return (o.kind == vfs::OP_READ || o.kind == vfs::OP_WRITE) && left-- <= 0 ? EIO : 0; }; int rc = zopenExtended(f.ifltab, i == 4 ? "/mc-none/dir.dss" : i == 5 ? "/mc/none.dss" : i > 6 ? F0 : "/mc/bad.dss", 7, i == 5 ? 1 : 0, 0, 0, 0); vfs::hook = nullptr; if (!rc) { if (i > 6 && vfs::get(F0) == was) { zclose(f.ifltab); return; } fail(key, "the file was opened"); return; } if (vfs::get(F0) != was) { fail(key, "opening failed, and the file was changed"); return; } if (vfs::openFdCount()) { fail(key, "opening failed, and a file descriptor stays open"); return; } }
          File o; if (o.open("/mc/other.dss", 1)) { fail(key, "other"); return; } other = &o; int rc = B[b].run(f); transition(); if (!rc) { fail(key, "%s was not refused", B[b].name.c_str()); return; } o.close(); string d = firstDiff(was, vfs::get(F0)); if (d.size()) { fail(key, "%s was refused, but %s", B[b].name.c_str(), d.c_str()); return; } if (vfs::list() != names) fail(key, "%s was refused, but the files there are not those before", B[b].name.c_str()); state(rc); }); }
  };
  return run(argc, argv, c);
}
