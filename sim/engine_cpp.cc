// Engine over a C++ header of wisardpkg: -DSIM_HEADER="..." -DSIM_NAME="src" or "hdr".
#include SIM_HEADER
#include "engine.h"
namespace wp = wisardpkg;
namespace {
std::vector<short> shorts(const VI& v) { Glue g; return std::vector<short>(v.begin(), v.end()); }

struct BinO : Obj {
  wp::BinInput x;
  BinO(const wp::BinInput& b) : x(b) {}
  int binGet(long i) override { return x.get(i); }
  void binSet(long i, int v) override { x.set(i, v); }
  long binSize() override { return x.size(); }
  std::string binData() override { return x.data(); }
};
struct DsO : Obj {
  wp::DataSet x;
  DsO() {}
  DsO(const std::string& f) : x(f) {}
  Obj* clone() override { return new DsO(*this); }
  void dsAddVec(const VI& v, bool has, const std::string& l) override { if (has) x.add(shorts(v), l); else x.add(shorts(v)); }
  void dsAddBin(Obj* b, bool has, const std::string& l) override {
    if (has) x.add(static_cast<BinO*>(b)->x, l); else x.add(static_cast<BinO*>(b)->x); }
  long dsSize() override { return x.size(); }
  Obj* dsGet(long i) override { return new BinO(x.get(i)); }
  std::string dsLabel(long i) override { return x.getLabel(i); }
  void dsSave(const std::string& p) override { x.save(p); }
};
struct DO : Obj {
  wp::Discriminator x;
  DO(const std::string& j) : x(j) {}
  DO(int a, int e) : x(a, e) {}
  DO(int a, int e, wp::nl::json o) : x(a, e, o) {}
  Obj* clone() override { return new DO(*this); }
  void train1(const VI& v) override { x.train(v); }
  void trainN(const VVI& v) override { x.train(v); }
  void trainBin(Obj* b) override { x.train(static_cast<BinO*>(b)->x); }
  void untrain1(const VI& v) override { x.untrain(v); }
  VI votes(const VI& v) override { return x.classify(v); }
  VI votesBin(Obj* b) override { return x.classify(static_cast<BinO*>(b)->x); }
  VI mentalD() override { return x.getMentalImage(); }
  int nTrain() override { return x.getNumberOfTrainings(); }
  int nRams() override { return x.getNumberOfRAMS(); }
  std::string json(int form, const std::string& p) override {
    return form == 0 ? x.json() : form == 1 ? x.json(false) : form == 2 ? x.json(false, p) : form == 3 ? x.json(true) : x.json(true, p); }
  std::string jsonConfig() override { return x.jsonConfig(); }
  long sizeofB() override { return x.getsizeof(); }
};
std::vector<ClassOut> outs(const VS& l) {
  Glue g;
  std::vector<ClassOut> r(l.size());
  for (size_t i = 0; i < l.size(); i++) r[i].cls = l[i];
  return r;
}
struct WO : Obj {
  wp::Wisard x;
  WO(const std::string& j) : x(j) {}
  WO(int a) : x(a) {}
  WO(int a, wp::nl::json o) : x(a, o) {}
  Obj* clone() override { return new WO(*this); }
  void trainL(const VVI& v, const VS& l) override { x.train(v, l); }
  void trainDS(Obj* d) override { x.train(static_cast<DsO*>(d)->x); }
  void leaveOne(const VI& v, const std::string& l) override { x.leaveOneOut(v, l); }
  void leaveMore(const VVI& v, const VS& l) override { x.leaveMoreOut(v, l); }
  std::vector<ClassOut> classify(const VVI& v) override { return outs(x.classify(v)); }
  std::vector<ClassOut> classifyDS(Obj* d) override { return outs(x.classify(static_cast<DsO*>(d)->x)); }
  std::map<std::string, VVI> mental() override {
    std::map<std::string, VI> m = x.getMentalImages();
    Glue g;
    std::map<std::string, VVI> r;
    for (auto& k : m) r[k.first] = VVI(1, k.second);
    return r;
  }
  std::string json(int form, const std::string& p) override {
    return form == 0 ? x.json() : form == 1 ? x.json(false) : form == 2 ? x.json(false, p) : form == 3 ? x.json(true) : x.json(true, p); }
  std::string jsonConfig() override { return x.jsonConfig(); }
  long sizeofB() override { return x.getsizeof(); }
};
struct CO : Obj {
  wp::ClusWisard x;
  CO(const std::string& j) : x(j) {}
  CO(int a, float m, int t, int l) : x(a, m, t, l) {}
  CO(int a, float m, int t, int l, wp::nl::json o) : x(a, m, t, l, o) {}
  Obj* clone() override { return new CO(*this); }
  void trainL(const VVI& v, const VS& l) override { x.train(v, l); }
  void trainMap(const VVI& v, const std::map<int, std::string>& l) override {
    std::map<int, std::string> m(l);
    x.train(v, m);
  }
  void trainUns(const VVI& v) override { x.trainUnsupervised(v); }
  std::vector<ClassOut> classify(const VVI& v) override { return outs(x.classify(v)); }
  VS classifyUns(const VVI& v) override { return x.classifyUnsupervised(v); }
  std::map<std::string, VVI> mental() override { return x.getMentalImages(); }
  VVI mental1(const std::string& l) override { return x.getMentalImage(l); }
  std::string json(int form, const std::string& p) override {
    return form == 0 ? x.json() : form == 1 ? x.json(false) : form == 2 ? x.json(false, p) : form == 3 ? x.json(true) : x.json(true, p); }
  std::string jsonConfig() override { return x.jsonConfig(); }
  long sizeofB() override { return x.getsizeof(); }
};
struct HO : Obj {
  wp::RAMDataHandle x;
  HO(const std::string& s) : x(s) {}
  Obj* clone() override { return new HO(*this); }
  int hGet(int r, int a) override { return x.get(r, a); }
  std::map<unsigned long long, int> hGetAll(int r) override {
    wp::ram_t m = x.get(r);
    Glue g;
    return std::map<unsigned long long, int>(m.begin(), m.end());
  }
  void hSet(int r, int a, int v) override { x.set(r, a, v); }
  std::string hData() override { return x.data(); }
  std::string hData1(int r) override { return x.data(r); }
  bool hCompare(Obj* o) override { return x.compare(static_cast<HO*>(o)->x); }
  void hSave(const std::string& p) override { x.save(p); }
};
struct KCO : Obj {
  wp::KernelCanvas x;
  KCO(int d, int n) : x(d, n) {}
  KCO(int d, int n, wp::nl::json o) : x(d, n, o) {}
  VI kcTransform(const VVD& d) override { return x.transform(d); }
};
struct SyO : Obj {
  wp::Synthesizer x;
  SyO(const VI& m) : x(m) {}
  VI synthMake() override { return x.make(); }
};

wp::nl::json tojson(const Opts& o) {
  Glue g;
  wp::nl::json j = wp::nl::json::object();
  for (auto& k : o.num) {
    int t = o.kind.at(k.first);
    if (t == 0) j[k.first] = k.second != 0;
    else if (t == 1) j[k.first] = (int)k.second;
    else j[k.first] = k.second;
  }
  if (o.indexes.size()) j["indexes"] = o.indexes;
  if (o.mapping.size()) j["mapping"] = o.mapping;
  if (o.mappings.size()) j["mapping"] = o.mappings;
  return j;
}
bool none(const Opts& o) { return o.num.empty() && o.indexes.empty() && o.mapping.empty() && o.mappings.empty(); }

struct E : Engine {
  const char* name() override { return SIM_NAME; }
  std::string version() override { return wp::__version__; }
  Obj* newD(int a, int e, const Opts& o) override { return none(o) ? new DO(a, e) : new DO(a, e, tojson(o)); }
  Obj* newDj(const std::string& s) override { return new DO(s); }
  Obj* newW(int a, const Opts& o) override { return none(o) ? new WO(a) : new WO(a, tojson(o)); }
  Obj* newWj(const std::string& s) override { return new WO(s); }
  Obj* newC(int a, double m, int t, int l, const Opts& o) override {
    return none(o) ? new CO(a, (float)m, t, l) : new CO(a, (float)m, t, l, tojson(o)); }
  Obj* newCj(const std::string& s) override { return new CO(s); }
  Obj* newBinN(long n) override { return new BinO(wp::BinInput((wp::index_size_t)n)); }
  Obj* newBinV(const VI& v) override { return new BinO(wp::BinInput(shorts(v))); }
  Obj* newBinD(const std::string& s) override { return new BinO(wp::BinInput(s)); }
  Obj* newDS() override { return new DsO(); }
  Obj* newDSf(const std::string& f) override { return new DsO(f); }
  Obj* newH(const std::string& s) override { return new HO(s); }
  Obj* newKC(int d, int n, const Opts& o) override { return none(o) ? new KCO(d, n) : new KCO(d, n, tojson(o)); }
  Obj* newSy(const VI& m) override { return new SyO(m); }
};
}  // namespace
extern "C" __attribute__((visibility("default"))) Engine* sim_engine() {
  static E e;
  return &e;
}
