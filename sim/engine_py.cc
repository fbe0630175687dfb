// Engine over the Python module built from /repo/src, in an embedded interpreter: every call goes
// through the Python objects, argument conversion and wrappers a Python user goes through.
#include SIM_BIND
#include <pybind11/embed.h>
#include "engine.h"
namespace {
py::object* mod;
struct PyErr : std::runtime_error { using std::runtime_error::runtime_error; };

template <class F> auto guard(F f) -> decltype(f()) {
  try { return f(); }
  catch (py::error_already_set& e) {
    std::string w = e.what();
    bool mem = e.matches(PyExc_MemoryError);
    { py::object t = e.type(), v = e.value(); }
    if (mem) throw std::bad_alloc();
    throw PyErr(w);
  }
}
#define G(expr) guard([&]() { return expr; })
#define GV(expr) guard([&]() { expr; })

py::list li(const VI& v) { py::list l; for (int x : v) l.append(x); return l; }
py::list lli(const VVI& v) { py::list l; for (auto& x : v) l.append(li(x)); return l; }
py::str st(const std::string& s) { return py::reinterpret_steal<py::str>(PyUnicode_DecodeUTF8(s.data(), s.size(), "surrogateescape")); }
py::list ls(const VS& v) { py::list l; for (auto& x : v) l.append(st(x)); return l; }
std::string un(py::handle h) {
  py::object b = py::reinterpret_steal<py::object>(PyUnicode_AsEncodedString(h.ptr(), "utf-8", "surrogateescape"));
  if (!b) throw py::error_already_set();
  return std::string(PyBytes_AsString(b.ptr()), PyBytes_Size(b.ptr()));
}
VI vi(py::handle h) { VI r; for (auto x : h) r.push_back(x.cast<int>()); return r; }
VVI vvi(py::handle h) { VVI r; for (auto x : h) r.push_back(vi(x)); return r; }

struct PO : Obj {
  py::object x;
  bool wis;
  PO(py::object o, bool w = false) : x(o), wis(w) {}
  py::object o(Obj* p) { return static_cast<PO*>(p)->x; }
  void train1(const VI& v) override { GV(x.attr("train")(li(v))); }
  void trainN(const VVI& v) override { GV(x.attr("train")(lli(v))); }
  void trainBin(Obj* b) override { GV(x.attr("train")(o(b))); }
  VI votes(const VI& v) override { return G(vi(x.attr("classify")(li(v)))); }
  VI votesBin(Obj* b) override { return G(vi(x.attr("classify")(o(b)))); }
  void trainL(const VVI& v, const VS& l) override { GV(x.attr("train")(lli(v), ls(l))); }
  void trainDS(Obj* d) override { GV(x.attr("train")(o(d))); }
  void trainMap(const VVI& v, const std::map<int, std::string>& l) override {
    guard([&]() {
      py::dict d;
      for (auto& k : l) d[py::int_(k.first)] = st(k.second);
      x.attr("train")(lli(v), d);
    });
  }
  void trainUns(const VVI& v) override { GV(x.attr("trainUnsupervised")(lli(v))); }
  void leaveOne(const VI& v, const std::string& l) override { GV(x.attr("leaveOneOut")(li(v), st(l))); }
  void leaveMore(const VVI& v, const VS& l) override { GV(x.attr("leaveMoreOut")(lli(v), ls(l))); }
  std::vector<ClassOut> outs(py::object r) {
    std::vector<ClassOut> out;
    for (auto h : r) {
      ClassOut c;
      if (py::isinstance<py::dict>(h)) {
        py::dict d = py::reinterpret_borrow<py::dict>(h);
        c.cls = un(d["class"]);
        if (d.contains("activationDegree")) { c.hasAct = true; c.act = d["activationDegree"].cast<double>(); }
        if (d.contains("confidence")) { c.hasConf = true; c.conf = d["confidence"].cast<double>(); }
        if (d.contains("classesDegrees")) {
          c.hasDeg = true;
          for (auto k : d["classesDegrees"]) c.deg.push_back(std::make_pair(un(k["class"]), k["degree"].cast<double>()));
        }
      } else c.cls = un(h);
      out.push_back(c);
    }
    return out;
  }
  std::vector<ClassOut> classify(const VVI& v) override { return G(outs(x.attr("classify")(lli(v)))); }
  std::vector<ClassOut> classifyDS(Obj* d) override { return G(outs(x.attr("classify")(o(d)))); }
  VS classifyUns(const VVI& v) override {
    return guard([&]() { VS r; for (auto h : x.attr("classifyUnsupervised")(lli(v))) r.push_back(un(h)); return r; }); }
  std::map<std::string, VVI> mental() override {
    return guard([&]() {
      py::dict d = x.attr("getMentalImages")();
      std::map<std::string, VVI> r;
      for (auto k : d) {
        if (wis) r[un(k.first)] = VVI(1, vi(k.second));
        else r[un(k.first)] = vvi(k.second);
      }
      return r;
    });
  }
  VVI mental1(const std::string& l) override { return G(vvi(x.attr("getMentalImage")(st(l)))); }
  std::string json(int f, const std::string& p) override {
    return guard([&]() {
      py::object j = x.attr("json");
      return un(f == 0 ? j() : f == 1 ? j(false) : f == 2 ? j(false, st(p)) : f == 3 ? j(true) : j(true, st(p)));
    });
  }
  std::string jsonConfig() override { return G(un(x.attr("jsonConfig")())); }
  long sizeofB() override { return G(x.attr("getsizeof")().cast<long>()); }
  int binGet(long i) override { return G((i & 1 ? x.attr("get")(i) : x.attr("__getitem__")(i)).cast<int>()); }
  void binSet(long i, int v) override { GV(x.attr("set")(i, v)); }
  long binSize() override { return G(x.attr("size")().cast<long>()); }
  std::string binData() override { return G(un(x.attr("data")())); }
  void dsAddVec(const VI& v, bool has, const std::string& l) override { GV(has ? x.attr("add")(li(v), st(l)) : x.attr("add")(li(v))); }
  void dsAddBin(Obj* b, bool has, const std::string& l) override { GV(has ? x.attr("add")(o(b), st(l)) : x.attr("add")(o(b))); }
  long dsSize() override { return G(x.attr("size")().cast<long>()); }
  Obj* dsGet(long i) override { return G((Obj*)new PO(x.attr("get")(i))); }
  std::string dsLabel(long i) override { return G(un(x.attr("getLabel")(i))); }
  void dsSave(const std::string& p) override { GV(x.attr("save")(st(p))); }
  int hGet(int r, int a) override { return G(x.attr("get")(r, a).cast<int>()); }
  std::map<unsigned long long, int> hGetAll(int r) override {
    return guard([&]() {
      std::map<unsigned long long, int> m;
      py::dict d = x.attr("get")(r);
      for (auto k : d) m[k.first.cast<unsigned long long>()] = k.second.cast<int>();
      return m;
    });
  }
  void hSet(int r, int a, int v) override { GV(x.attr("set")(r, a, v)); }
  std::string hData() override { return G(un(x.attr("data")())); }
  std::string hData1(int r) override { return G(un(x.attr("data")(r))); }
  bool hCompare(Obj* p) override { return G(x.attr("compare")(o(p)).cast<bool>()); }
  VI kcTransform(const VVD& d) override {
    return guard([&]() {
      py::list l;
      for (auto& r : d) { py::list q; for (double v : r) q.append(v); l.append(q); }
      return vi(x.attr("transform")(l));
    });
  }
  VI synthMake() override { return G(vi(x.attr("make")())); }
};
py::dict kw(const Opts& o) {
  py::dict d;
  for (auto& k : o.num) {
    int t = o.kind.at(k.first);
    if (t == 0) d[k.first.c_str()] = py::bool_(k.second != 0);
    else if (t == 1) d[k.first.c_str()] = py::int_((int)k.second);
    else d[k.first.c_str()] = py::float_(k.second);
  }
  if (o.indexes.size()) d["indexes"] = li(o.indexes);
  if (o.mapping.size()) d["mapping"] = lli(o.mapping);
  if (o.mappings.size()) {
    py::dict m;
    for (auto& k : o.mappings) m[st(k.first)] = lli(k.second);
    d["mapping"] = m;
  }
  return d;
}
struct E : Engine {
  const char* name() override { return SIM_NAME; }
  bool py() override { return true; }
  std::string version() override { return un(mod->attr("__version__")); }
  Obj* newD(int a, int e, const Opts& o) override { return G((Obj*)new PO(mod->attr("Discriminator")(a, e, **kw(o)))); }
  Obj* newDj(const std::string& s) override { return G((Obj*)new PO(mod->attr("Discriminator")(st(s)))); }
  Obj* newW(int a, const Opts& o) override { return G((Obj*)new PO(mod->attr("Wisard")(a, **kw(o)), true)); }
  Obj* newWj(const std::string& s) override { return G((Obj*)new PO(mod->attr("Wisard")(st(s)), true)); }
  Obj* newC(int a, double m, int t, int l, const Opts& o) override { return G((Obj*)new PO(mod->attr("ClusWisard")(a, m, t, l, **kw(o)))); }
  Obj* newCj(const std::string& s) override { return G((Obj*)new PO(mod->attr("ClusWisard")(st(s)))); }
  Obj* newBinN(long n) override { return G((Obj*)new PO(mod->attr("BinInput")(n))); }
  Obj* newBinV(const VI& v) override { return G((Obj*)new PO(mod->attr("BinInput")(li(v)))); }
  Obj* newBinD(const std::string& s) override { return G((Obj*)new PO(mod->attr("BinInput")(st(s)))); }
  Obj* newDS() override { return G((Obj*)new PO(mod->attr("DataSet")())); }
  Obj* newDSf(const std::string& f) override { return G((Obj*)new PO(mod->attr("DataSet")(st(f)))); }
  Obj* newH(const std::string& s) override { return G((Obj*)new PO(mod->attr("RAMDataHandle")(st(s)))); }
  Obj* newKC(int d, int n, const Opts& o) override { return G((Obj*)new PO(mod->attr("KernelCanvas")(d, n, **kw(o)))); }
  Obj* newSy(const VI& m) override { return G((Obj*)new PO(mod->attr("Synthesizer")(li(m)))); }
};
}  // namespace
extern "C" __attribute__((visibility("default"))) Engine* sim_engine() {
  static E* e;
  if (!e) {
    PyImport_AppendInittab("wisardpkg", PyInit_wisardpkg);
    PyConfig c;
    PyConfig_InitIsolatedConfig(&c);
    c.use_hash_seed = 1;
    c.hash_seed = 0;
    c.write_bytecode = 0;
    c.install_signal_handlers = 0;
    c.buffered_stdio = 0;
    Py_InitializeFromConfig(&c);
    PyConfig_Clear(&c);
    mod = new py::object(py::module_::import("wisardpkg"));
    e = new E();
  }
  return e;
}
