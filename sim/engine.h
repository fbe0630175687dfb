// The interface through which the simulator drives one build of wisardpkg.
// An engine is a shared object compiled from /repo's working tree: the C++ header generated from
// src/, the committed header, or the Python module (embedded interpreter).  C++11 only.
#ifndef SIM_ENGINE_H
#define SIM_ENGINE_H
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

typedef std::vector<int> VI;
typedef std::vector<VI> VVI;
typedef std::vector<std::string> VS;
typedef std::vector<std::vector<double>> VVD;

struct ClassOut {
  std::string cls;
  bool hasAct, hasConf, hasDeg;
  double act, conf;
  std::vector<std::pair<std::string, double>> deg;
  ClassOut() : hasAct(false), hasConf(false), hasDeg(false), act(0), conf(0) {}
  bool operator==(const ClassOut& o) const { return cls == o.cls && hasAct == o.hasAct && hasConf == o.hasConf && hasDeg == o.hasDeg && same(act, o.act) && same(conf, o.conf) && deg == o.deg; }
  static bool same(double a, double b) { return a == b || (a != a && b != b); }
};

struct Unsupported {};  // this engine has no such operation; never reported as an outcome

struct Opts {
  std::map<std::string, double> num;  // booleans, integers, floats by option name
  std::map<std::string, int> kind;    // 0 bool, 1 int, 2 float
  VI indexes;
  VVI mapping;                          // discriminator
  std::map<std::string, VVI> mappings;  // wisard, per label
  void b(const std::string& k, bool v) { num[k] = v; kind[k] = 0; }
  void i(const std::string& k, int v) { num[k] = v; kind[k] = 1; }
  void f(const std::string& k, double v) { num[k] = v; kind[k] = 2; }
};

#define UNS { throw Unsupported(); }
struct Obj {
  virtual ~Obj() {}
  virtual Obj* clone() UNS
  // discriminator
  virtual void train1(const VI&) UNS
  virtual void trainN(const VVI&) UNS
  virtual void trainBin(Obj*) UNS
  virtual void untrain1(const VI&) UNS
  virtual VI votes(const VI&) UNS
  virtual VI votesBin(Obj*) UNS
  virtual VI mentalD() UNS
  virtual int nTrain() UNS
  virtual int nRams() UNS
  // models
  virtual void trainL(const VVI&, const VS&) UNS
  virtual void trainDS(Obj*) UNS
  virtual void trainMap(const VVI&, const std::map<int, std::string>&) UNS
  virtual void trainUns(const VVI&) UNS
  virtual void leaveOne(const VI&, const std::string&) UNS
  virtual void leaveMore(const VVI&, const VS&) UNS
  virtual std::vector<ClassOut> classify(const VVI&) UNS
  virtual std::vector<ClassOut> classifyDS(Obj*) UNS
  virtual VS classifyUns(const VVI&) UNS
  virtual std::map<std::string, VVI> mental() UNS
  virtual VVI mental1(const std::string&) UNS
  // form: 0 json(), 1 json(false), 2 json(false,path), 3 json(true), 4 json(true,path)
  virtual std::string json(int, const std::string&) UNS
  virtual std::string jsonConfig() UNS
  virtual long sizeofB() UNS
  // packed input
  virtual int binGet(long) UNS
  virtual void binSet(long, int) UNS
  virtual long binSize() UNS
  virtual std::string binData() UNS
  // data set
  virtual void dsAddVec(const VI&, bool, const std::string&) UNS
  virtual void dsAddBin(Obj*, bool, const std::string&) UNS
  virtual long dsSize() UNS
  virtual Obj* dsGet(long) UNS
  virtual std::string dsLabel(long) UNS
  virtual void dsSave(const std::string&) UNS
  // RAM data handle
  virtual int hGet(int, int) UNS
  virtual std::map<unsigned long long, int> hGetAll(int) UNS
  virtual void hSet(int, int, int) UNS
  virtual std::string hData() UNS
  virtual std::string hData1(int) UNS
  virtual bool hCompare(Obj*) UNS
  virtual void hSave(const std::string&) UNS
  // others
  virtual VI kcTransform(const VVD&) UNS
  virtual VI synthMake() UNS
};

struct Engine {
  virtual ~Engine() {}
  virtual const char* name() = 0;
  virtual bool py() { return false; }
  virtual std::string version() = 0;
  virtual Obj* newD(int addr, int entry, const Opts&) UNS
  virtual Obj* newDj(const std::string&) UNS
  virtual Obj* newW(int addr, const Opts&) UNS
  virtual Obj* newWj(const std::string&) UNS
  virtual Obj* newC(int addr, double minScore, int thr, int lim, const Opts&) UNS
  virtual Obj* newCj(const std::string&) UNS
  virtual Obj* newBinN(long) UNS
  virtual Obj* newBinV(const VI&) UNS
  virtual Obj* newBinD(const std::string&) UNS
  virtual Obj* newDS() UNS
  virtual Obj* newDSf(const std::string&) UNS
  virtual Obj* newH(const std::string&) UNS
  virtual Obj* newKC(int dim, int n, const Opts&) UNS
  virtual Obj* newSy(const VI&) UNS
};
#undef UNS

extern "C" Engine* sim_engine();
// Called by engines around code that is not the library under test (glue): turns the
// simulator's fault injection and yielding off.
extern "C" int sim_enter_glue();
extern "C" void sim_leave_glue(int);
struct Glue {
  int s;
  Glue() : s(sim_enter_glue()) {}
  ~Glue() { sim_leave_glue(s); }
};
#endif
