// Interface between the divisor simulator workload (dsim.cpp) and the models
// of src/divsim, which are compiled in dsim_models.cpp.
#ifndef VERIF_DSIM_H
#define VERIF_DSIM_H
#include <cstddef>
#include <string>
#include <vector>

// What Simulation::run does about a finder that gives an incorrect answer.
struct SimExit {};

class Simulation;
namespace ds {
  typedef std::vector<int> Exps;
  extern long now; // the processor clock
  struct Params {
    size_t vars;
    bool minimize, toFront, sort, cache;
    double ratio;
    size_t min;
  };
  // Receives pointers to exponents; may stop.
  struct Out {
    std::vector<const int*> got;
    size_t stopAfter;
    Out(): stopAfter(0) {}
    bool add(const int* p);
  };
  struct IFinder {
    virtual ~IFinder() {}
    virtual void insert(Exps& e) = 0;
    virtual void insert(Exps& e, Out& removed) = 0;
    virtual const int* findDivisor(Exps& e, bool constant) = 0;
    virtual void findAllDivisors(Exps& e, Out& o, bool constant) = 0;
    virtual void forAll(Out& o, bool constant) = 0;
    virtual size_t size() = 0;
    virtual std::string name() = 0;
    virtual unsigned long long queries() = 0;
  };
  const int modelCount = 20;
  bool isList(int kind);
  bool removes(int kind);
  IFinder* makeModel(int kind, const Params& p);
  // lets Simulation construct and run such a model; the run takes some time
  unsigned long long runModel(int kind, const Params& p, Simulation& s, long ticks);
}
#endif
