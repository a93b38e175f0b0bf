// Interface between the pq simulator workload (qsim.cpp) and the models of
// src/pqsim, which are compiled in qsim_models.cpp.
#ifndef VERIF_QSIM_H
#define VERIF_QSIM_H
#include <cstddef>
#include <ostream>
#include <string>

// What Simulator::run does about a queue that gives an incorrect value.
struct SimExit {};

class Simulator;
namespace qs {
  typedef unsigned long V;
  extern long now; // the processor clock
  struct IModel {
    virtual ~IModel() {}
    virtual void push(const V* begin, const V* end) = 0;
    virtual V pop() = 0;
    virtual bool empty() = 0;
    virtual size_t comparisons() = 0;
    virtual size_t memoryUse() = 0;
    virtual std::string name() = 0;
    virtual void print(std::ostream& out) = 0;
    virtual void run(Simulator& sim, bool printData, bool printStates, long ticks) = 0;
  };
  const int modelCount = 46;
  bool dedups(int kind); // ranges must not contain duplicates
  IModel* makeModel(int kind, size_t geoBase, size_t minBucket);
}
#endif
