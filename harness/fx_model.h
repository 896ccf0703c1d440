// A component with every facet, for the object and simulator harnesses.
#ifndef FX_MODEL_H_
#define FX_MODEL_H_
#include "fx.h"
#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Services/ILogger.h>
#include <Smp/ViewKind.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Composite.h>
#include <Xsmp/Container.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Model.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Publication/TypeRegistry.h>
#include <Xsmp/Reference.h>
#include <memory>

namespace fx {
inline int live = 0;            // Nodes alive
inline std::vector<int> dead{}; // ids of destroyed Nodes, in order

struct Node : Xsmp::Model,
              Xsmp::Composite,
              Xsmp::Aggregate,
              Xsmp::EventProvider,
              Xsmp::EventConsumer,
              Xsmp::EntryPointPublisher,
              Xsmp::FallibleModel {
  int id;
  int disconnects = 0;
  Node(const std::string &name, int i, Smp::IComposite *parent = nullptr,
       Smp::ISimulator *sim = nullptr)
      : Model(name.c_str(), "", parent, sim), id(i) {
    ++live;
  }
  ~Node() override {
    --live;
    dead.push_back(id);
  }
  void Disconnect() override {
    Model::Disconnect();
    ++disconnects;
  }
};
struct Special : Node {
  using Node::Node;
};
} // namespace fx
#endif
