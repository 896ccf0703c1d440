// A simulator with the services of the repository and a silent logger.
#ifndef FX_SIM_H_
#define FX_SIM_H_
#include <Smp/IEntryPoint.h>
#include <Smp/Services/ILogger.h>
#include <Smp/SimulatorStateKind.h>
#include <Xsmp/EntryPoint.h>
#include <Xsmp/Service.h>
#include <Xsmp/Services/XsmpEventManager.h>
#include <Xsmp/Services/XsmpLinkRegistry.h>
#include <Xsmp/Services/XsmpResolver.h>
#include <Xsmp/Services/XsmpScheduler.h>
#include <Xsmp/Services/XsmpTimeKeeper.h>
#include <Xsmp/Simulator.h>
#include <mutex>
#include <string>
#include <vector>

namespace fx {

// keeps the error messages, drops the other ones
class SilentLogger : public Xsmp::Service,
                     public virtual Smp::Services::ILogger {
public:
  using Xsmp::Service::Service;
  Smp::Services::LogMessageKind QueryLogMessageKind(Smp::String8) override {
    return LMK_Information;
  }
  void Log(const Smp::IObject *, Smp::String8 message,
           Smp::Services::LogMessageKind kind) override {
    if (kind == LMK_Error) {
      std::scoped_lock lck(mutex);
      errors.emplace_back(message ? message : "(null)");
    }
  }
  std::string lastError() {
    std::scoped_lock lck(mutex);
    return errors.empty() ? "" : errors.back();
  }
  std::mutex mutex;
  std::vector<std::string> errors;
};

struct World {
  Xsmp::Simulator sim;
  SilentLogger *logger;
  Xsmp::Services::XsmpScheduler *scheduler;
  Xsmp::Services::XsmpTimeKeeper *timeKeeper;
  Xsmp::Services::XsmpEventManager *events;

  Smp::ISimulator *isim() { return &sim; }
  Smp::IComposite *root() {
    return static_cast<Smp::IComposite *>(static_cast<Smp::ISimulator *>(&sim));
  }
  Smp::IObject *object() { return root(); }

  explicit World(bool connect = true) {
    sim.AddService(logger = new SilentLogger("XsmpLogger", "", root(), &sim));
    sim.AddService(timeKeeper = new Xsmp::Services::XsmpTimeKeeper(
                       "XsmpTimeKeeper", "", root(), &sim));
    sim.AddService(new Xsmp::Services::XsmpResolver("XsmpResolver", "", root(),
                                                    &sim));
    sim.AddService(events = new Xsmp::Services::XsmpEventManager(
                       "XsmpEventManager", "", root(), &sim));
    sim.AddService(new Xsmp::Services::XsmpLinkRegistry("XsmpLinkRegistry", "",
                                                        root(), &sim));
    sim.AddService(scheduler = new Xsmp::Services::XsmpScheduler(
                       "XsmpScheduler", "", root(), &sim));
    if (connect)
      sim.Connect();
  }
};

inline const char *stateName(Smp::SimulatorStateKind s) {
  switch (s) {
  case Smp::SimulatorStateKind::SSK_Building:
    return "Building";
  case Smp::SimulatorStateKind::SSK_Connecting:
    return "Connecting";
  case Smp::SimulatorStateKind::SSK_Initialising:
    return "Initialising";
  case Smp::SimulatorStateKind::SSK_Standby:
    return "Standby";
  case Smp::SimulatorStateKind::SSK_Executing:
    return "Executing";
  case Smp::SimulatorStateKind::SSK_Storing:
    return "Storing";
  case Smp::SimulatorStateKind::SSK_Restoring:
    return "Restoring";
  case Smp::SimulatorStateKind::SSK_Reconnecting:
    return "Reconnecting";
  case Smp::SimulatorStateKind::SSK_Exiting:
    return "Exiting";
  case Smp::SimulatorStateKind::SSK_Aborting:
    return "Aborting";
  default:
    return "?";
  }
}
} // namespace fx
#endif
