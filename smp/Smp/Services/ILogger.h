// Stand-in for the ECSS-E-ST-40-07C header <Smp/Services/ILogger.h>, written for the checks in /verif.
#ifndef VERIF_SMP_SERVICES_ILOGGER_H_
#define VERIF_SMP_SERVICES_ILOGGER_H_

#include <Smp/IService.h>
#include <Smp/PrimitiveTypes.h>
#include <Smp/Services/LogMessageKind.h>

namespace Smp::Services {
class ILogger : public virtual ::Smp::IService {
public:
  ~ILogger() noexcept override = default;
  static constexpr String8 LMK_InformationName = "Information";
  static constexpr LogMessageKind LMK_Information = 0;
  static constexpr String8 LMK_EventName = "Event";
  static constexpr LogMessageKind LMK_Event = 1;
  static constexpr String8 LMK_WarningName = "Warning";
  static constexpr LogMessageKind LMK_Warning = 2;
  static constexpr String8 LMK_ErrorName = "Error";
  static constexpr LogMessageKind LMK_Error = 3;
  static constexpr String8 LMK_DebugName = "Debug";
  static constexpr LogMessageKind LMK_Debug = 4;
  virtual LogMessageKind QueryLogMessageKind(String8 messageKindName) = 0;
  virtual void Log(const IObject *sender, String8 message, LogMessageKind kind = 0) = 0;
};
} // namespace Smp::Services

#endif
