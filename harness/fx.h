// Shared helpers of the object, simulator and service harnesses.
#ifndef FX_H_
#define FX_H_
#include "pbt.h"
#include <Smp/Exception.h>
#include <Smp/PrimitiveTypes.h>
#include <string>

namespace fx {
// "" if f returns, otherwise the name of the exception it throws
template <class F> std::string outcome(F &&f) {
  try {
    f();
  } catch (const Smp::Exception &e) {
    return e.GetName() ? e.GetName() : "(unnamed)";
  } catch (const pbt::Fail &) {
    throw;
  } catch (const pbt::Discard &) {
    throw;
  } catch (const std::exception &e) {
    return std::string("std: ") + e.what();
  } catch (int i) {
    return "int " + std::to_string(i);
  }
  return "";
}
inline std::string str(Smp::String8 s) { return s ? s : "<null>"; }
} // namespace fx
#endif
