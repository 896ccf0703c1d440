// a package library for the tests: NAME, INIT (1 ok, 0 fails, -1 absent),
// FIN (1 ok, 0 fails, -1 absent)
namespace Smp {
class ISimulator;
namespace Publication {
class ITypeRegistry;
}
} // namespace Smp
extern "C" void pbt_event(const char *what, void *simulator);
extern "C" {
#if INIT >= 0
bool Initialise(::Smp::ISimulator *s, ::Smp::Publication::ITypeRegistry *r) {
  pbt_event(r ? "init " NAME : "init without registry " NAME, s);
  return INIT;
}
#endif
#if FIN >= 0
bool Finalise(::Smp::ISimulator *s) {
  pbt_event("fin " NAME, s);
  return FIN;
}
#endif
}
