#ifndef VSIM_INTERNAL_H
#define VSIM_INTERNAL_H
namespace sim { namespace internal {
[[noreturn]] void fatal(const char* what);
const char* scratch_base();
} }
#endif
