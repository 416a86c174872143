// The transport integrators once more, as they are without OpenMP, beside the others.
#undef ENABLE_OPENMP
#define TRANSPORT TRANSPORT_SERIAL
#include "StdIntegrators.h"
#undef MAKE_DEF_INTG_SET
#define MAKE_DEF_INTG_SET(T, S)
#include "TransportIntegrators.cpp"
