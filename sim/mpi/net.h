// Simulated nodes and the network between them: every node is a fiber, one runs at a
// time, and the simulator draws which node runs and which message arrives next.
#ifndef VSIM_NET_H
#define VSIM_NET_H
#include <functional>
namespace net
{
struct Stats
{
	long switches = 0, messages = 0, bytes = 0, waited = 0, rendezvous = 0;
};
// runs body(rank) on every node until all are done; fails the run when they cannot finish
Stats run(int nodes, const std::function<void(int)>& body);
int rank();
}
#endif
