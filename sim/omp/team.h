// Simulated OpenMP runtime: the threads of a parallel region pass a baton, and the simulator
// draws after how many memory accesses it moves on, and to whom.
#ifndef VSIM_TEAM_H
#define VSIM_TEAM_H
namespace team
{
struct Style
{
	int threads = 1;     // how many a region gets (when the code does not ask for a number)
	bool vary = false;   // another number for every region
	int density = 0;     // 0 threads run one after another .. 3 switches at every few accesses
};
struct Stats
{
	long regions = 0, switches = 0, accesses = 0, chunks = 0, most = 0;
};
void use(const Style& s);
Stats take();            // since the last call
}
#endif
