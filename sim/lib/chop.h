// A process that does nothing but ask for steps to end at drawn places.
#ifndef VSIM_CHOP_H
#define VSIM_CHOP_H
#include "gen.h"
#include <algorithm>
namespace gen
{
struct Chopper: public BunchProcess
{
	std::vector<std::vector<double> > plan;   // per component visit, fractions in order
	size_t visit = 0, next = 0;
	double s = 0, L = 0;
	int zeros = 0, zeros_left = 0;
	long& nsteps;
	long throw_at = -1;
	std::vector<std::vector<double> >* recorded = nullptr;
	Chopper(int prio, long& n) : BunchProcess("CHOPPER", prio), nsteps(n) {}
	void InitialiseProcess(Bunch&) override
	{
	}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		currentComponent = &c;
		L = c.GetLength();
		s = 0;
		next = 0;
		cur = plan[visit % plan.size()];
		visit++;
		zeros_left = zeros;
		if(recorded)
			recorded->push_back(std::vector<double>());
		active = true;
	}
	double GetMaxAllowedStepSize() const override
	{
		if(zeros_left > 0)
			return 0;
		if(next < cur.size())
			return std::max(0.0, cur[next] * L - s);
		return 1e30;
	}
	struct Stop: public MerlinException
	{
		Stop() : MerlinException("stop") {}
	};
	void DoProcess(double ds) override
	{
		if(throw_at >= 0 && nsteps == throw_at)
		{
			throw_at = -1;
			sim::fault("process.exception");
			throw Stop();
		}
		nsteps++;
		if(recorded)
			recorded->back().push_back(ds);
		if(zeros_left > 0 && ds == 0)
			zeros_left--;
		s += ds;
		while(next < cur.size() && s >= cur[next] * L)
			next++;
	}
	std::vector<double> cur;
};

// drawn cuts as fractions of an element
inline std::vector<double> draw_cuts()
{
	std::vector<double> f;
	switch(sim::draw(5))
	{
	case 0:
		f.push_back(sim::real(0.5, 1));
		break;
	case 1:
	{
		int n = (int) sim::range(2, 9);
		for(int i = 1; i < n; i++)
			f.push_back((double) i / n);
		break;
	}
	case 2:
	{
		int n = (int) sim::range(1, 12);
		for(int i = 0; i < n; i++)
			f.push_back(sim::real(0, 1));
		break;
	}
	case 3:   // tiny first and last steps
		f.push_back(1e-9 * sim::real(0, 1));
		f.push_back(1 - 1e-9 * sim::real(0, 1));
		break;
	default:
		f.push_back(1e-16);
		f.push_back(0.5);
		f.push_back(0.5 + 2e-16);
		f.push_back(std::nextafter(1.0, 0.0));
		break;
	}
	std::sort(f.begin(), f.end());
	for(double x : f)
		sim::mix((uint64_t) (x * 64));
	return f;
}
}
#endif
