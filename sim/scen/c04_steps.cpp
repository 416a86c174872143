// C04: the process scheduler.  Scripted processes with arbitrary priorities, step
// limits, activity patterns and injected exceptions share a component with each
// other; every call the scheduler makes is recorded and checked.
#include "gen.h"
#include "ProcessStepManager.h"
#include "MerlinException.h"
#include <algorithm>
#include <list>
using namespace gen;

namespace
{
struct Call
{
	int comp, proc;
	double ds, s_before;
	double allowed;   // this process' limit just before the step
};
struct World
{
	std::vector<Call> calls;
	std::vector<int> told;          // processes told of the current component
	int comp = -1;
	int inits = 0;
	long throw_at = -1;             // DoProcess call at which a process throws
	long ncalls = 0;
	int alive = 0;
	int asked_limits = 0;
};
World* W;
struct Injected: public MerlinException
{
	Injected() : MerlinException("injected") {}
};
struct Fake: public BunchProcess
{
	int no;
	double s;
	size_t next;
	std::vector<double> bounds;   // step boundaries inside the current component
	double period;                // >0: fixed maximum step instead
	int stop_after;               // becomes inactive after that many own boundaries, -1 never
	int calls_here;
	int ninit = 0, ntold = 0;
	Fake(int n, int prio) :
		BunchProcess(sim::fmt("PROC%d", n), prio), no(n), s(0), next(0), period(0), stop_after(-1), calls_here(0)
	{
		W->alive++;
	}
	~Fake()
	{
		W->alive--;
	}
	void InitialiseProcess(Bunch&) override
	{
		ninit++;
		W->inits++;
	}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		currentComponent = &c;
		W->told.push_back(no);
		ntold++;
		s = 0;
		next = 0;
		calls_here = 0;
		bounds.clear();
		period = 0;
		const double L = c.GetLength();
		active = !sim::chance(1, 5);
		stop_after = -1;
		if(!active)
			return;
		switch(sim::draw(4))
		{
		case 0:
			break;
		case 1:
		{
			int k = (int) sim::range(1, 6);
			for(int i = 0; i < k; i++)
				bounds.push_back(L * sim::real(0, 1));
			std::sort(bounds.begin(), bounds.end());
			break;
		}
		case 2:
		{
			int k = (int) sim::range(1, 9);
			for(int i = 1; i <= k; i++)
				bounds.push_back(L * i / k);
			break;
		}
		default:
			period = L > 0 ? L / sim::real(0.6, 9) : 0.1;
			break;
		}
		if(sim::chance(1, 4))
			stop_after = (int) sim::range(1, 4);
	}
	double GetMaxAllowedStepSize() const override
	{
		if(period > 0)
			return period;
		if(next < bounds.size())
			return bounds[next] - s;
		return 1e30;
	}
	void DoProcess(double ds) override
	{
		if(W->throw_at >= 0 && W->ncalls++ == W->throw_at)
		{
			sim::fault("process.exception");
			throw Injected();
		}
		W->calls.push_back(Call{W->comp, no, ds, s, GetMaxAllowedStepSize()});
		s += ds;
		calls_here++;
		// a boundary at the current position costs one zero step; coinciding
		// boundaries are consumed together
		while(next < bounds.size() && std::fabs(s - bounds[next]) <= 1e-12)
			next++;
		if(stop_after > 0 && calls_here >= stop_after)
			active = false;
	}
};
struct Ent
{
	Fake* p;
	int prio;
	int no;
};
}

SCENARIO(steps)
{
	sim::context("process scheduling");
	static World w;
	W = &w;
	ProcessStepManager* m = new ProcessStepManager;
	std::vector<Ent> tab;          // in expected calling order
	std::vector<std::pair<Fake*, int>> removed;
	int made = 0;
	std::ostringstream log;
	bool logging = sim::chance(1, 2);
	if(logging)
		m->SetLogStream(&log);
	size_t log_seen = 0;
	ProtonBunch* bunch = new ProtonBunch(7000, 1);
	double total = 0;

	auto add = [&]()
	{
		int prio = (int) sim::draw(5);
		if(sim::chance(1, 8))
			prio = (int) sim::range(5, 1000);
		Fake* f = new Fake(made++, prio);
		m->AddProcess(f);
		auto it = tab.begin();
		while(it != tab.end() && it->prio <= prio)
			++it;
		tab.insert(it, Ent{f, prio, f->no});
		sim::ev("add PROC%d priority %d", f->no, prio);
		sim::mix(1000 + prio);
	};
	int n0 = (int) sim::range(1, 6);
	for(int i = 0; i < n0; i++)
		add();
	auto initialise = [&]()
	{
		std::vector<int> before;
		for(auto& e : tab)
			before.push_back(e.p->ninit);
		m->Initialise(*bunch);
		for(size_t i = 0; i < tab.size(); i++)
			SIM_CHECK(tab[i].p->ninit == before[i] + 1, "steps:initialise", "process %d initialised %d times by one initialisation", tab[i].no,
				tab[i].p->ninit - before[i]);
		total = 0;
		SIM_CHECK(m->GetIntegratedLength() == 0, "steps:integrated-length", "integrated length %.17g just after initialisation",
			m->GetIntegratedLength());
	};
	initialise();

	int ncomp = (int) sim::range(1, 14);
	Opts o;
	o.kinds = {DRIFT, MARKER, QUAD};
	for(int k = 0; k < ncomp; k++)
	{
		// the process table changes between components
		if(sim::chance(1, 3))
		{
			switch(sim::draw(4))
			{
			case 0:
				add();
				break;
			case 1:
				if(!tab.empty())
				{
					size_t i = sim::draw(tab.size());
					sim::ev("remove PROC%d (position %zu of %zu)", tab[i].no, i, tab.size());
					bool r = m->RemoveProcess(tab[i].p);
					SIM_CHECK(r, "steps:remove-present", "removing a registered process reported that it was not present (position %zu of %zu)", i,
						tab.size());
					removed.push_back({tab[i].p, tab[i].prio});
					tab.erase(tab.begin() + i);
					sim::probe("remove.present");
				}
				break;
			case 2:
				if(!removed.empty())
				{
					Fake* f = removed.back().first;
					sim::ev("remove absent PROC%d", f->no);
					bool r = m->RemoveProcess(f);
					SIM_CHECK(!r, "steps:remove-absent", "removing a process that is not registered reported success");
					sim::probe("remove.absent");
				}
				break;
			default:
				initialise();
				break;
			}
		}
		El e;
		memset((void *) &e.ap, 0, sizeof e.ap);
		e.kind = o.kinds[sim::draw(3)];
		e.len = has_len(e.kind) ? awkward_length(0.01, 40) : 0;
		if(e.kind == DRIFT && sim::chance(1, 6))
			e.len = 0;
		e.s1 = e.s2 = e.s3 = e.mpt = 0;
		e.faces = 0;
		e.name = sim::fmt("C%d", k);
		std::unique_ptr<AcceleratorComponent> c(make(e, 7000));
		const double L = c->GetLength();
		sim::ev("track %s length %.17g with %zu processes", c->GetQualifiedName().c_str(), L, tab.size());
		sim::mix((uint64_t) (L * 16) + 100 * tab.size());
		w.comp = k;
		w.calls.clear();
		w.told.clear();
		w.ncalls = 0;
		w.throw_at = sim::chance(1, 8) ? (long) sim::draw(12) : -1;
		bool threw = false;
		try
		{
			m->Track(*c);
		}
		catch(Injected&)
		{
			threw = true;
		}
		sim::steps(L);
		if(!threw)
			total += L;
		// every registered process is told about the component exactly once
		{
			std::vector<int> a = w.told, b;
			for(auto& t : tab)
				b.push_back(t.no);
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			SIM_CHECK(a == b, "steps:component-announcement", "%zu announcements for %zu processes", a.size(), b.size());
		}
		// split the calls into steps: a new step starts when the calling order restarts
		std::map<int, size_t> pos;
		for(size_t i = 0; i < tab.size(); i++)
			pos[tab[i].no] = i;
		size_t i = 0;
		double s = 0;
		size_t nst = 0;
		std::map<int, double> sum;
		size_t nb = 2;
		for(auto& t : tab)
			nb += t.p->bounds.size() + (t.p->period > 0 ? (size_t) (L / t.p->period) + 2 : 0) + 2;
		while(i < w.calls.size())
		{
			size_t j = i;
			double allowed = 1e30;
			while(j < w.calls.size() && (j == i || pos[w.calls[j].proc] > pos[w.calls[j - 1].proc]))
			{
				SIM_CHECK(pos.count(w.calls[j].proc), "steps:order", "unregistered process called");
				allowed = std::min(allowed, w.calls[j].allowed);
				SIM_CHECK(w.calls[j].ds == w.calls[i].ds, "steps:common-step", "processes were given different steps, %.17g and %.17g",
					w.calls[i].ds, w.calls[j].ds);
				sum[w.calls[j].proc] += w.calls[j].ds;
				j++;
			}
			const double ds = w.calls[i].ds;
			SIM_CHECK(ds <= allowed, "steps:max-step", "step %.17g in %s exceeds the limit %.17g of an active process", ds,
				e.name.c_str(), allowed);
			SIM_CHECK(ds >= -1e-12 && ds <= L + 1e-12, "steps:range", "step %.17g in an element of length %.17g", ds, L);
			s += ds;
			nst++;
			i = j;
		}
		for(auto& q : w.calls)
			sim::ev("  %d ds=%.17g", q.proc, q.ds);
		sim::mix(nst);
		if(!threw)
		{
			// a process that stayed active has seen the whole element
			for(auto& t : tab)
				if(t.p->IsActive())
					SIM_CHECK(std::fabs(sum[t.no] - L) <= 1e-12 * std::max(1.0, L), "steps:sum",
						"process %d was given steps adding to %.17g in an element of length %.17g", t.no, sum[t.no], L);
			SIM_CHECK(nst <= nb, "steps:progress", "%zu steps through %s where at most %zu boundaries exist", nst, e.name.c_str(), nb);
			// within a component the processes were called in priority order: at most
			// nst restarts can be explained by nb boundaries (checked above); and each
			// process active throughout takes part in every step
			for(auto& t : tab)
				if(t.p->IsActive())
				{
					size_t n = 0;
					for(auto& q : w.calls)
						n += q.proc == t.no;
					SIM_CHECK(n == nst, "steps:order", "process %d (priority %d) took part in %zu of %zu steps of %s: calling order is not the priority order",
						t.no, t.prio, n, nst, e.name.c_str());
				}
			if(nst > 1 && tab.size() > 1)
				sim::nontrivial();
		}
		else
			SIM_CHECK((long) w.calls.size() == w.throw_at, "steps:after-exception", "%zu process calls although call %ld failed",
				w.calls.size(), w.throw_at);
		SIM_CHECK(std::fabs(m->GetIntegratedLength() - total) <= 1e-9 * std::max(1.0, total), "steps:integrated-length",
			"integrated length %.17g after tracking %.17g", m->GetIntegratedLength(), total);
		if(logging)
		{
			std::string t = log.str().substr(log_seen);
			log_seen = log.str().size();
			std::istringstream is(t);
			std::string line;
			size_t n = 0;
			while(std::getline(is, line))
			{
				if(n < w.calls.size())
				{
					std::istringstream ls(line);
					std::string cid, pid;
					ls >> cid >> pid;
					SIM_CHECK(cid == c->GetQualifiedName() && pid == sim::fmt("PROC%d", w.calls[n].proc), "steps:trace",
						"trace line %zu says %s %s, the call was %s PROC%d", n, cid.c_str(), pid.c_str(),
						c->GetQualifiedName().c_str(), w.calls[n].proc);
					double from = 0, to = 0, step = 0;
					size_t q = line.find("from: ");
					if(q != std::string::npos && sscanf(line.c_str() + q, "from: %lf to: %lf (step = %lf)", &from, &to, &step) == 3)
						SIM_CHECK(close(step, w.calls[n].ds, 1e-4, 1e-12) && close(to - from, step, 1e-2, 1e-3), "steps:trace",
							"trace line %zu says step %g, the step was %g", n, step, w.calls[n].ds);
				}
				n++;
			}
			SIM_CHECK(n == w.calls.size() + (threw ? 1 : 0), "steps:trace", "%zu trace lines for %zu process calls", n, w.calls.size());
		}
	}
	// ownership: everything still registered dies exactly once with the scheduler
	size_t reg = tab.size();
	int alive = w.alive;
	if(sim::chance(1, 2))
	{
		m->ClearProcesses();
		SIM_CHECK(w.alive == alive - (int) reg, "steps:ownership", "%d of %zu registered processes destroyed", alive - w.alive, reg);
		reg = 0;
		alive = w.alive;
	}
	delete m;
	SIM_CHECK(w.alive == alive - (int) reg, "steps:ownership", "%d of %zu registered processes destroyed", alive - w.alive, reg);
	for(auto& r : removed)
		delete r.first;
	SIM_CHECK(w.alive == 0, "steps:ownership", "%d processes leaked", w.alive);
	delete bunch;
}
