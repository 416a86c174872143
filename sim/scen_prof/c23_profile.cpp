// C23: the profiler, compiled in, on a simulated clock.
#include "gen.h"
#include "MerlinProfile.h"
#include "MonitorProcess.h"
#include "WakeFieldProcess.h"
#include <iostream>
#include <map>
using namespace gen;

namespace
{
struct Capture
{
	std::ostringstream os;
	std::streambuf* old;
	std::streamsize prec;
	Capture() : old(std::cout.rdbuf(os.rdbuf())), prec(std::cout.precision(17)) {}
	~Capture()
	{
		std::cout.rdbuf(old);
		std::cout.precision(prec);
	}
};
struct Line
{
	double t, percent;
};
// the report as a user reads it
std::map<std::string, Line> report()
{
	std::string text;
	{
		Capture c;
		MerlinProfile::GetProfileData();
		text = c.os.str();
	}
	std::map<std::string, Line> out;
	std::istringstream is(text);
	std::string l;
	bool head = false;
	while(std::getline(is, l))
	{
		if(l.find("PROCESS NAME") != std::string::npos)
		{
			head = true;
			continue;
		}
		if(!head || l.empty())
			continue;
		size_t a = l.find('\t'), b = l.find('\t', a + 1);
		SIM_CHECK(a != std::string::npos && b != std::string::npos, "profile:report", "line '%s' of the report", l.c_str());
		std::string name = l.substr(0, a);
		while(!name.empty() && name.back() == ' ')
			name.pop_back();
		SIM_CHECK(!out.count(name), "profile:report", "'%s' is reported twice", name.c_str());
		out[name] = Line{std::strtod(l.c_str() + a + 1, nullptr), std::strtod(l.c_str() + b + 1, nullptr)};
	}
	SIM_CHECK(head, "profile:report", "no report, although profiling is on");
	return out;
}
void judge(const std::map<std::string, int64_t>& want, const std::map<std::string, bool>& gone, const char* when)
{
	std::map<std::string, Line> r = report();
	for(auto& w : want)
	{
		auto it = r.find(w.first);
		SIM_CHECK(it != r.end(), "profile:missing", "%s: no time is reported for '%s'", when, w.first.c_str());
		const double t = (double) w.second * 1e-9;
		SIM_CHECK(close(it->second.t, t, 1e-12, 2e-9), "profile:time", "%s: '%s' took %.9f s, the report says %.9f", when, w.first.c_str(), t, it->second.t);
		auto tot = want.find("TOTAL");
		if(tot != want.end() && tot->second > 0)
			SIM_CHECK(close(it->second.percent, 100.0 * (double) w.second / (double) tot->second, 1e-9, 1e-6 + 1e-7 * 1e9 / (double) tot->second),
				"profile:share", "%s: '%s' took %.9g %% of the total, the report says %.9g", when, w.first.c_str(),
				100.0 * (double) w.second / (double) tot->second, it->second.percent);
	}
	for(auto& l : r)
		SIM_CHECK(want.count(l.first), "profile:unknown", "%s: time is reported for '%s', which %s", when, l.first.c_str(),
			gone.count(l.first) ? "was removed" : "was never added");
}
void wipe(const std::vector<std::string>& names)
{
	for(auto& n : names)
		MerlinProfile::RemoveProcess(n);
}
}

SCENARIO(profile_calls)
{
	sim::context("profiling calls");
	const std::vector<std::string> names = {"TOTAL", "A", "B", "TRANSPORT", "wake field", "A ", "Z"};
	int64_t now = (int64_t) sim::draw(2000000000) * 1000000000 + (int64_t) sim::draw(1000000000);
	sim::clock_manual(now);
	auto move = [&](bool within)
	{
		int64_t d;
		switch(sim::draw(within ? 6 : 8))
		{
		case 0:
			d = 0;
			break;
		case 1:
			d = (int64_t) sim::draw(1000000000);
			break;
		case 2:
			d = 1000000000LL * (int64_t) sim::range(1, 5000);
			break;
		case 3:
			d = 999999999;
			break;
		case 4:
			d = (int64_t) sim::draw(2000000000000LL);
			break;
		case 5:
			d = 1;
			break;
		case 6:
			d = -(int64_t) sim::draw(4000000000LL);
			sim::fault("clock.back");
			break;
		default:
			d = (int64_t) sim::draw(1000000000000000LL);
			sim::fault("clock.jump");
			break;
		}
		if(now + d < 0)
			d = 0;
		now += d;
		sim::clock_manual(now);
	};
	std::map<std::string, int64_t> want;
	std::map<std::string, int64_t> started;
	std::map<std::string, bool> gone;
	const int n = (int) sim::range(1, sim::tier_thorough() ? 80 : 40);
	int calls = 0;
	for(int i = 0; i < n; i++)
	{
		const std::string nm = sim::pick(std::vector<std::string>{"TOTAL", "A", "B", "TRANSPORT", "wake field", "Z"});
		switch(sim::draw(9))
		{
		case 0:
		case 1:
			sim::ev("add '%s'", nm.c_str());
			MerlinProfile::AddProcess(nm);
			if(!want.count(nm))
				want[nm] = 0, gone.erase(nm);
			break;
		case 2:
		case 3:
			sim::ev("start '%s' at %lld", nm.c_str(), (long long) now);
			MerlinProfile::StartProcessTimer(nm);
			if(want.count(nm))
				started[nm] = now;
			else
				started.erase(nm);
			break;
		case 4:
		case 5:
		case 6:
		{
			// ends one that was started
			if(started.empty())
				break;
			auto it = started.begin();
			std::advance(it, (long) sim::draw(started.size()));
			sim::ev("end '%s' at %lld", it->first.c_str(), (long long) now);
			MerlinProfile::EndProcessTimer(it->first);
			if(want.count(it->first))
				want[it->first] += now - it->second;
			started.erase(it);
			calls++;
			break;
		}
		case 7:
			if(sim::chance(1, 2))
			{
				sim::ev("clear");
				MerlinProfile::ClearTime();
				for(auto& w : want)
					w.second = 0;
				judge(want, gone, "after clearing");
			}
			else
			{
				sim::ev("remove '%s'", nm.c_str());
				MerlinProfile::RemoveProcess(nm);
				if(want.count(nm))
				{
					want.erase(nm);
					gone[nm] = true;
				}
				started.erase(nm);
			}
			break;
		default:
			judge(want, gone, "on the way");
			break;
		}
		move(!started.empty());
	}
	judge(want, gone, "at the end");
	MerlinProfile::ClearTime();
	for(auto& w : want)
		w.second = 0;
	judge(want, gone, "cleared at the end");
	wipe(names);
	judge(std::map<std::string, int64_t>(), gone, "all removed");
	sim::steps(n);
	sim::mix((uint64_t) calls * 10 + want.size());
	if(calls)
		sim::nontrivial();
}

namespace
{
struct Busy: public BunchProcess
{
	std::vector<int64_t>& plan;
	size_t& next;
	int64_t& now;
	std::map<std::string, int64_t>& want;
	double ask;
	int64_t& jump;
	Busy(const std::string& id, int prio, std::vector<int64_t>& p, size_t& n, int64_t& t, std::map<std::string, int64_t>& w, double a, int64_t& j) :
		BunchProcess(id, prio), plan(p), next(n), now(t), want(w), ask(a), jump(j)
	{
	}
	void work()
	{
		const int64_t d = plan[next++ % plan.size()];
		now += d;
		sim::clock_manual(now);
		want[GetID()] += d;
	}
	void InitialiseProcess(Bunch&) override { work(); }
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		currentComponent = &c;
		active = true;
		left = c.GetLength();
		// time passes between the calls, too
		now += jump;
		sim::clock_manual(now);
	}
	double GetMaxAllowedStepSize() const override { return std::max(0.0, std::min(left, ask)); }
	void DoProcess(double ds) override
	{
		left -= ds;
		if(left < 1e-9)
			left = 1e30;
		work();
	}
	double left = 0;
};
}

SCENARIO(profile_tracking)
{
	sim::context("profiled tracking");
	Opts o;
	o.nmin = 1;
	o.nmax = 5;
	Lattice L = gen_lattice(o);
	describe(L);
	BeamSpec spec = gen_beam(1, 6, 1e-4, 1e-5, 1e-5, 1e-5);
	int64_t now = 1000000000000000LL, jump = sim::chance(1, 3) ? (int64_t) sim::draw(100000000000LL) : 0;
	if(sim::chance(1, 4))
	{
		jump = -(int64_t) sim::draw(1000000000);
		sim::fault("clock.back");
	}
	sim::clock_manual(now);
	std::vector<int64_t> plan;
	const int np = (int) sim::range(1, 12);
	for(int i = 0; i < np; i++)
		plan.push_back(sim::chance(1, 4) ? 999999999LL : (int64_t) sim::draw(5000000000LL));
	std::map<std::string, int64_t> want;
	const std::vector<std::string> ids = {"BUSY", "IDLE", "WAKE", "TRANSPORT", "TOTAL"};
	wipe(ids);
	std::vector<PSvector> with, without;
	const int nb = (int) sim::range(1, 3), turns = (int) sim::range(1, 3);
	std::vector<int> prio;
	std::vector<double> ask;
	for(int i = 0; i < nb; i++)
	{
		prio.push_back((int) sim::range(-1, 4));
		ask.push_back(sim::chance(1, 2) ? 1e30 : sim::real(0.1, 2));
	}
	const bool clear = sim::chance(1, 2), total = sim::chance(1, 2), same_id = sim::chance(1, 4);
	size_t next = 0;
	Built b = build(L);
	for(int arm = 0; arm < 2; arm++)
	{
		std::unique_ptr<ProtonBunch> bunch(make_bunch<ProtonBunch>(spec, L.p0, 1e8));
		ParticleTracker t(b.model->GetBeamline(), bunch.get());
		std::vector<int64_t> zero(1, 0);
		std::map<std::string, int64_t> unused;
		size_t n2 = 0;
		int64_t t2 = 5, j2 = 0;
		for(int i = 0; i < nb; i++)
		{
			const std::string id = same_id ? ids[0] : ids[i];
			if(arm == 0)
				t.AddProcess(new Busy(id, prio[i], plan, next, now, want, ask[i], jump));
			else
				t.AddProcess(new Busy(id, prio[i], zero, n2, t2, unused, ask[i], j2));
		}
		if(arm == 0)
		{
			want["TRANSPORT"] = 0;
			for(int i = 0; i < nb; i++)
				want[same_id ? ids[0] : ids[i]] = 0;
			if(total)
			{
				MerlinProfile::AddProcess("TOTAL");
				MerlinProfile::StartProcessTimer("TOTAL");
			}
		}
		const int64_t start = now;
		sim::clock_manual(arm == 0 ? now : t2);
		for(int i = 0; i < turns; i++)
			t.Track(bunch.get());
		if(arm == 0)
		{
			if(total)
			{
				MerlinProfile::EndProcessTimer("TOTAL");
				want["TOTAL"] = now - start;
			}
			judge(want, std::map<std::string, bool>(), "after tracking");
			sim::ev("simulated %.9f s", (now - start) * 1e-9);
			if(clear)
			{
				MerlinProfile::ClearTime();
				for(auto& w : want)
					w.second = 0;
				judge(want, std::map<std::string, bool>(), "after clearing");
			}
		}
		(arm == 0 ? with : without).assign(bunch->begin(), bunch->end());
	}
	wipe(ids);
	SIM_CHECK(with.size() == without.size(), "profile:changes-tracking", "%zu particles, %zu with a clock that stands", with.size(), without.size());
	for(size_t i = 0; i < with.size(); i++)
		SIM_CHECK(same_bits(with[i], without[i]), "profile:changes-tracking", "particle %zu is %s, with a clock that stands %s", i, show(with[i]).c_str(),
			show(without[i]).c_str());
	sim::steps(L.length() * turns);
	sim::mix(next * 10 + nb);
	sim::nontrivial();
}
