// C13: one simulation on several nodes.  Every node builds the machine, its processes and
// its tracker and tracks its share of the bunch, as a program started under MPI does; the
// same is run on one node.  Particles are compared by name.
#include "gen.h"
#include "chop.h"
#include "net.h"
#include "MonitorProcess.h"
#include "WakeFieldProcess.h"
#include "CollimatorWakeProcess.h"
#include "CouplerWakeFieldProcess.h"
#include "CombinedWakeRF.h"
#include "CollimatorWakePotentials.h"
#include "WakePotentials.h"
#include "CollimateProtonProcess.h"
#include "RingDeltaTProcess.h"
#include <algorithm>
#include <array>
#include <map>
#include <set>
using namespace gen;

namespace
{
struct TestWake: public WakePotentials
{
	double a, b;
	TestWake(double x, double y) : a(x), b(y) {}
	double Wlong(double z) const override { return a * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return b * std::sqrt(std::fabs(z) + 1e-6); }
	void csr_on() { csr = true; }
};
struct TestCollWake: public CollimatorWakePotentials
{
	double a;
	TestCollWake(int m, double x) : CollimatorWakePotentials(m, 0, 0), a(x) {}
	double Wlong(double) const override { return 0; }
	double Wtrans(double) const override { return 0; }
	double Wlong(double z, int m) const override { return a * std::exp(-z / 1e-3) * m; }
	double Wtrans(double z, int m) const override { return a * std::exp(-z / 2e-3) / m; }
};
struct TestCouplerWake: public CombinedWakeRF
{
	double a;
	TestCouplerWake(double x) : a(x) {}
	double Wlong(double z) const override { return a * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return a * std::sqrt(std::fabs(z) + 1e-6); }
	Vector2D Wxy(double x, double y) const override { return Vector2D(a * (1 + x), -a * (1 + y)); }
	Vector2D CouplerRFKick(double, double, double phi) const override { return Vector2D(1e-6 * std::cos(phi), 1e-6 * std::sin(phi)); }
};
// notes lost particles by name
struct LossNote: public CollimationOutput
{
	std::vector<std::pair<int64_t, std::string> >& lost;
	LossNote(std::vector<std::pair<int64_t, std::string> >& l) : lost(l) {}
	void Dispose(AcceleratorComponent& c, double, Particle& p, int) override
	{
		lost.push_back(std::make_pair(p.id(), c.GetName()));
	}
	void Finalise() override {}
	void Record(AcceleratorComponent&, Particle&, int) {}
};
typedef std::vector<std::array<double, 8> > Rows;
Rows rows(const std::string& text, bool& ok)
{
	Rows r;
	std::istringstream in(text);
	std::string line;
	ok = true;
	while(std::getline(in, line))
	{
		if(!line.empty() && line[0] == '#')
			continue;
		std::istringstream l(line);
		std::vector<double> v;
		double x;
		while(l >> x)
			v.push_back(x);
		if(v.size() != 8)
		{
			ok = false;
			continue;
		}
		std::array<double, 8> a;
		std::copy(v.begin(), v.end(), a.begin());
		r.push_back(a);
	}
	return r;
}
enum { NOWAKE, WAKE, CWAKE, COUPLER, NWAKE };
}

SCENARIO(parallel_run)
{
	sim::context("building");
	const int what = (int) sim::draw(NWAKE);
	const bool tight = sim::chance(1, 8);
	Lattice L;
	{
		Opts o;
		o.nmin = 1;
		o.nmax = sim::tier_thorough() ? 10 : 6;
		o.lmin = 0.1;
		o.simple_names = true;
		o.kinds = {DRIFT, QUAD, MARKER, SBEND, COLL, SEXT, TWRF, SOL};
		o.apert = 60;
		o.apsize = tight ? 2e-4 : sim::pick(std::vector<double>{1e-4, 1e-3, 1e-2});
		L = gen_lattice(o);
	}
	describe(L);
	const int nodes = (int) sim::range(2, 6), turns = (int) sim::range(1, 3);
	const bool spread = sim::chance(1, 2), monitor = sim::chance(2, 3), collimate = tight || sim::chance(1, 2);
	BeamSpec spec = gen_beam(sim::chance(1, 6) ? 0 : 2, tight ? 7 : 24, 1e-4, 1e-5, 2e-3, 1e-5);
	const int prio = (int) sim::range(1, 3), mprio = (int) sim::range(1, 5), cprio = (int) sim::range(1, 4), aprio = (int) sim::range(1, 5);
	double wa = sim::real(1e14, 1e16), wb = sim::real(1e14, 1e16);
	for(auto& e : L.el)
		if(e.kind == SBEND && wa > 1e15)
			wa /= 10, wb /= 10;
	if(what == CWAKE)
		wa *= 1e-5;
	const bool centre = sim::chance(1, 2), csr = sim::chance(1, 4), tw = sim::chance(3, 4), chop = sim::chance(1, 2), own = sim::chance(1, 3);
	const size_t nbins = (size_t) sim::range(2, 60);
	const double nsig = sim::real(2, 6), q = 1e8;
	const double threshold = tight ? 100 : 1e9;
	std::vector<bool> chosen, watched;
	for(size_t i = 0; i < L.el.size(); i++)
	{
		chosen.push_back(sim::chance(1, 2));
		watched.push_back(sim::chance(1, 2));
		if(chosen[i])
			L.el[i].ap = ApSpec();
	}
	std::vector<int> home;
	for(size_t i = 0; i < spec.p.size(); i++)
	{
		spec.p[i].id() = (int64_t) i + 1;
		home.push_back((int) sim::draw((uint64_t) nodes));
	}
	std::vector<std::vector<double> > plan;
	const int np = (int) sim::range(1, 4);
	for(int i = 0; i < np; i++)
		plan.push_back(draw_cuts());
	sim::ev("%d nodes, %zu particles, wake %d, %d turns%s%s%s", nodes, spec.p.size(), what, turns, spread ? ", spread" : "",
		monitor ? ", monitor" : "", collimate ? ", collimation" : "");

	struct Out
	{
		std::vector<std::vector<std::pair<int64_t, std::string> > > lost;
		std::vector<double> pref, tref;
		PSvectorArray end;
		std::vector<size_t> left;
		std::map<std::string, std::string> file;
		double charge = 0;
		bool stopped = false;
		net::Stats st;
	};
	auto run = [&](int n, const char* prefix) -> Out
		{
			Out o;
			o.lost.resize((size_t) n);
			o.pref.assign((size_t) n, 0);
			o.tref.assign((size_t) n, 0);
			o.left.assign((size_t) n, 0);
			const std::string pre = sim::path(prefix);
			auto node = [&](int r) {
					std::vector<std::unique_ptr<WakePotentials> > wakes;
					std::unique_ptr<WakeFieldProcess> expect;
					Built B = build(L);
					WakeFieldProcess* w = nullptr;
					switch(what)
					{
					case WAKE:
						w = new WakeFieldProcess(prio, nbins, nsig);
						break;
					case CWAKE:
						w = new CollimatorWakeProcess(3, prio, nbins, nsig);
						break;
					case COUPLER:
						w = new CouplerWakeFieldProcess(prio, nbins, nsig);
						break;
					}
					for(size_t i = 0; i < L.el.size(); i++)
					{
						if(!chosen[i] || !w || L.el[i].len <= 0)
							continue;
						WakePotentials* p = nullptr;
						if(what == WAKE)
						{
							TestWake* t = new TestWake(wa, wb);
							if(csr)
								t->csr_on();
							p = t;
						}
						else if(what == CWAKE)
							p = new TestCollWake(3, wa);
						else
							p = new TestCouplerWake(wa);
						if(own)
							p->SetExpectedProcess(w);
						wakes.emplace_back(p);
						B.comp[i]->SetWakePotentials(p);
					}
					ProtonBunch b(L.p0, q);
					for(size_t i = 0; i < spec.p.size(); i++)
						if(n == 1 || (spread ? r == 0 : home[i] == r))
							b.push_back(spec.p[i]);
					b.SetMacroParticleCharge(q);
					if(spread)
						b.distribute();
					ParticleTracker t(B.model->GetBeamline(), &b, false);
					if(w)
					{
						w->ApplyImpulseAt(centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
						w->IncludeTransverseWake(tw);
						t.AddProcess(w);
					}
					if(monitor)
					{
						MonitorProcess* m = new MonitorProcess("MONITOR", mprio, pre);
						for(size_t i = 0; i < L.el.size(); i++)
							if(watched[i])
								m->AddElement(L.el[i].name);
						t.AddProcess(m);
					}
					LossNote note(o.lost[(size_t) r]);
					if(collimate)
					{
						CollimateParticleProcess* c = new CollimateParticleProcess(aprio, COLL_AT_EXIT | COLL_AT_ENTRANCE);
						c->SetLossThreshold(threshold);
						c->SetCollimationOutput(&note);
						c->ScatterAtCollimator(false);
						t.AddProcess(c);
					}
					long steps = 0;
					if(chop)
					{
						Chopper* c = new Chopper(cprio, steps);
						c->plan = plan;
						t.AddProcess(c);
					}
					try
					{
						for(int i = 0; i < turns; i++)
							t.Track(&b);
					}
					catch(ExcessiveParticleLoss&)
					{
						if(n == 1)
						{
							o.stopped = true;
							return;
						}
						sim::fail("parallel:threshold", "node %d stops for too many losses, one node would not", r);
					}
					o.pref[(size_t) r] = b.GetReferenceMomentum();
					o.tref[(size_t) r] = b.GetReferenceTime();
					b.gather();
					o.left[(size_t) r] = b.size();
					if(r == 0)
					{
						o.end.assign(b.begin(), b.end());
						o.charge = b.GetTotalCharge();
					}
				};
			o.st = net::run(n, node);
			for(auto& e : L.el)
				for(int k = 1; k <= (int) L.el.size() * turns; k++)
				{
					std::string f = e.name + "_" + std::to_string(k);
					if(sim::has_file(pre + f))
						o.file[f] = sim::get_file(pre + f);
				}
			sim::steps(L.length() * turns);
			return o;
		};
	sim::context("one node");
	Out a = run(1, "one_");
	if(a.stopped)
		return;
	sim::context("several nodes");
	Out b = run(nodes, "many_");
	sim::context("");

	for(int n = 0; n < nodes; n++)
	{
		SIM_CHECK(b.pref[(size_t) n] == b.pref[0], "parallel:reference", "node %d ends with reference momentum %.17g, the root with %.17g", n,
			b.pref[(size_t) n], b.pref[0]);
		SIM_CHECK(b.tref[(size_t) n] == b.tref[0], "parallel:reference", "node %d ends with reference time %.17g, the root with %.17g", n,
			b.tref[(size_t) n], b.tref[0]);
		SIM_CHECK(n == 0 || b.left[(size_t) n] == 0, "parallel:behind", "node %d keeps %zu particles", n, b.left[(size_t) n]);
	}
	// losses by name and place
	std::map<int64_t, std::string> la, lb;
	for(auto& l : a.lost)
		for(auto& x : l)
			la[x.first] = x.second;
	bool wild = false;
	for(auto& p : a.end)
		for(int k = 0; k < 6; k++)
			wild = wild || !(std::fabs(p[k]) < 0.5);
	for(auto& l : b.lost)
		for(auto& x : l)
		{
			SIM_CHECK(!lb.count(x.first), "parallel:lost-twice", "particle %lld is lost twice", (long long) x.first);
			lb[x.first] = x.second;
		}
	if(wild)
		sim::probe("wild");
	if(wild)
		return;
	SIM_CHECK(close(a.pref[0], b.pref[0], 1e-9, 0), "parallel:reference", "reference momentum %.17g on one node, %.17g on %d", a.pref[0],
		b.pref[0], nodes);
	for(auto& x : la)
		SIM_CHECK(lb.count(x.first) && lb[x.first] == x.second, "parallel:losses", "particle %lld is lost in %s on one node, in %s on %d nodes", (long long) x.first,
			x.second.c_str(), lb.count(x.first) ? lb[x.first].c_str() : "no element", nodes);
	SIM_CHECK(la == lb, "parallel:losses", "%zu particles are lost on one node, %zu on %d nodes, or elsewhere", la.size(), lb.size(), nodes);
	std::map<int64_t, PSvector> ma;
	double scale[6] = {0, 0, 0, 0, 0, 0};
	for(auto& p : a.end)
	{
		ma.insert(std::make_pair(p.id(), p));
		for(int k = 0; k < 6; k++)
			scale[k] = std::max(scale[k], std::fabs(p[k]));
	}
	SIM_CHECK(a.end.size() == b.end.size(), "parallel:count", "%zu particles on one node, %zu on %d nodes", a.end.size(), b.end.size(), nodes);
	std::set<int64_t> seen;
	for(auto& p : b.end)
	{
		auto i = ma.find(p.id());
		SIM_CHECK(i != ma.end() && seen.insert(p.id()).second, "parallel:identity", "a particle has identity %lld, which is not left, or twice",
			(long long) p.id());
		for(int k = 0; k < 6; k++)
			SIM_CHECK(std::fabs(p[k] - i->second[k]) <= 1e-7 * scale[k] + 1e-15, "parallel:coordinates",
				"particle %lld ends at %s on one node, at %s on %d nodes", (long long) p.id(), show(i->second).c_str(), show(p).c_str(), nodes);
	}
	SIM_CHECK(close(a.charge, b.charge, 1e-9, 0), "parallel:charge", "total charge %.17g on one node, %.17g on %d nodes", a.charge, b.charge, nodes);
	// what the monitors wrote
	for(auto& f : a.file)
		SIM_CHECK(b.file.count(f.first), "parallel:file", "%s is written on one node and not on %d", f.first.c_str(), nodes);
	for(auto& f : b.file)
	{
		SIM_CHECK(a.file.count(f.first), "parallel:file", "%s is written on %d nodes and not on one", f.first.c_str(), nodes);
		bool ok1, ok2;
		Rows x = rows(a.file[f.first], ok1), y = rows(f.second, ok2);
		SIM_CHECK(ok1 && ok2, "parallel:file", "%s has a line that is not a particle", f.first.c_str());
		SIM_CHECK(x.size() == y.size(), "parallel:file", "%s holds %zu particles on one node, %zu on %d", f.first.c_str(), x.size(), y.size(), nodes);
		double sc[8] = {0, 0, 0, 0, 0, 0, 0, 0};
		for(auto& r : x)
			for(int k = 0; k < 8; k++)
				sc[k] = std::max(sc[k], std::fabs(r[k]));
		for(auto& r : y)
		{
			auto near = [&](const std::array<double, 8>& s) {
					for(int k = 0; k < 8; k++)
						if(std::fabs(r[k] - s[k]) > 1e-7 * sc[k] + 1e-15)
							return false;
					return true;
				};
			auto i = std::find_if(x.begin(), x.end(), near);
			SIM_CHECK(i != x.end(), "parallel:file", "%s holds a particle on %d nodes that is not there on one", f.first.c_str(), nodes);
			x.erase(i);
		}
	}
	if(b.st.messages)
		sim::nontrivial();
	if(!lb.empty())
		sim::probe("losses");
	for(auto n : b.left)
		(void) n;
	if(what && b.st.messages > 2 * nodes)
		sim::probe("collective");
}
