// C14: tracking with several threads gives what tracking with one thread gives.
#include "gen.h"
#include "chop.h"
#include "team.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "CollimateParticleProcess.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "SynchRadParticleProcess.h"
#include "RandomNG.h"
using namespace gen;

namespace ParticleTracking
{
namespace TRANSPORT_SERIAL
{
DECL_INTG_SET(ParticleComponentTracker, StdISet)
}
}
namespace
{
struct Wake: public WakePotentials
{
	double Wlong(double z) const override { return 1e14 * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return 1e15 * std::sqrt(std::fabs(z) + 1e-6); }
};
struct Out
{
	std::vector<PSvector> p;
	double pref, tref, q;
	std::string stopped;
};
bool same(double a, double b) { return !std::memcmp(&a, &b, sizeof a) || (a != a && b != b); }
}

SCENARIO(threads)
{
	sim::context("several threads");
	// memory given back by one thread is not given to another within a run
	sim::heap_config(sim::HeapCfg{1, (int) sim::draw(4), 7});
	Opts o;
	o.nmin = 1;
	o.nmax = sim::tier_thorough() ? 12 : 6;
	o.lmin = 0.05;
	o.apert = 30;
	o.apsize = 3e-3;
	o.kinds = {DRIFT, MARKER, QUAD, SBEND, SEXT, SOL, BPMK, COLL, XCORK, YCORK, SKEWQ, OCT, TWRF};
	Lattice L = gen_lattice(o);
	const int species = (int) sim::draw(3);
	if(species == 1)
		L.p0 = sim::pick(std::vector<double>{3.0, 1.0, 5.0});
	describe(L);
	BeamSpec b = gen_beam(0, sim::tier_thorough() ? 60 : 24, 1e-3, 1e-4, 1e-3, 1e-3);
	const int set = sim::pick(std::vector<int>{0, 0, 1, 1, 0, 1, 2, 3});   // mostly the one with threads in it
	const bool coll = sim::chance(1, 3), wake = sim::chance(1, 4), rad = species == 1 && sim::chance(1, 2);
	std::vector<int> with_wake;
	for(auto& e : L.el)
		with_wake.push_back(wake && e.len > 0 && sim::chance(1, 2));
	const bool chop = sim::chance(1, 3);
	std::vector<std::vector<double> > cuts;
	for(size_t i = 0; chop && i < L.el.size(); i++)
		cuts.push_back(draw_cuts());
	const int turns = (int) sim::range(1, 3);
	team::Style many;
	many.threads = (int) sim::range(2, 8);
	many.vary = sim::chance(1, 3);
	many.density = (int) sim::range(0, 3);
	sim::ev("bunch of %zu, integrators %d, %d threads, density %d", b.p.size(), set, many.threads, many.density);
	Wake W;
	long nsteps = 0;
	auto go = [&](const team::Style& s, bool serial) -> Out
	{
		Out r;
		team::use(s);
		RandomNG::init(11);
		Built m = build(L);
		for(size_t i = 0; i < m.comp.size(); i++)
			if(with_wake[i])
				m.comp[i]->SetWakePotentials(&W);
		std::unique_ptr<ParticleBunch> x(species == 1 ? (ParticleBunch*) make_bunch<ElectronBunch>(b, L.p0, 1e8)
			: species == 2 ? (ParticleBunch*) make_bunch<ProtonBunch>(b, L.p0, 1e8) : make_bunch<ParticleBunch>(b, L.p0, 1e8));
		ParticleTracker t(m.model->GetBeamline(), (ParticleBunch*) nullptr, false);
		static TRANSPORT_SERIAL::StdISet one;
		static THIN_LENS::StdISet thin;
		static SYMPLECTIC::StdISet sym;
		static TRANSPORT::StdISet tra;
		if(set == 2)
			t.SetIntegratorSet(&thin);
		else if(set == 3)
			t.SetIntegratorSet(&sym);
		else if(serial)
			t.SetIntegratorSet(&one);
		else if(set == 1)
			t.SetIntegratorSet(&tra);
		if(coll)
			t.AddProcess(new CollimateParticleProcess(3, COLL_AT_ENTRANCE | COLL_AT_EXIT));
		if(wake)
			t.AddProcess(new WakeFieldProcess(2, 10, 3));
		if(rad)
			t.AddProcess(new SynchRadParticleProcess(4, false));
		if(chop)
		{
			Chopper* c = new Chopper(1, nsteps);
			c->plan = cuts;
			t.AddProcess(c);
		}
		try
		{
			for(int i = 0; i < turns; i++)
				t.Track(x.get());
		}
		catch(MerlinException& e)
		{
			r.stopped = e.what();
		}
		r.p.assign(x->begin(), x->end());
		r.pref = x->GetReferenceMomentum();
		r.tref = x->GetReferenceTime();
		r.q = x->GetTotalCharge();
		sim::steps(L.length() * turns);
		log_bunch("bunch", *x);
		return r;
	};
	const Out a = go(team::Style(), true);
	team::take();
	const Out c = go(many, false);
	const team::Stats st = team::take();
	sim::ev("%ld regions of up to %ld threads, %ld switches", st.regions, st.most, st.switches);
	SIM_CHECK(a.stopped == c.stopped, "threads:stop", "one thread: '%s', %d threads: '%s'", a.stopped.c_str(), many.threads, c.stopped.c_str());
	SIM_CHECK(a.p.size() == c.p.size(), "threads:particles", "%zu particles with one thread, %zu with %d", a.p.size(), c.p.size(), many.threads);
	for(size_t i = 0; i < a.p.size(); i++)
		SIM_CHECK(same_bits(a.p[i], c.p[i]), "threads:coordinates", "particle %zu of %zu: %s with one thread, %s with %d", i, a.p.size(), show(a.p[i]).c_str(),
			show(c.p[i]).c_str(), many.threads);
	SIM_CHECK(same(a.pref, c.pref) && same(a.tref, c.tref) && same(a.q, c.q), "threads:reference", "momentum %.17g, time %.17g with one thread, %.17g, %.17g with %d", a.pref,
		a.tref, c.pref, c.tref, many.threads);
	if(st.switches)
		sim::fault("thread.switch", (uint64_t) st.switches);
	sim::mix((uint64_t) st.switches * 1000003 + (uint64_t) st.regions * 101 + (uint64_t) many.threads);
	if(st.regions && b.p.size() > 1)
		sim::nontrivial();
}
