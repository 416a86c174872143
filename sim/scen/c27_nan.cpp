// C27: the process that removes particles whose coordinates are not numbers, in every bunch of a
// drawn history, against tracking without it.
#include "gen.h"
#include "NANCheckProcess.h"
#include "RandomNG.h"
using namespace gen;

namespace
{
// makes the particles beyond a place not a number, in a drawn component; may stop the tracking
struct Spoiler: public ParticleBunchProcess
{
	struct Stop: public MerlinException
	{
		Stop() : MerlinException("stop") {}
	};
	int at = -1, count = 0, coord = 0;
	double beyond = 0, value = 0;
	bool stop = false;
	Spoiler() : ParticleBunchProcess("SPOILER", 5) {}
	void SetCurrentComponent(AcceleratorComponent&) override
	{
		count++;
		active = true;
	}
	double GetMaxAllowedStepSize() const override { return 1e30; }
	void DoProcess(double) override
	{
		if(count - 1 != at)
			return;
		if(stop)
			throw Stop();
		for(auto& p : *currentBunch)
			if(p.x() > beyond)
				p[coord] = value;
	}
};
bool good(const PSvector& p)
{
	for(int i = 0; i < 6; i++)
		if(!std::isfinite(p[i]))
			return false;
	return true;
}
}

SCENARIO(reuse_nan)
{
	sim::context("particles that are not numbers");
	RandomNG::init(3);
	Opts o;
	o.thin_ok = true;
	const Lattice L = gen_lattice(o);
	describe(L);
	Built M = build(L);
	AcceleratorModel* am = M.model.get();
	std::unique_ptr<ParticleTracker> t;
	NANCheckProcess* check = nullptr;
	Spoiler* sp = nullptr;
	const int prio = sim::pick(std::vector<int>{-1, 3, 8}), uses = (int) sim::range(1, 4), ids = (int) sim::draw(3);
	const bool detailed = sim::chance(1, 3);
	for(int u = 0; u < uses; u++)
	{
		BeamSpec s = gen_beam(1, 8, 1e-3, 1e-4, 1e-3, 1e-3);
		for(auto& p : s.p)
		{
			if(ids == 0)
				p.id() = 0; // as when a user adds particles
			else if(ids == 1)
				p.id() = (int64_t) (p.id() % 3) + (sim::chance(1, 2) ? (1LL << 40) : 0);
			if(sim::chance(1, 6))
				p[sim::draw(6)] = sim::pick(std::vector<double>{NAN, INFINITY, -INFINITY});
			else if(sim::chance(1, 8))
				p.dp() = -1 - sim::real(0, 1);
		}
		std::unique_ptr<ParticleBunch> b(make_bunch<ParticleBunch>(s, L.p0, 1)), ref(make_bunch<ParticleBunch>(s, L.p0, 1));
		const double q = b->GetTotalCharge() / b->size();
		Spoiler plan;
		plan.at = (int) sim::draw(L.el.size() + 2);
		plan.coord = (int) sim::draw(6);
		plan.value = sim::pick(std::vector<double>{NAN, INFINITY, -INFINITY});
		plan.beyond = sim::sreal(1e-3);
		if(plan.at >= (int) L.el.size() - 1)
			plan.at = -1;
		const bool stop = plan.at >= 0 && sim::chance(1, 5);
		auto set = [&](Spoiler* x) { x->at = plan.at; x->coord = plan.coord; x->value = plan.value; x->beyond = plan.beyond; x->stop = stop; x->count = 0; };
		if(!t || sim::chance(1, 5))
		{
			t.reset(new ParticleTracker(am->GetBeamline(), b.get(), false));
			check = new NANCheckProcess("NAN Check", prio);
			check->SetCullNAN();
			check->SetDetailed(detailed);
			t->AddProcess(check);
			sp = new Spoiler;
			t->AddProcess(sp);
		}
		set(sp);
		sim::ev("bunch %d of %zu particles, spoiled in %d, coordinate %d above %g%s", u, b->size(), plan.at, plan.coord, plan.beyond, stop ? ", stopped" : "");
		bool stopped = false;
		try
		{
			t->Track(b.get());
		}
		catch(Spoiler::Stop&)
		{
			stopped = true;
			sim::fault("process.exception");
		}
		if(stopped)
			continue;
		ParticleTracker r(am->GetBeamline(), ref.get(), false);
		Spoiler* rs = new Spoiler;
		set(rs);
		r.AddProcess(rs);
		r.Track(ref.get());
		std::vector<PSvector> left;
		for(auto& p : *ref)
			if(good(p))
				left.push_back(p);
		if(left.size() < ref->size())
			sim::nontrivial(), sim::probe("removed");
		if(left.size() + 1 < ref->size())
			sim::probe("several.removed");
		SIM_CHECK(b->size() == left.size(), "nan:left", "%zu particles left of %zu instead of %zu in bunch %d", b->size(), s.p.size(), left.size(), u);
		size_t i = 0;
		for(auto p = b->begin(); p != b->end(); ++p, ++i)
		{
			SIM_CHECK(same_bits(*p, left[i]), "nan:particle", "particle %zu is (%.17g %.17g %.17g ..) instead of (%.17g %.17g %.17g ..)", i, p->x(), p->xp(), p->y(), left[i].x(), left[i].xp(), left[i].y());
			SIM_CHECK(p->id() == left[i].id(), "nan:id", "particle %zu has another id", i);
		}
		SIM_CHECK(b->size() == 0 || std::fabs(b->GetTotalCharge() - q * b->size()) < 1e-12 * q * s.p.size(), "nan:charge", "%zu particles of %.17g carry %.17g", b->size(), q, b->GetTotalCharge());
		SIM_CHECK(b->GetReferenceMomentum() == ref->GetReferenceMomentum() && b->GetReferenceTime() == ref->GetReferenceTime(), "nan:reference", "another reference");
		sim::mix(left.size() * 16 + s.p.size());
	}
	sim::steps(L.el.size() * uses);
}
