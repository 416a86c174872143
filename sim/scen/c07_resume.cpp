// C07: one simulation, several ways to drive it.  The same machine and bunch are tracked
// in one call, component by component, in consecutive stretches, round a ring started
// anywhere, and after runs interrupted at drawn points; every way must give the bunch and
// the outputs of the one-call run, bit for bit.
#include "frames.h"
#include "chop.h"
#include "RandomNG.h"
#include "SynchRadParticleProcess.h"
#include "CollimateParticleProcess.h"
#include "MonitorProcess.h"
using namespace gen;

namespace
{
struct Out: public SimulationOutput
{
	std::vector<std::string> rec;
	uint64_t turn = 0;
	int initial = 0, final_ = 0;
	Out()
	{
		output_all = true;
		output_initial = output_final = true;
	}
	static uint64_t hash(const Bunch* b)
	{
		const ParticleBunch* p = static_cast<const ParticleBunch*>(b);
		uint64_t h = p->size();
		for(auto& v : *p)
			for(int i = 0; i < 6; i++)
			{
				double d = v[i];
				h = h * 1000003 ^ sim::hash_bytes(&d, sizeof d);
			}
		double r[2] = {p->GetReferenceMomentum(), p->GetReferenceTime()};
		return h * 31 + sim::hash_bytes(r, sizeof r);
	}
	void Record(const ComponentFrame* f, const Bunch* b) override
	{
		rec.push_back(sim::fmt("%s %016llx", f->GetComponent().GetQualifiedName().c_str(), (unsigned long long) hash(b)));
	}
	void RecordInitialBunch(const Bunch* b) override
	{
		initial++;
	}
	void RecordFinalBunch(const Bunch* b) override
	{
		final_++;
	}
};
struct Bomb: public ParticleBunchProcess
{
	long n = -1;
	bool merlin = true;
	Bomb() : ParticleBunchProcess("SIM BOMB", 3) {}
	void SetCurrentComponent(AcceleratorComponent&) override
	{
		active = true;
	}
	void DoProcess(double) override
	{
		if(n >= 0 && n-- == 0)
		{
			sim::fault("process.exception");
			if(merlin)
				throw MerlinException("simulated failure");
			throw std::runtime_error("simulated failure");
		}
	}
	double GetMaxAllowedStepSize() const override
	{
		return 1e30;
	}
};
struct Ctx
{
	Plan P;
	BeamSpec spec;
	int set;
	bool sr, coll, flat, onaxis, cut;
	std::vector<std::vector<double> > cuts;   // per element
	uint32_t seed;
	bool electron;
};
ParticleBunch* bunch(const Ctx& c)
{
	if(c.electron)
		return make_bunch<ElectronBunch>(c.spec, c.P.L.p0, 1e-9);
	return make_bunch<ProtonBunch>(c.spec, c.P.L.p0, 1e-9);
}
// cuts belong to the element, however often and in which order it is visited
struct ElementChopper: public Chopper
{
	std::map<const AcceleratorComponent*, size_t> at;
	ElementChopper(long& n) : Chopper(6, n) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		visit = at[&c];
		Chopper::SetCurrentComponent(c);
	}
};
struct Sim
{
	std::unique_ptr<ParticleTracker> t;
	Out out;
	Bomb* bomb = nullptr;
	long nsteps = 0;
};
void equip(const Ctx& c, Sim& s, const Machine& m)
{
	if(c.set == 1)
	{
		THIN_LENS::StdISet i;
		s.t->SetIntegratorSet(&i);
	}
	else if(c.set == 2)
	{
		SYMPLECTIC::StdISet i;
		s.t->SetIntegratorSet(&i);
	}
	s.t->AddProcess(s.bomb = new Bomb);
	if(c.sr)
	{
		SynchRadParticleProcess* p = new SynchRadParticleProcess(4, true);
		p->SetNumComponentSteps(2);
		s.t->AddProcess(p);
	}
	if(c.coll)
	{
		CollimateParticleProcess* p = new CollimateParticleProcess(5, COLL_AT_EXIT | COLL_AT_CENTER);
		p->SetLossThreshold(1000);
		s.t->AddProcess(p);
	}
	if(c.cut)
	{
		ElementChopper* ch = new ElementChopper(s.nsteps);
		ch->plan = c.cuts;
		for(size_t i = 0; i < m.comp.size(); i++)
			ch->at[m.comp[i]] = i;
		s.t->AddProcess(ch);
	}
	s.t->AssumeFlatLattice(c.flat);
	s.t->SetOutput(&s.out);
}
void same(const ParticleBunch& a, const ParticleBunch& b, const char* how)
{
	SIM_CHECK(a.size() == b.size(), "resume:particles", "%s leaves %zu particles, one call %zu", how, b.size(), a.size());
	SIM_CHECK(a.GetReferenceMomentum() == b.GetReferenceMomentum() && a.GetReferenceTime() == b.GetReferenceTime(), "resume:reference",
		"%s leaves reference momentum %.17g time %.17g, one call %.17g %.17g", how, b.GetReferenceMomentum(), b.GetReferenceTime(), a.GetReferenceMomentum(),
		a.GetReferenceTime());
	auto p = a.begin();
	auto q = b.begin();
	for(; p != a.end(); ++p, ++q)
		SIM_CHECK(same_bits(*p, *q), "resume:coordinates", "%s leaves %s, one call %s", how, show(*q).c_str(), show(*p).c_str());
}
void same_out(const std::vector<std::string>& a, const std::vector<std::string>& b, const char* how)
{
	for(size_t i = 0; i < std::min(a.size(), b.size()); i++)
		SIM_CHECK(a[i] == b[i], "resume:output", "%s: output %zu is %s, one call gave %s", how, i, b[i].c_str(), a[i].c_str());
	SIM_CHECK(a.size() == b.size(), "resume:output", "%s: %zu outputs, one call gave %zu", how, b.size(), a.size());
}
}
SCENARIO(resume)
{
	sim::context("resume");
	sim::heap_config(sim::heap_random());
	Ctx c;
	Opts o;
	o.kinds = {DRIFT, QUAD, SBEND, MARKER, SEXT, SOL, BPMK, XCORK, YCORK, TWRF};
	o.nmin = 1;
	o.nmax = 8;
	o.lmax = 2;
	c.coll = sim::chance(1, 4);
	if(c.coll)
	{
		o.apert = 50;
		o.apsize = 2e-3;
	}
	Lattice L = gen_lattice(o);
	const bool misal = sim::chance(2, 3);
	c.P = misal ? gen_plan(L, 6, true) : plan_flat(L);
	if(misal)
		gen_moves(c.P, 8, 1e-3);
	c.electron = sim::chance(1, 4);
	c.spec = gen_beam(1, 8, 1e-3, 1e-4, 1e-3, 1e-3);
	c.set = (int) sim::draw(3);
	c.sr = sim::chance(1, 4) && c.set == 0 && !(c.electron && L.p0 > 20); // electrons do not survive a bend at higher energies
	c.flat = sim::chance(1, 4);
	c.onaxis = sim::chance(1, 8);
	c.cut = sim::chance(1, 2);
	if(c.cut)
		for(size_t i = 0; i < L.el.size(); i++)
			c.cuts.push_back(draw_cuts());
	c.seed = (uint32_t) sim::draw(1u << 30);
	describe(c.P);
	Machine m = build(c.P);
	const size_t n = m.cf.size();
	std::vector<size_t> comps_before(n + 1, 0);
	for(size_t i = 0; i < n; i++)
		comps_before[i + 1] = comps_before[i] + m.cf[i]->IsComponent();
	sim::ev("set %d sr %d coll %d flat %d onaxis %d cut %d seed %u", c.set, c.sr, c.coll, c.flat, c.onaxis, c.cut, c.seed);

	// the undisturbed run
	RandomNG::init(c.seed);
	std::unique_ptr<ParticleBunch> b0(bunch(c));
	Sim a;
	a.t.reset(new ParticleTracker(m.model->GetBeamline(), b0.get()));
	equip(c, a, m);
	a.t->InjectBeamOnAxis(c.onaxis);
	a.t->Run();
	const ParticleBunch& ref = a.t->GetTrackedBunch();
	log_bunch("one call", ref);
	SIM_CHECK(a.out.initial == 1 && a.out.final_ == 1, "resume:output", "one call records the initial bunch %d times, the final %d times", a.out.initial,
		a.out.final_);
	SIM_CHECK(a.out.rec.size() == comps_before[n], "resume:output", "one call records %zu outputs for %zu components", a.out.rec.size(), comps_before[n]);
	SIM_CHECK(ref.GetReferenceTime() == 0 || close(ref.GetReferenceTime(), L.length(), 1e-9, 1e-12) || c.sr, "resume:length", "one call travels %.17g through %.17g",
		ref.GetReferenceTime(), L.length());
	sim::steps(L.length());

	const int way = (int) sim::draw(7);
	switch(way)
	{
	case 0:
	{
		sim::context("resume:stepping");
		RandomNG::init(c.seed);
		Sim s;
		s.t.reset(new ParticleTracker(m.model->GetBeamline(), b0.get()));
		equip(c, s, m);
		s.t->InjectBeamOnAxis(c.onaxis);
		std::vector<std::string> seen;
		if(sim::chance(1, 2))
			s.t->InitStepper();
		else
			s.t->InitStepper(bunch(c));
		size_t k = 0;
		bool more = true;
		do
		{
			SIM_CHECK(&s.t->GetCurrentFrame() == m.cf[k], "resume:frame", "stepping: frame %zu is not the current one", k);
			more = s.t->StepComponent();
			k++;
			SIM_CHECK(more == (k < n), "resume:frame", "stepping: after %zu of %zu frames StepComponent says %d", k, n, (int) more);
		}
		while(more);
		same_out(a.out.rec, s.out.rec, "stepping");
		same(ref, s.t->GetTrackedBunch(), "stepping");
		break;
	}
	case 1:
	{
		// consecutive stretches, each with a tracker of its own or the same tracker
		sim::context("resume:stretches");
		RandomNG::init(c.seed);
		std::unique_ptr<ParticleBunch> b(bunch(c));
		const bool one = sim::chance(1, 2) ;
		Sim same_s;
		std::vector<std::string> rec;
		size_t first = 0;
		while(first < n)
		{
			const size_t last = first + sim::draw(n - first);
			Sim s;
			Sim& u = one ? same_s : s;
			if(!u.t)
			{
				u.t.reset(one ? new ParticleTracker : new ParticleTracker(m.model->GetBeamline(first, last)));
				equip(c, u, m);
			}
			if(one)
				u.t->SetBeamline(m.model->GetBeamline(first, last));
			u.t->InjectBeamOnAxis(c.onaxis && first == 0);
			u.out.rec.clear();
			u.t->Track(b.get());
			rec.insert(rec.end(), u.out.rec.begin(), u.out.rec.end());
			sim::ev("stretch %zu to %zu", first, last);
			first = last + 1;
		}
		same_out(a.out.rec, rec, "consecutive stretches");
		same(ref, *b, "consecutive stretches");
		break;
	}
	case 2:
	{
		// interrupted, then run again on the same simulation
		sim::context("resume:interrupted");
		Sim s;
		s.t.reset(new ParticleTracker(m.model->GetBeamline(), b0.get()));
		equip(c, s, m);
		s.t->InjectBeamOnAxis(c.onaxis);
		s.bomb->n = (long) sim::draw(12);
		s.bomb->merlin = sim::chance(2, 3);
		const bool handled = s.bomb->merlin && sim::chance(1, 2);
		s.t->HandleExceptions(handled);
		const bool by_track = sim::chance(1, 3);
		bool thrown = false;
		std::unique_ptr<ParticleBunch> mine(bunch(c));
		const int stepped = (int) sim::draw(3);
		RandomNG::init(c.seed + 1);
		try
		{
			if(by_track)
				s.t->Track(mine.get());
			else if(stepped == 0)
			{
				s.t->InitStepper();
				while(s.t->StepComponent())
					;
			}
			else
				s.t->Run();
		}
		catch(MerlinException&)
		{
			thrown = true;
		}
		catch(std::runtime_error&)
		{
			thrown = true;
		}
		const bool hit = s.bomb->n < 0;
		if(hit && !(stepped == 0 && !by_track))
			SIM_CHECK(thrown == !handled, "resume:exception", "a failing process: exceptions %shandled, exception %s", handled ? "" : "not ",
				thrown ? "thrown" : "not thrown");
		s.bomb->n = -1;
		s.t->HandleExceptions(false);
		s.out.rec.clear();
		RandomNG::init(c.seed);
		s.t->Run();
		same_out(a.out.rec, s.out.rec, "a run after an interrupted one");
		same(ref, s.t->GetTrackedBunch(), "a run after an interrupted one");
		if(hit)
			sim::nontrivial();
		break;
	}
	case 3:
	{
		// a ring: Run and Continue against the beam line tracked repeatedly
		sim::context("resume:ring");
		if(c.onaxis)
			break;
		const int start = (int) sim::draw(n);
		const int turns = (int) sim::range(1, 3);
		RandomNG::init(c.seed);
		Sim r;
		r.t.reset(new ParticleTracker(m.model->GetRing(start), b0.get()));
		equip(c, r, m);
		const bool stepping = sim::chance(1, 2);
		for(int t = 0; t < turns; t++)
			if(t == 0 && stepping)
			{
				r.t->InitStepper();
				while(r.t->StepComponent())
					;
			}
			else if(t == 0)
				r.t->Run();
			else
				r.t->Continue();
		RandomNG::init(c.seed);
		std::unique_ptr<ParticleBunch> b(bunch(c));
		std::vector<std::string> rec;
		Sim s1, s2;
		s1.t.reset(new ParticleTracker(m.model->GetBeamline(start, n - 1)));
		equip(c, s1, m);
		if(start)
		{
			s2.t.reset(new ParticleTracker(m.model->GetBeamline(0, start - 1)));
			equip(c, s2, m);
		}
		for(int t = 0; t < turns; t++)
		{
			s1.out.rec.clear();
			s1.t->Track(b.get());
			rec.insert(rec.end(), s1.out.rec.begin(), s1.out.rec.end());
			if(start)
			{
				s2.out.rec.clear();
				s2.t->Track(b.get());
				rec.insert(rec.end(), s2.out.rec.begin(), s2.out.rec.end());
			}
		}
		same_out(rec, r.out.rec, "ring");
		same(*b, r.t->GetTrackedBunch(), "ring");
		break;
	}
	case 4:
	{
		// flat: the same machine never moved
		sim::context("resume:flat");
		if(!c.flat)
			break;
		Machine f = build(c.P, false);
		RandomNG::init(c.seed);
		Sim s;
		s.t.reset(new ParticleTracker(f.model->GetBeamline(), b0.get()));
		equip(c, s, f);
		s.t->AssumeFlatLattice(false);
		s.t->InjectBeamOnAxis(c.onaxis);
		s.t->Run();
		same_out(a.out.rec, s.out.rec, "the machine without misalignments");
		same(ref, s.t->GetTrackedBunch(), "the machine without misalignments");
		break;
	}
	case 5:
	{
		// the same simulation run again, and a bunch of the caller
		sim::context("resume:again");
		const ParticleBunch keep(ref);
		std::vector<std::string> rec = a.out.rec;
		for(int i = 0; i < 2; i++)
		{
			RandomNG::init(c.seed);
			a.out.rec.clear();
			if(sim::chance(1, 2))
			{
				a.t->Run();
				same(keep, a.t->GetTrackedBunch(), "a second run");
			}
			else
			{
				std::unique_ptr<ParticleBunch> b(bunch(c));
				ParticleBunch* got = a.t->Track(b.get());
				SIM_CHECK(got == b.get(), "resume:bunch", "Track does not return the bunch it was given");
				same(keep, *b, "Track of the caller's bunch");
			}
			same_out(rec, a.out.rec, "again");
		}
		// the initial bunch is the caller's and unchanged
		size_t k = 0;
		for(auto& p : *b0)
			SIM_CHECK(same_bits(p, c.spec.p[k++]), "resume:initial", "running changed the initial bunch");
		sim::nontrivial();
		break;
	}
	case 6:
	{
		// another memory layout and another instance of the machine, stepped part of the way first
		sim::context("resume:rebuilt");
		Machine f = build(c.P);
		RandomNG::init(c.seed);
		Sim s;
		s.t.reset(new ParticleTracker(f.model->GetBeamline(), b0.get()));
		equip(c, s, f);
		s.t->InjectBeamOnAxis(c.onaxis);
		if(sim::chance(1, 2))
		{
			s.t->InitStepper();
			for(size_t k = sim::draw(n + 1); k > 0; k--)
				if(!s.t->StepComponent())
					break;
			s.out.rec.clear();
			RandomNG::init(c.seed);
		}
		s.t->Run();
		same_out(a.out.rec, s.out.rec, "a rebuilt machine");
		same(ref, s.t->GetTrackedBunch(), "a rebuilt machine");
		break;
	}
	}
	if(n > 1)
		sim::nontrivial();
	sim::mix((uint64_t) way * 1000 + n * 10 + c.set);
	sim::done();
}
