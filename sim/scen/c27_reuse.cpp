// C27: a tracker and the processes in it can be used again.  One set tracks a history of
// other bunches first (empty, single, without extent, lost, interrupted by an exception,
// abandoned half way, at another momentum, on another machine), then bunch B; a new set
// tracks bunch B only.  Both see the same seed: the results have the same bits.
#include "gen.h"
#include "chop.h"
#include "HollowELensProcess.h"
#include "HollowElectronLens.h"
#include "WakeFieldProcess.h"
#include "CollimatorWakeProcess.h"
#include "CouplerWakeFieldProcess.h"
#include "CombinedWakeRF.h"
#include "CollimatorWakePotentials.h"
#include "WakePotentials.h"
#include "SynchRadParticleProcess.h"
#include "SpinParticleProcess.h"
#include "RingDeltaTProcess.h"
#include "CollimateParticleProcess.h"
#include "CollimateProtonProcess.h"
#include "CollimationOutput.h"
#include "ScatteringModelsMerlin.h"
#include "MaterialData.h"
#include "RandomNG.h"
#include "MuonBunch.h"
#include <algorithm>
#include <map>
using namespace gen;

namespace
{
struct PlainWake: public WakePotentials
{
	double a, b;
	PlainWake(double x, double y) : a(x), b(y) {}
	double Wlong(double z) const override { return a * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return b * std::sqrt(std::fabs(z) + 1e-6); }
	void csr_on() { csr = true; }
};
struct CollWake: public CollimatorWakePotentials
{
	double a;
	CollWake(int m, double x) : CollimatorWakePotentials(m, 0, 0), a(x) {}
	double Wlong(double) const override { return 0; }
	double Wtrans(double) const override { return 0; }
	double Wlong(double z, int m) const override { return a * std::exp(-z / 1e-3) * m; }
	double Wtrans(double z, int m) const override { return a * std::exp(-z / 2e-3) / m; }
};
struct CouplerWake: public CombinedWakeRF
{
	double a;
	CouplerWake(double x) : a(x) {}
	double Wlong(double z) const override { return a * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return a * std::sqrt(std::fabs(z) + 1e-6); }
	Vector2D Wxy(double x, double y) const override { return Vector2D(a * (1 + x), -a * (1 + y)); }
	Vector2D CouplerRFKick(double x, double y, double phi) const override { return Vector2D(1e-6 * std::cos(phi), 1e-6 * std::sin(phi)); }
};
struct Rec
{
	std::string name;
	double pos;
	PSvector p;
};
struct Recorder: public CollimationOutput
{
	std::vector<Rec> r;
	void Dispose(AcceleratorComponent& c, double pos, Particle& p, int) override
	{
		r.push_back(Rec{c.GetName(), pos, p});
	}
};
// interrupts tracking at a drawn step
struct Interrupt: public BunchProcess
{
	long left = -1;
	struct Stop: public MerlinException
	{
		Stop() : MerlinException("stop") {}
	};
	Interrupt(int prio) : BunchProcess("INTERRUPT", prio) {}
	void InitialiseProcess(Bunch&) override {}
	void SetCurrentComponent(AcceleratorComponent&) override { active = left >= 0; }
	double GetMaxAllowedStepSize() const override { return 1e30; }
	void DoProcess(double) override
	{
		if(left-- == 0)
		{
			active = false;
			sim::fault("process.exception");
			throw Stop();
		}
		if(left < 0)
			active = false;
	}
};
enum { PW, CW, KW, SR, SP, DT, HL, CO, NPROC };
const char* pn[] = {"wake field", "collimator wake", "coupler wake", "synchrotron radiation", "spin", "ring delta t", "electron lens", "collimation"};
enum Species { PROTON, ELECTRON, SPIN, MUON, PLAIN };
const char* const species_name[] = {"protons", "electrons", "particles with spin", "muons", "particles"};

struct Config
{
	bool use[NPROC];
	int prio[NPROC];
	Species species;
	double wa, wb, bscale, helr, bin, threshold;
	bool csr, tw, centre, quantum, scatter, proton_scatter;
	int srsteps, spsteps, helmode, skip, colmode, mat, idx;
	int model;
	bool warm;
	size_t nbins;
	double nsig;
	std::vector<int> kind;   // per element: which wake, or lens (-1 none)
};
struct Mach
{
	std::unique_ptr<AcceleratorModel> model;
	std::vector<std::unique_ptr<WakePotentials> > wakes;
	std::vector<HollowElectronLens*> hels;
};
StandardMaterialData* mats = nullptr;
std::unique_ptr<BunchProcess> tags[3];
const char* const matnames[] = {"Cu", "C", "W", "Be", "Al"};
Collimation::ScatteringModel* make_model(int k)
{
	if(k)
		return new Collimation::ScatteringModelSixTrackIoniz;
	return new Collimation::ScatteringModelSixTrack;
}
Mach build_machine(const Lattice& L, const Config& c)
{
	Mach m;
	AcceleratorModelConstructor ctor;
	ctor.NewModel();
	for(size_t i = 0; i < L.el.size(); i++)
	{
		const El& e = L.el[i];
		AcceleratorComponent* a = nullptr;
		if(c.kind[i] == HL)
		{
			HollowElectronLens* h = new HollowElectronLens(e.name, e.len, c.helmode, 5, 0.195, 2.334e4, e.len);
			h->SetRadii(c.helr, 2 * c.helr);
			if(c.helmode == 1)
				h->SetAC(0.31, 0.002, 5e-5, 1, 2);
			if(c.helmode == 3)
				h->SetTurnskip(c.skip);
			m.hels.push_back(h);
			a = h;
		}
		else
			a = make(e, L.p0);
		if(e.kind == COLL && c.kind[i] != HL && mats)
		{
			static_cast<Collimator*>(a)->SetMaterialProperties(mats->property[matnames[c.mat]]);
		}
		WakePotentials* w = nullptr;
		if(c.kind[i] == PW)
		{
			PlainWake* p = new PlainWake(c.wa, c.wb);
			if(c.csr)
				p->csr_on();
			w = p;
		}
		else if(c.kind[i] == CW)
			w = new CollWake(3, c.wa * 1e-5);
		else if(c.kind[i] == KW)
			w = new CouplerWake(c.wa);
		if(w)
		{
			// the wake knows which class of process it is for
			w->SetExpectedProcess(tags[c.kind[i]].get());
			m.wakes.emplace_back(w);
			a->SetWakePotentials(w);
		}
		ctor.AppendComponentFrame(new TComponentFrame<AcceleratorComponent>(*a));
	}
	m.model.reset(ctor.GetModel());
	return m;
}
struct Set
{
	std::vector<BunchProcess*> procs;
	CollimateParticleProcess* coll = nullptr;
	Interrupt* stop = nullptr;
	std::unique_ptr<Recorder> rec;
	std::unique_ptr<Collimation::ScatteringModel> model;
};
Set make_set(const Config& c, double p0)
{
	Set s;
	s.rec.reset(new Recorder);
	for(int k = 0; k < NPROC; k++)
	{
		if(!c.use[k])
			continue;
		WakeFieldProcess* w = nullptr;
		switch(k)
		{
		case PW:
			w = new WakeFieldProcess(c.prio[k], c.nbins, c.nsig);
			w->IncludeTransverseWake(c.tw);
			break;
		case CW:
			w = new CollimatorWakeProcess(3, c.prio[k], c.nbins, c.nsig);
			break;
		case KW:
			w = new CouplerWakeFieldProcess(c.prio[k], c.nbins, c.nsig);
			break;
		case SR:
		{
			SynchRadParticleProcess* p = new SynchRadParticleProcess(c.prio[k], c.quantum);
			p->SetNumComponentSteps(c.srsteps);
			s.procs.push_back(p);
			break;
		}
		case SP:
			s.procs.push_back(new SpinParticleProcess(c.prio[k], c.spsteps));
			break;
		case DT:
		{
			RingDeltaTProcess* p = new RingDeltaTProcess(c.prio[k]);
			p->SetBendScale(c.bscale);
			s.procs.push_back(p);
			break;
		}
		case HL:
			s.procs.push_back(new HollowELensProcess(c.prio[k]));
			break;
		case CO:
			if(c.proton_scatter)
			{
				CollimateProtonProcess* p = new CollimateProtonProcess(c.prio[k], c.colmode);
				s.model.reset(make_model(c.model));
				// cross sections are worked out at the energy of first use (see reuse_material)
				if(c.warm)
					for(auto& n : matnames)
					{
						PSvector d(0);
						d.id() = 0;
						s.model->ParticleScatter(d, mats->property[n], p0);
					}
				p->SetScatteringModel(s.model.get());
				s.coll = p;
			}
			else
				s.coll = new CollimateParticleProcess(c.prio[k], c.colmode);
			s.coll->ScatterAtCollimator(c.scatter);
			s.coll->SetOutputBinSize(c.bin);
			s.coll->SetLossThreshold(c.threshold);
			if(c.idx)
				s.coll->IndexParticles(true);
			s.coll->SetCollimationOutput(s.rec.get());
			s.procs.push_back(s.coll);
			break;
		}
		if(w)
		{
			w->ApplyImpulseAt(c.centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
			s.procs.push_back(w);
		}
	}
	s.stop = new Interrupt(20);
	s.procs.push_back(s.stop);
	return s;
}
ParticleBunch* beam_of(Species species, const BeamSpec& b, double p0, double q)
{
	switch(species)
	{
	case MUON:
		return make_bunch<MuonBunch>(b, p0, q);
	case PLAIN:
		return make_bunch<ParticleBunch>(b, p0, q);
	case ELECTRON:
		return make_bunch<ElectronBunch>(b, p0, q);
	case SPIN:
	{
		SpinParticleBunch* s = new SpinParticleBunch(p0, q);
		for(auto& p : b.p)
			s->AddParticle(p, SpinVector(0.6, 0, 0.8));
		return s;
	}
	default:
		return make_bunch<ProtonBunch>(b, p0, q);
	}
}
bool same(double a, double b)
{
	return !std::memcmp(&a, &b, sizeof a) || (a != a && b != b);
}
struct Result
{
	std::vector<PSvector> p;
	std::vector<SpinVector> s;
	double pref = 0, tref = 0, q = 0;
	std::vector<Rec> loss;
	std::string stopped;
	std::vector<size_t> index;
	bool has_index = false;
};
}

SCENARIO(reuse)
{
	sim::context("a used tracker");
	Config c;
	std::memset(c.use, 0, sizeof c.use);
	const int main = (int) sim::draw(NPROC);
	c.use[main] = true;
	// others that fit the same beam
	c.species = main == SR ? ELECTRON : main == SP ? SPIN : main == HL ? PROTON : main == CO ? PROTON : sim::pick(std::vector<Species>{PROTON, ELECTRON});
	for(int k = 0; k < NPROC; k++)
		if(k != main && sim::chance(1, 3))
			switch(k)
			{
			case SR:
				c.use[k] = c.species == ELECTRON;
				break;
			case SP:
				break;
			case HL:
				c.use[k] = c.species == PROTON;
				break;
			case CO:
				c.use[k] = c.species != SPIN;
				break;
			default:
				c.use[k] = true;
			}
	for(int k = 0; k < NPROC; k++)
		c.prio[k] = (int) sim::range(1, 6);
	Opts o;
	o.nmin = 1;
	o.nmax = 7;
	o.lmin = 0.1;
	o.simple_names = true;
	o.kinds = {DRIFT, MARKER};
	if(c.species == PROTON || main != SR)
		o.kinds.push_back(QUAD);
	if(c.use[SR] || c.use[SP] || c.use[DT] || sim::chance(1, 2))
		o.kinds.push_back(SBEND);
	if(c.use[KW])
		o.kinds.push_back(TWRF);
	o.kinds.push_back(COLL);
	o.apert = c.use[CO] ? 60 : 0;
	o.apsize = 3e-3;
	o.more_ap = sim::chance(1, 2);
	Lattice L = gen_lattice(o);
	if(c.species != PROTON)
		L.p0 = sim::pick(std::vector<double>{3.0, 1.0, 5.0});
	for(auto& e : L.el)
		if(e.kind == SBEND)
			e.s2 = 0;
	describe(L);
	for(auto& e : L.el)
	{
		int k = -1;
		if(e.kind != MARKER && e.kind != SBEND)
		{
			std::vector<int> can;
			for(int w : {PW, CW, KW})
				if(c.use[w] && e.kind != QUAD && (w != KW || e.len > 0))
					can.push_back(w);
			if(c.use[HL] && e.kind == DRIFT && !e.ap.kind)
				can.push_back(HL);
			if(!can.empty() && sim::chance(3, 4))
				k = sim::pick(can);
		}
		c.kind.push_back(k);
	}
	c.wa = sim::real(1e13, 1e15);
	c.wb = sim::real(1e14, 1e16);
	c.csr = sim::chance(1, 5);
	c.tw = sim::chance(3, 4);
	c.centre = sim::chance(1, 2);
	c.quantum = sim::chance(1, 2);
	c.bscale = sim::sreal(1e-6);
	c.srsteps = (int) sim::range(1, 6);
	c.spsteps = (int) sim::range(1, 6);
	c.helmode = (int) sim::draw(4);
	c.skip = (int) sim::range(1, 4);
	c.helr = sim::real(1e-4, 4e-3);
	c.nbins = (size_t) sim::range(2, 40);
	c.nsig = sim::real(2, 6);
	c.scatter = sim::chance(1, 2);
	c.proton_scatter = c.use[CO] && c.scatter && c.species == PROTON && sim::chance(3, 4);
	c.colmode = (int) sim::range(1, 7);
	c.bin = sim::pick(std::vector<double>{0.1, 0.03, 0.5});
	c.threshold = sim::pick(std::vector<double>{200, 200, 60, 20});
	c.mat = (int) sim::draw(5);
	c.idx = (int) sim::draw(2);
	c.model = (int) sim::draw(2);
	c.warm = true;
	const double amp = c.use[CO] || c.use[HL] ? 3e-3 : 1e-5, act = c.use[PW] || c.use[CW] || c.use[KW] ? 2e-3 : 1e-6;
	const bool flat = sim::chance(1, 4);
	BeamSpec B = gen_beam(1, 20, amp, amp / 10, act, 1e-4);
	const double qB = sim::chance(1, 2) ? 1e8 : 3e7;
	const int turns = (int) sim::range(1, 3);
	const uint64_t seed = sim::draw(1000) + 1;
	std::string used;
	for(int k = 0; k < NPROC; k++)
		if(c.use[k])
			used += std::string(used.empty() ? "" : ", ") + pn[k];
	sim::ev("processes: %s; bunch of %zu, %d turns", used.c_str(), B.p.size(), turns);
	std::unique_ptr<StandardMaterialData> keep;
	mats = nullptr;
	if(c.use[CO])
	{
		RandomNG::init(1);
		keep.reset(new StandardMaterialData());
		keep->UseSixTrackValues();
		mats = keep.get();
	}
	tags[PW].reset(new WakeFieldProcess(1, 10, 3));
	tags[CW].reset(new CollimatorWakeProcess(3, 1, 10, 3));
	tags[KW].reset(new CouplerWakeFieldProcess(1, 10, 3));

	auto final_run = [&](ParticleTracker& t, Set& s, Mach& m) -> Result
	{
		Result r;
		for(auto h : m.hels)
			h->Turn = 0;
		s.rec->r.clear();
		s.stop->left = -1;
		t.AssumeFlatLattice(flat);
		RandomNG::init((uint32_t) seed);
		std::unique_ptr<ParticleBunch> b(beam_of(c.species, B, L.p0, qB));
		try
		{
			for(int i = 0; i < turns; i++)
				t.Track(b.get());
		}
		catch(MerlinException& e)
		{
			r.stopped = e.what();
		}
		r.p.assign(b->begin(), b->end());
		if(SpinParticleBunch* sb = dynamic_cast<SpinParticleBunch*>(b.get()))
			r.s.assign(sb->beginSpinArray(), sb->endSpinArray());
		r.pref = b->GetReferenceMomentum();
		r.tref = b->GetReferenceTime();
		r.q = b->GetTotalCharge();
		r.loss = s.rec->r;
		sim::steps(L.length() * turns);
		log_bunch("B", *b);
		return r;
	};
	Result fresh, again;
	{
		sim::ev("new tracker");
		Mach m = build_machine(L, c);
		Set s = make_set(c, L.p0);
		ParticleTracker t(m.model->GetBeamline());
		for(auto p : s.procs)
			t.AddProcess(p);
		fresh = final_run(t, s, m);
	}
	int done = 0, lostruns = 0;
	{
		sim::ev("used tracker");
		// the same machine all along, or another one first
		const bool other = sim::chance(1, 2);
		Lattice L1 = L;
		Config c1 = c;
		if(other)
		{
			// elements in another order, some missing, other strengths
			for(size_t i = L1.el.size(); i > 1; i--)
			{
				size_t j = (size_t) sim::draw(i);
				std::swap(L1.el[i - 1], L1.el[j]);
				std::swap(c1.kind[i - 1], c1.kind[j]);
			}
			size_t n = (size_t) sim::range(1, (int64_t) L1.el.size());
			L1.el.resize(n);
			c1.kind.resize(n);
			c1.wa *= 0.5;
			c1.mat = (int) sim::draw(5);
			c1.helmode = (int) sim::draw(4);
		}
		std::unique_ptr<Mach> m1(new Mach(build_machine(L1, c1)));
		std::unique_ptr<Mach> m2;
		if(other)
			m2.reset(new Mach(build_machine(L, c)));
		Set s = make_set(c, L.p0);
		std::unique_ptr<ParticleTracker> t(new ParticleTracker(m1->model->GetBeamline()));
		for(auto p : s.procs)
			t->AddProcess(p);
		const int nh = (int) sim::range(1, 4);
		for(int h = 0; h < nh; h++)
		{
			const int what = (int) sim::draw(7);
			BeamSpec A = what == 0 ? BeamSpec() : gen_beam(1, 20, amp * sim::pick(std::vector<double>{1, 0.1, 3}), amp / 10, act, 1e-4);
			if(what == 1)
				A.p.resize(1);
			if(what == 2)
				for(auto& p : A.p)
					p.ct() = 0;
			const double pA = L.p0 * (sim::chance(1, 3) ? sim::real(0.5, 2) : 1);
			// now and then particles of another kind (the radiation of those without mass has no meaning)
			Species kindA = c.species;
			if(sim::chance(1, 3))
				kindA = c.use[SR] ? sim::pick(std::vector<Species>{PROTON, MUON}) : sim::pick(std::vector<Species>{PROTON, ELECTRON, SPIN, MUON, PLAIN});
			if(kindA != c.species)
				sim::ev("a bunch of %s", species_name[kindA]);
			const double qA = sim::pick(std::vector<double>{1e8, 1e7, 0.0});
			s.stop->left = -1;
			if(what == 3)
				s.stop->left = (long) sim::range(0, 3 * (int64_t) L1.el.size());
			t->AssumeFlatLattice(sim::chance(1, 4));
			RandomNG::init((uint32_t) sim::draw(1000) + 5);
			if(what == 4)
			{
				// step by step, abandoned on the way
				ParticleBunch* b = beam_of(kindA, A, pA, qA);
				t->InitStepper(b);
				int k = (int) sim::range(0, (int64_t) L1.el.size());
				try
				{
					while(k-- > 0 && t->StepComponent())
						;
				}
				catch(MerlinException& e)
				{
					lostruns++;
				}
				sim::fault("tracking.abandoned");
				sim::ev("abandoned, bunch of %zu", A.p.size());
			}
			else
			{
				std::unique_ptr<ParticleBunch> b(beam_of(kindA, A, pA, qA));
				try
				{
					for(int i = (int) sim::range(1, 2); i > 0; i--)
						t->Track(b.get());
					sim::ev("tracked a bunch of %zu, %zu left", A.p.size(), b->size());
				}
				catch(MerlinException& e)
				{
					lostruns++;
					sim::ev("stopped: %s", e.what());
				}
			}
			done++;
		}
		Mach* m = other ? m2.get() : m1.get();
		if(sim::chance(1, 2))
		{
			// the processes move to a new tracker
			sim::ev("processes moved");
			for(auto p : s.procs)
				SIM_CHECK(t->RemoveProcess(p), "reuse:remove", "a process that was added is not found");
			const bool gone = sim::chance(1, 2);
			if(gone)
				t.reset();
			if(other && gone && sim::chance(1, 2))
				m1.reset();
			std::unique_ptr<ParticleTracker> t2(new ParticleTracker(m->model->GetBeamline()));
			for(auto p : s.procs)
				t2->AddProcess(p);
			again = final_run(*t2, s, *m);
		}
		else
		{
			if(other)
			{
				sim::ev("another machine");
				t->SetBeamline(m->model->GetBeamline());
				if(sim::chance(1, 3))
				{
					// a bunch owned by the tracker does not outlive it
					m1.reset();
				}
			}
			again = final_run(*t, s, *m);
		}
	}
	mats = nullptr;
	SIM_CHECK(fresh.stopped == again.stopped, "reuse:stop", "%s: the new one stops with '%s', the used one with '%s'", used.c_str(), fresh.stopped.c_str(),
		again.stopped.c_str());
	SIM_CHECK(fresh.p.size() == again.p.size(), "reuse:particles", "%s: %zu particles from the new, %zu from the used", used.c_str(), fresh.p.size(),
		again.p.size());
	for(size_t i = 0; i < fresh.p.size(); i++)
	{
		SIM_CHECK(fresh.p[i].id() == again.p[i].id(), "reuse:order", "%s: particle %zu is number %.0f in the new, %.0f in the used", used.c_str(), i,
			(double) fresh.p[i].id(), (double) again.p[i].id());
		SIM_CHECK(same_bits(fresh.p[i], again.p[i]), "reuse:coordinates", "%s: particle %zu is %s from the new, %s from the used", used.c_str(), i,
			show(fresh.p[i]).c_str(), show(again.p[i]).c_str());
	}
	SIM_CHECK(same(fresh.pref, again.pref), "reuse:momentum", "%s: reference momentum %.17g from the new, %.17g from the used",
		used.c_str(), fresh.pref, again.pref);
	SIM_CHECK(same(fresh.tref, again.tref), "reuse:time", "%s: reference time %.17g from the new, %.17g from the used", used.c_str(),
		fresh.tref, again.tref);
	SIM_CHECK(same(fresh.q, again.q), "reuse:charge", "%s: charge %.17g from the new, %.17g from the used", used.c_str(), fresh.q,
		again.q);
	for(size_t i = 0; i < fresh.s.size(); i++)
		SIM_CHECK(same(fresh.s[i].x(), again.s[i].x()) && same(fresh.s[i].y(), again.s[i].y()) && same(fresh.s[i].z(), again.s[i].z()), "reuse:spin",
			"spin %zu is (%.17g %.17g %.17g) from the new, (%.17g %.17g %.17g) from the used", i, fresh.s[i].x(), fresh.s[i].y(), fresh.s[i].z(),
			again.s[i].x(), again.s[i].y(), again.s[i].z());
	SIM_CHECK(fresh.loss.size() == again.loss.size(), "reuse:losses", "%s: %zu losses from the new, %zu from the used", used.c_str(), fresh.loss.size(),
		again.loss.size());
	for(size_t i = 0; i < fresh.loss.size(); i++)
		SIM_CHECK(fresh.loss[i].name == again.loss[i].name && !std::memcmp(&fresh.loss[i].pos, &again.loss[i].pos, sizeof(double))
			&& same_bits(fresh.loss[i].p, again.loss[i].p), "reuse:losses", "%s: loss %zu is %s in %s at %.17g from the new, %s in %s at %.17g from the used",
			used.c_str(), i, show(fresh.loss[i].p).c_str(), fresh.loss[i].name.c_str(), fresh.loss[i].pos, show(again.loss[i].p).c_str(),
			again.loss[i].name.c_str(), again.loss[i].pos);
	if(!fresh.loss.empty())
		sim::probe("losses");
	if(lostruns)
		sim::probe("history-stopped");
	sim::mix(main * 1000 + (uint64_t) fresh.p.size() * 10 + done);
	if(done)
		sim::nontrivial();
}

// one scattering model for several collimators: materials come and go
SCENARIO(reuse_material)
{
	sim::context("a used scattering model");
	RandomNG::init(1);
	std::unique_ptr<StandardMaterialData> keep(new StandardMaterialData());
	keep->UseSixTrackValues();
	const int kind = (int) sim::draw(2);
	const double E = sim::pick(std::vector<double>{450, 7000, 100, 3500});
	const bool other_energy = sim::chance(1, 4);
	const double E1 = other_energy ? E * sim::pick(std::vector<double>{0.1, 2, 15.5}) : E;
	const int target = (int) sim::draw(5);
	std::unique_ptr<Collimation::ScatteringModel> fresh(make_model(kind)), used(make_model(kind));
	sim::ev("%s, %s at %g GeV, before at %g GeV", kind ? "SixTrack with ionisation" : "SixTrack", matnames[target], E, E1);
	auto use = [&](Collimation::ScatteringModel& m, int mat, double e, int n, std::vector<PSvector>* out)
	{
		MaterialProperties* mp = keep->property[matnames[mat]];
		for(int i = 0; i < n; i++)
		{
			PSvector p(0);
			p.x() = 1e-3;
			p.id() = i;
			const double len = m.PathLength(mp, e);
			m.EnergyLoss(p, std::min(len, 0.5), mp, e);
			m.Straggle(p, std::min(len, 0.5), mp, e, e * (1 + p.dp()));
			bool kept = true;
			if(i % 2)
				kept = m.ParticleScatter(p, mp, e);
			if(!kept)
				p.ct() = 1e9;
			if(out)
				out->push_back(p);
		}
	};
	const int nh = (int) sim::range(1, 6);
	for(int h = 0; h < nh; h++)
	{
		const int m = sim::chance(1, 2) ? target : (int) sim::draw(5);
		const int n = (int) sim::range(1, 40);
		RandomNG::init((uint32_t) sim::draw(1000) + 7);
		use(*used, m, E1, n, nullptr);
		sim::ev("%d particles in %s", n, matnames[m]);
		if(m != target)
			sim::probe("other-material");
	}
	std::vector<PSvector> a, b;
	const uint32_t seed = (uint32_t) sim::draw(1000) + 1;
	const int n = (int) sim::range(1, 300);
	RandomNG::init(seed);
	use(*fresh, target, E, n, &a);
	RandomNG::init(seed);
	use(*used, target, E, n, &b);
	for(int i = 0; i < n; i++)
		SIM_CHECK(same_bits(a[i], b[i]), other_energy ? "reuse:cross-section-energy" : "reuse:scattering",
			"particle %d of %d comes out as %s from a new model, as %s from one used before", i, n, show(a[i]).c_str(), show(b[i]).c_str());
	sim::steps(n);
	sim::mix((uint64_t) target * 10 + kind + (uint64_t) n * 100);
	sim::nontrivial();
}
