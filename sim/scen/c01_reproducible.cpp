// C01: the same simulation twice.  A drawn simulation (machine, alignment errors, generated
// bunch, physics processes, outputs) is executed, then other work is done in the same program,
// and the simulation is executed again with another heap, another clock and other entropy.
// Everything it produced must be the same, bit for bit.
#include "frames.h"
#include "chop.h"
#include "RandomNG.h"
#include "SynchRadParticleProcess.h"
#include "CollimateProtonProcess.h"
#include "ScatteringModelsMerlin.h"
#include "MaterialData.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "MonitorProcess.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "CollimatorWakeProcess.h"
#include "CollimatorPotentialModels.h"
#include "SpinParticleProcess.h"
#include "HollowELensProcess.h"
#include "HollowElectronLens.h"
#include "CCFailureProcess.h"
#include "RingDeltaTProcess.h"
#include "SimpleATL.h"
#include "ATL2D.h"
#include "AcceleratorErrors.h"
#include "ParticleDistributionGenerator.h"
#include "HaloParticleDistributionGenerator.h"
#include "BunchFilter.h"
#include "BeamData.h"
#include "RMSProfileMonitor.h"
#include "DiffractiveScatter.h"
#include "ElasticScatter.h"
#include <sstream>
using namespace gen;
using namespace Collimation;

namespace
{
struct Transcript
{
	std::vector<std::pair<std::string, std::string> > e;
	void add(const std::string& what, const std::string& value)
	{
		e.emplace_back(what, value);
	}
	void num(const std::string& what, double v)
	{
		uint64_t u;
		memcpy(&u, &v, 8);
		add(what, sim::fmt("%.17g [%016llx]", v, (unsigned long long) u));
	}
	void bunch(const std::string& what, const ParticleBunch& b)
	{
		add(what, sim::fmt("%zu particles", b.size()));
		num(what + " momentum", b.GetReferenceMomentum());
		num(what + " time", b.GetReferenceTime());
		num(what + " charge", b.GetTotalCharge());
		int i = 0;
		for(auto& p : b)
		{
			std::string s;
			for(int k = 0; k < 7; k++)   // id included
			{
				double d = p[k];
				uint64_t u;
				memcpy(&u, &d, 8);
				s += sim::fmt("%.9g[%llx] ", d, (unsigned long long) u);
			}
			add(what + sim::fmt(" particle %d", i++), s);
		}
	}
};
void compare(const Transcript& a, const Transcript& b, const char* how)
{
	const size_t n = std::min(a.e.size(), b.e.size());
	for(size_t i = 0; i < n; i++)
	{
		SIM_CHECK(a.e[i].first == b.e[i].first, "differs:order", "%s: output %zu is '%s', the first time it was '%s'", how, i, b.e[i].first.c_str(),
			a.e[i].first.c_str());
		if(a.e[i].second != b.e[i].second)
		{
			size_t k = 0;
			const std::string& x = a.e[i].second;
			const std::string& y = b.e[i].second;
			while(k < x.size() && k < y.size() && x[k] == y[k])
				k++;
			k = k > 60 ? k - 60 : 0;
			sim::fail("differs:value", "%s: %s is '%s', the first time it was '%s'", how, a.e[i].first.c_str(), y.substr(k, 160).c_str(), x.substr(k, 160).c_str());
		}
	}
	SIM_CHECK(a.e.size() == b.e.size(), "differs:count", "%s: %zu outputs, the first time %zu", how, b.e.size(), a.e.size());
}
struct Wake: public WakePotentials
{
	double Wlong(double z) const override { return 1e12 * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return 1e13 * std::sqrt(std::fabs(z) + 1e-6); }
};
struct Spec
{
	Plan P;
	BeamSpec beam;
	BeamData bd;
	bool generated, filtered;
	int gen;
	int particle;                 // 0 proton, 1 electron, 2 electron with spin
	size_t np;
	uint32_t seed;
	int set, turns;
	// processes
	bool coll, sr, sr_quantum, wake, cwake, spin, hel, monitor, deltat, chop, bpm_noise, det;
	int model, mode, helmode, cwmodes;
	std::vector<int> material;    // per element
	bool mixture;
	// machine
	bool errors, typed, shifts, atl;
	int atlkind, atlsteps;
	double atlA, vib;
	std::vector<std::vector<double> > cuts;
};
struct Noise: public BPM::Buffer
{
	std::vector<BPM::Data> d;
	void Record(const BPM&, const BPM::Data& x) override { d.push_back(x); }
};
struct Filter: public ParticleBunchFilter
{
	double cut;
	bool Apply(const PSvector& v) const override { return v.x() < cut; }
};
int serial = 0;
const char* material_names[] = {"Cu", "C", "W", "Be", "Al"};
void simulate(const Spec& s, Transcript& t)
{
	const Lattice& L = s.P.L;
	RandomNG::init(s.seed);
	std::unique_ptr<StandardMaterialData> mats(new StandardMaterialData());
	mats->UseSixTrackValues();
	if(s.mixture)
		mats->MakeMixture("MIX", "C Cu", {2.0, 1.0}, 3500.0);
	Machine m = build(s.P);
	std::vector<std::unique_ptr<Noise> > bufs;
	Wake wake;
	std::vector<std::unique_ptr<WakePotentials> > cw;
	for(size_t i = 0; i < m.comp.size(); i++)
	{
		if(Collimator* c = dynamic_cast<Collimator*>(m.comp[i]))
			c->SetMaterialProperties(mats->property[s.mixture && s.material[i] == 4 ? "MIX" : material_names[s.material[i]]]);
		if(BPM* b = dynamic_cast<BPM*>(m.comp[i]))
		{
			bufs.emplace_back(new Noise);
			b->AddBuffer(bufs.back().get());
			if(s.bpm_noise)
				b->SetResolution(1e-3, 2e-3);
		}
		if(s.wake && L.el[i].len > 0)
			m.comp[i]->SetWakePotentials(&wake);
		if(s.cwake && L.el[i].kind == COLL && L.el[i].len > 0)
		{
			cw.emplace_back(new TaperedCollimatorPotentials(s.cwmodes, 2e-3, 5e-3));
			m.comp[i]->SetWakePotentials(cw.back().get());
		}
		m.comp[i]->SetComponentLatticePosition((double) i);
	}
	if(s.typed)
	{
		// random errors handed out in the order the elements are found
		std::vector<RectMultipole*> q;
		m.model->ExtractTypedElements(q, "*");
		for(auto x : q)
			x->SetFieldStrength(x->GetFieldStrength() * (1 + 1e-3 * RandomNG::normal(0, 1)));
		std::vector<ModelElement*> all;
		m.model->ExtractModelElements("*", all);
		for(auto e : all)
			t.add("element", e->GetQualifiedName());
	}
	if(s.errors)
	{
		AcceleratorErrors ae;
		ae.SetErrors(1e-4 * 1e-4, 1e-4 * 1e-4, 0, 0, 0, 0);
		AcceleratorModel::Beamline bl = m.model->GetBeamline();
		if(s.shifts)
			ae.ApplyShifts(bl, "*");
		else
			ae.ApplyRotations(bl, "*");
	}
	if(s.atl)
	{
		AcceleratorSupportList sup;
		m.model->GetAcceleratorSupports(sup);
		if(!sup.empty() && s.atlkind == 0)
		{
			SimpleATL atl(s.atlA, sup, s.vib);
			for(int i = 0; i < s.atlsteps; i++)
				t.num("ground motion time", atl.DoStep(3600));
		}
		else if(!sup.empty())
		{
			ATL2D atl(s.atlA, sup);
			atl.SetVibration(s.vib);
			for(int i = 0; i < s.atlsteps; i++)
				t.num("ground motion time", atl.DoStep(3600));
		}
		for(auto x : sup)
		{
			t.num("support x", x->GetOffset().x);
			t.num("support y", x->GetOffset().y);
		}
	}
	std::unique_ptr<ParticleBunch> b;
	if(s.generated && s.particle < 2)
	{
		std::unique_ptr<ParticleDistributionGenerator> g;
		switch(s.gen)
		{
		case 0:
			g.reset(new NormalParticleDistributionGenerator());
			break;
		case 1:
			g.reset(new NormalParticleDistributionGenerator(2.0));
			break;
		case 2:
			g.reset(new UniformParticleDistributionGenerator());
			break;
		case 3:
			g.reset(new RingParticleDistributionGenerator());
			break;
		case 4:
			g.reset(new HorizonalHalo1ParticleDistributionGenerator(5.0));
			break;
		default:
			g.reset(new VerticalHalo2ParticleDistributionGenerator(5.0));
			break;
		}
		Filter f;
		f.cut = 0.5 * s.bd.sigma_x();
		ParticleBunchFilter* fp = s.filtered ? &f : nullptr;
		if(s.particle == 0)
			b.reset(new ProtonBunch(s.np, *g, s.bd, fp));
		else
			b.reset(new ElectronBunch(s.np, *g, s.bd, fp));
		t.bunch("generated bunch", *b);
	}
	else if(s.particle == 0)
		b.reset(make_bunch<ProtonBunch>(s.beam, L.p0, 1e-9));
	else if(s.particle == 1)
		b.reset(make_bunch<ElectronBunch>(s.beam, L.p0, 1e-9));
	else
	{
		SpinParticleBunch* sb = new SpinParticleBunch(L.p0, 1e-9);
		for(auto& p : s.beam.p)
			sb->AddParticle(p, SpinVector(0.6, 0, 0.8));
		b.reset(sb);
	}
	const std::string dir = sim::fmt("out%d_", serial++);
	// (loss maps have no destructor to call)
	LossMapCollimationOutput* maps[3] = {new LossMapCollimationOutput(nearestelement), new LossMapCollimationOutput(precise), new LossMapCollimationOutput(tencm)};
	DetailedCollimationOutput det;
	det.AddIdentifier("*");
	long nsteps = 0;
	{
		ParticleTracker tr(m.model->GetBeamline(), b.get(), false);
		if(s.set == 1)
		{
			THIN_LENS::StdISet i;
			tr.SetIntegratorSet(&i);
		}
		else if(s.set == 2)
		{
			SYMPLECTIC::StdISet i;
			tr.SetIntegratorSet(&i);
		}
		if(s.coll)
		{
			CollimateParticleProcess* c;
			if(s.particle == 0)
			{
				CollimateProtonProcess* cp = new CollimateProtonProcess(5, s.mode);
				ScatteringModel* sm;
				if(s.model == 0)
					sm = new ScatteringModelSixTrack;
				else
					sm = new ScatteringModelSixTrackIoniz;
				cp->SetScatteringModel(sm);
				cp->ScatterAtCollimator(true);
				c = cp;
			}
			else
				c = new CollimateParticleProcess(5, s.mode);
			c->SetLossThreshold(1000);
			c->SetOutputBinSize(0.1);
			for(auto x : maps)
				c->SetCollimationOutput(x);
			c->SetCollimationOutput(&det);
			tr.AddProcess(c);
		}
		if(s.sr)
		{
			SynchRadParticleProcess::SetPhotonGenerator(HBSpectrumGen);
			SynchRadParticleProcess* p = new SynchRadParticleProcess(4, s.sr_quantum);
			p->SetNumComponentSteps(2);
			tr.AddProcess(p);
		}
		if(s.wake)
			tr.AddProcess(new WakeFieldProcess(3, 20, 3.0));
		if(s.cwake)
			tr.AddProcess(new CollimatorWakeProcess(s.cwmodes, 3, 20, 3.0));
		if(s.spin)
			tr.AddProcess(new SpinParticleProcess(2, 2));
		if(s.hel)
			tr.AddProcess(new HollowELensProcess(6));
		if(s.deltat)
		{
			RingDeltaTProcess* d = new RingDeltaTProcess(7);
			d->SetBendScale(1e-4);
			tr.AddProcess(d);
		}
		if(s.chop)
		{
			Chopper* c = new Chopper(8, nsteps);
			c->plan = s.cuts;
			tr.AddProcess(c);
		}
		if(s.monitor)
		{
			MonitorProcess* p = new MonitorProcess("MONITOR", 9, sim::path(dir));
			for(auto& e : L.el)
				p->AddElement(e.name);
			tr.AddProcess(p);
		}
		for(int turn = 0; turn < s.turns; turn++)
		{
			try
			{
				if(turn == 0)
					tr.Run();
				else
					tr.Continue();
			}
			catch(MerlinException& e)
			{
				t.add("stopped", e.Msg());
				break;
			}
			t.bunch(sim::fmt("bunch after turn %d", turn + 1), tr.GetTrackedBunch());
			if(tr.GetTrackedBunch().size() == 0)
				break;
		}
		if(SpinParticleBunch* sb = dynamic_cast<SpinParticleBunch*>(&tr.GetTrackedBunch()))
			for(auto i = sb->beginSpinArray(); i != sb->endSpinArray(); ++i)
			{
				t.num("spin x", i->x());
				t.num("spin y", i->y());
				t.num("spin z", i->z());
			}
		std::ostringstream os;
		tr.GetTrackedBunch().Output(os);
		t.add("bunch output", os.str());
		if(s.coll)
		{
			for(auto x : maps)
			{
				x->Finalise();
				std::ostringstream o;
				x->Output(&o);
				t.add("loss map", o.str());
			}
			det.Finalise();
			std::ostringstream o;
			det.Output(&o);
			t.add("loss record", o.str());
		}
	}
	for(auto& x : bufs)
		for(auto& d : x->d)
		{
			t.num("reading x", d.x.value);
			t.num("reading y", d.y.value);
			t.num("reading ct", d.ct);
		}
	if(s.monitor)
		for(auto& e : L.el)
			for(int k = 1; k <= 3; k++)
				if(sim::has_file(dir + e.name + sim::fmt("_%d", k)))
					t.add("monitor " + e.name, sim::get_file(dir + e.name + sim::fmt("_%d", k)));
	t.num("next random number", RandomNG::uniform(0, 1));
}
Spec draw_spec(bool small)
{
	Spec s;
	s.particle = (int) sim::pick(std::vector<int>{0, 0, 0, 1, 2});
	s.coll = s.particle < 2 && sim::chance(1, 2);
	Opts o;
	o.kinds = {DRIFT, QUAD, SBEND, MARKER, SEXT, SOL, BPMK, XCORK, YCORK, TWRF, COLL, COLL};
	o.nmin = 1;
	o.nmax = small ? 4 : 8;
	o.lmax = 2;
	if(s.coll)
	{
		o.apert = 70;
		o.apsize = 2e-3;
	}
	Lattice L = gen_lattice(o);
	const bool frames = sim::chance(1, 2);
	s.P = frames ? gen_plan(L, 6, true) : plan_flat(L);
	if(frames)
		gen_moves(s.P, 4, 1e-4);
	s.beam = gen_beam(1, small ? 6 : 12, 1.5e-3, 1e-4, 1e-3, 1e-3);
	s.generated = sim::chance(1, 3);
	s.filtered = sim::chance(1, 3);
	s.gen = (int) sim::draw(6);
	s.np = 1 + sim::draw(12);
	s.bd.beta_x = s.bd.beta_y = 10;
	s.bd.emit_x = s.bd.emit_y = 1e-7;
	s.bd.sig_dp = 1e-8;
	s.bd.sig_z = 1e-6;
	s.bd.p0 = L.p0;
	s.bd.charge = 1e-9;
	s.seed = (uint32_t) sim::draw(1u << 30);
	s.set = (int) sim::draw(3);
	s.turns = (int) sim::range(1, 2);
	s.model = (int) sim::draw(2);
	s.mode = (int) sim::range(1, 7);
	s.material.clear();
	for(size_t i = 0; i < L.el.size(); i++)
		s.material.push_back((int) sim::draw(5));
	s.mixture = sim::chance(1, 3);
	s.sr = sim::chance(1, 3) && s.set == 0 && !(s.particle > 0 && L.p0 > 20);
	s.sr_quantum = sim::chance(2, 3);
	s.wake = sim::chance(1, 5);
	s.cwmodes = (int) sim::range(1, 3);
	s.cwake = !s.wake && sim::chance(1, 6);
	s.spin = s.particle == 2;
	s.hel = false;
	s.helmode = 0;
	s.monitor = sim::chance(1, 4);
	s.deltat = sim::chance(1, 6);
	s.chop = sim::chance(1, 3);
	for(size_t i = 0; i < L.el.size(); i++)
		s.cuts.push_back(s.chop ? draw_cuts() : std::vector<double>());
	s.bpm_noise = sim::chance(1, 2);
	s.typed = sim::chance(1, 3);
	s.errors = sim::chance(1, 4);
	s.shifts = sim::chance(1, 2);
	s.atl = frames && sim::chance(1, 2);
	s.atlkind = (int) sim::draw(2);
	s.atlsteps = (int) sim::range(1, 4);
	s.atlA = 1e-12;
	s.vib = sim::chance(1, 2) ? 1e-6 : 0;
	return s;
}
void log(const Spec& s, const char* what)
{
	sim::ev("%s: particle %d set %d turns %d seed %u coll %d (model %d mode %d mix %d) sr %d%d wake %d cwake %d spin %d monitor %d deltat %d chop %d noise %d typed %d errors %d atl %d gen %d(%d)",
		what, s.particle, s.set, s.turns, s.seed, s.coll, s.model, s.mode, s.mixture, s.sr, s.sr_quantum, s.wake, s.cwake, s.spin, s.monitor, s.deltat, s.chop,
		s.bpm_noise, s.typed, s.errors, s.atl, s.generated, s.gen);
	describe(s.P);
}
}
SCENARIO(reproducible)
{
	sim::context("repeating a simulation");
	sim::clock_manual((int64_t) sim::draw(1u << 30) * 1000000);
	sim::heap_config(sim::heap_random());
	Spec s = draw_spec(false);
	log(s, "simulation");
	const int between = (int) sim::draw(5);
	Spec o = draw_spec(true);
	if(sim::chance(1, 2))
		o = s;                                 // the same machine with other materials and another seed
	o.seed = (uint32_t) sim::draw(1u << 30);
	for(auto& x : o.material)
		x = (int) sim::draw(5);
	o.model = (int) sim::draw(2);
	if(between)
		log(o, "other work");
	Transcript a, b, junk;
	if(sim::chance(1, 2))
	{
		// the first one is not necessarily the first in the program
		simulate(o, junk);
		junk.e.clear();
	}
	simulate(s, a);
	sim::clock_advance((int64_t) sim::draw(1u << 30) * 1000);
	sim::heap_config(sim::heap_random());
	if(between > 1)
		simulate(o, junk);
	if(between > 2)
		for(int i = 0; i < 100; i++)
		{
			RandomNG::normal(0, 1);
			RandomNG::landau();
			RandomNG::poisson(3);
			RandomNG::normal(0, 1, 2);
			RandomNG::getLocalGenerator(hash_string("ATL2D"))();
		}
	if(between > 3)
	{
		sim::heap_config(sim::heap_random());
		simulate(o, junk);
	}
	simulate(s, b);
	compare(a, b, "the same simulation again");
	sim::probe(sim::fmt("between.%d", between).c_str());
	sim::steps(s.P.L.length() * s.turns * 2);
	size_t h = a.e.size();
	for(auto& x : a.e)
		h = h * 31 + sim::hash_str(x.second);
	sim::mix(h);
	if(between > 1)
		sim::nontrivial();
	sim::done();
}
// the tabulated nuclear scattering takes its time to set up, so it is repeated on its own
SCENARIO(tabulated)
{
	sim::context("repeating tabulated scattering");
	sim::heap_config(sim::heap_random());
	const double E = sim::real(100, 7000);
	const uint32_t seed = (uint32_t) sim::draw(1u << 30);
	const int n = (int) sim::range(10, 400);
	auto make_d = [&](double e)
	{
		ppDiffractiveScatter* d = new ppDiffractiveScatter;
		d->SetTMin(0.0001);
		d->SetTMax(4.0);
		d->SetTStepSize(1e-4);
		d->SetXiMin(std::pow(PhysicalConstants::ProtonMassGeV + 0.135, 2) / (2 * PhysicalConstants::ProtonMassGeV * e + e * e));
		d->SetXiMax(0.12);
		d->SetXiStepSize(1e-6);
		d->GenerateDistribution(e);
		return d;
	};
	// the tables are made once per kind and copied: a copy is a scatterer of its own
	std::unique_ptr<ppDiffractiveScatter> proto(make_d(E));
	auto run = [&](ppDiffractiveScatter& d, Transcript& t)
	{
		RandomNG::init(seed);
		t.num("cross section", d.GetDiffractiveCrossSection());
		for(int i = 0; i < n; i++)
		{
			std::pair<double, double> v = d.Select();
			t.num("t", v.first);
			t.num("mass", v.second);
		}
	};
	Transcript a, b;
	std::vector<char> state(sizeof(ppDiffractiveScatter));
	memcpy(state.data(), (void*) proto.get(), sizeof(ppDiffractiveScatter));
	run(*proto, a);
	// the same scatterer as newly made
	memcpy((void*) proto.get(), state.data(), sizeof(ppDiffractiveScatter));
	const int more = (int) sim::draw(300);
	RandomNG::init(seed + 1);
	for(int i = 0; i < more; i++)
		proto->Select();
	memcpy((void*) proto.get(), state.data(), sizeof(ppDiffractiveScatter));
	run(*proto, b);
	compare(a, b, "the same scattering again");
	sim::steps(2.0 * n);
	sim::nontrivial();
	sim::mix(sim::hash_str(a.e.back().second));
	sim::done();
}
