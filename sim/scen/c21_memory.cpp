// C21: one allocation fails at a drawn point of a simulation.  The failure is reported as
// an exception, or nothing happens: never a crash, a hang or a wrong result; what was there
// before can still be used and taken apart, and the next simulation gives the normal result.
#include "frames.h"
#include "chop.h"
#include "RandomNG.h"
#include "Channels.h"
#include "CollimateProtonProcess.h"
#include "CollimatorWakeProcess.h"
#include "CollimatorWakePotentials.h"
#include "CouplerWakeFieldProcess.h"
#include "CombinedWakeRF.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "SynchRadParticleProcess.h"
#include "SpinParticleProcess.h"
#include "HollowELensProcess.h"
#include "HollowElectronLens.h"
#include "RingDeltaTProcess.h"
#include "MonitorProcess.h"
#include "ScatteringModelsMerlin.h"
#include "MaterialData.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "DataTable.h"
#include "DataTableTFS.h"
#include "MADInterface.h"
#include "ParticleDistributionGenerator.h"
#include "BeamData.h"
#include "BPM.h"
#include "BPMDataBufferServer.h"
#include "LatticeFunctions.h"
#include <algorithm>
#include <memory>
#include <new>
#include <sstream>
using namespace gen;
using namespace Collimation;

namespace
{
struct Wake: public WakePotentials
{
	double Wlong(double z) const override { return 1e14 * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return 1e15 * std::sqrt(std::fabs(z) + 1e-6); }
};
struct CollWake: public CollimatorWakePotentials
{
	CollWake() : CollimatorWakePotentials(3, 0, 0) {}
	double Wlong(double) const override { return 0; }
	double Wtrans(double) const override { return 0; }
	double Wlong(double z, int m) const override { return 1e9 * std::exp(-z / 1e-3) * m; }
	double Wtrans(double z, int m) const override { return 1e9 * std::exp(-z / 2e-3) / m; }
};
struct Spec
{
	Plan P;
	BeamSpec beam;
	int species = 0;                // 0 plain, 1 proton, 2 electron, 3 spin
	bool wake = false, cwake = false, rad = false, spin = false, coll = false, scatter = false, maps = false, detail = false, index = false, dt = false, mon = false, lens = false;
	bool chop = false, stepwise = false, run = false, bpm = false, random_bunch = false, ready_made = false;
	int turns = 1, set = 0;
	std::vector<std::vector<double> > cuts;
	std::vector<std::string> at;
	uint64_t seed = 1;
};
// everything the simulation hands out, as text and bits
struct Result
{
	std::vector<std::string> what;
	std::vector<uint64_t> value;
	void add(const std::string& w, uint64_t v)
	{
		what.push_back(w);
		value.push_back(v);
	}
	void add(const std::string& w, const std::string& s) { add(w, sim::hash_str(s)); }
	void add(const std::string& w, double d)
	{
		uint64_t u;
		std::memcpy(&u, &d, sizeof u);
		add(w, u);
	}
};
struct Stages
{
	std::vector<std::string> name;
	std::vector<uint64_t> begin;    // allocations so far
};
// a stream that could not grow says so in its state: that is a report
struct Broken: public std::exception {};
struct Text: public std::ostringstream
{
	std::string get()
	{
		if(!good())
			throw Broken();
		return str();
	}
};
void bunch_bits(Result& r, const std::string& w, ParticleBunch& b)
{
	uint64_t h = b.size();
	for(auto& p : b)
	{
		double c[6] = {p.x(), p.xp(), p.y(), p.yp(), p.ct(), p.dp()};
		h = sim::hash_bytes(c, sizeof c, h);
	}
	r.add(w, h);
	r.add(w + " momentum", b.GetReferenceMomentum());
	r.add(w + " charge", b.GetTotalCharge());
}
ParticleBunch* particles(const Spec& s)
{
	switch(s.species)
	{
	case 1:
		return make_bunch<ProtonBunch>(s.beam, s.P.L.p0, 1e8);
	case 2:
		return make_bunch<ElectronBunch>(s.beam, s.P.L.p0, 1e8);
	case 3:
	{
		std::unique_ptr<SpinParticleBunch> b(new SpinParticleBunch(s.P.L.p0, 1e8));
		for(auto& p : s.beam.p)
			b->AddParticle(p, SpinVector(0.6, 0, 0.8));
		return b.release();
	}
	default:
		return make_bunch<ParticleBunch>(s.beam, s.P.L.p0, 1e8);
	}
}
// what a caller does with objects that were in use when the failure was reported
struct Guard
{
	ParticleBunch* b = nullptr;
	AcceleratorModel* m = nullptr;
	bool whole = false;
	~Guard()
	{
		if(whole)
			return;
		const uint64_t fired = sim::heap_fail_clear();
		(void) fired;
		volatile double sum = 0;
		if(b)
		{
			for(auto& p : *b)
				sum = sum + p.x() + p.ct();
			sum = sum + b->GetTotalCharge();
			b->SortByCT();
			ParticleBunch copy(*b);
			sum = sum + copy.size();
		}
		if(m)
		{
			AcceleratorModel::Beamline l = m->GetBeamline();
			for(auto i = l.begin(); i != l.end(); i++)
				if((*i)->IsComponent())
					sum = sum + (double) (*i)->GetComponent().GetName().size() + (*i)->GetComponent().GetLength();
		}
	}
};
void simulate(const Spec& s, Result& R, Stages* st, const Result* normal)
{
	auto stage = [&](const char* n)
		{
			if(st)
			{
				st->name.push_back(n);
				st->begin.push_back(sim::heap_count());
			}
		};
	stage("machine");
	RandomNG::init((uint32_t) s.seed);
	std::unique_ptr<StandardMaterialData> mats;
	if(s.coll)
	{
		mats.reset(new StandardMaterialData());
		mats->UseSixTrackValues();
	}
	Wake W;
	CollWake CW;
	std::unique_ptr<AcceleratorModelConstructor> ctor(new AcceleratorModelConstructor);
	ctor->NewModel();
	Machine M = build(s.P, *ctor);
	ctor.reset();
	for(size_t i = 0; i < M.comp.size(); i++)
	{
		if(Collimator* c = dynamic_cast<Collimator*>(M.comp[i]))
			if(mats)
				c->SetMaterialProperties(mats->property["Cu"]);
		if(s.wake && s.P.L.el[i].len > 0 && i % 2)
			M.comp[i]->SetWakePotentials(&W);
		else if(s.cwake && s.P.L.el[i].len > 0)
			M.comp[i]->SetWakePotentials(&CW);
	}
	std::unique_ptr<ParticleBunch> b;
	Guard g;
	g.m = M.model.get();
	stage("queries");
	{
		std::vector<Drift*> d;
		M.model->ExtractTypedElements(d);
		R.add("drifts", (uint64_t) d.size());
		std::vector<ComponentFrame*> f;
		R.add("frames", (uint64_t) M.model->ExtractComponents("*", f));
		Text t;
		M.model->ReportModelStatistics(t);
		R.add("report", t.get());
		std::vector<RWChannel*> ch;
		M.model->GetRWChannels("*.X", ch);
		R.add("channels", (uint64_t) ch.size());
		for(auto c : ch)
			delete c;
		std::vector<ROChannel*> ro;
		M.model->GetROChannels("*.ANG", ro);
		for(auto c : ro)
			delete c;
	}
	if(s.ready_made)
	{
		stage("frames");
		AcceleratorModelConstructor c;
		c.NewModel();
		std::unique_ptr<SequenceFrame> f(new SequenceFrame("READY"));
		for(auto& e : s.P.L.el)
			f->AppendFrame(*new ComponentFrame(*make(e, s.P.L.p0)));
		SequenceFrame* h = f.release();
		c.AppendFrame(h);
		c.AppendDrift(1.0);
		std::unique_ptr<AcceleratorModel> m(c.GetModel());
		uint64_t n = 0;
		double len = 0;
		AcceleratorModel::Beamline l = m->GetBeamline();
		for(auto i = l.begin(); i != l.end(); i++, n++)
			len += (*i)->GetComponent().GetLength();
		R.add("components of a ready-made frame", n);
		R.add("length of a ready-made frame", len);
		Text t;
		m->ReportModelStatistics(t);
		R.add("report of a ready-made frame", t.get());
		std::vector<RWChannel*> ch;
		m->GetRWChannels("*.*", ch);
		for(size_t i = 0; i < ch.size(); i++)
		{
			R.add("channel " + ch[i]->GetID(), ch[i]->Read());
			ch[i]->Write(ch[i]->Read());
			delete ch[i];
		}
	}
	stage("bunch");
	if(s.random_bunch)
	{
		BeamData bd;
		bd.p0 = s.P.L.p0;
		bd.emit_x = bd.emit_y = 1e-9;
		bd.beta_x = bd.beta_y = 10;
		bd.sig_z = 1e-3;
		bd.sig_dp = 1e-4;
		b.reset(new ParticleBunch(s.beam.p.size() + 1, NormalParticleDistributionGenerator(), bd));
	}
	else
		b.reset(particles(s));
	stage("bunch file");
	if(s.species != 3)
	{
		Text t;
		b->Output(t);
		R.add("bunch file", t.get());
		std::istringstream in(t.str());
		ParticleBunch c(1.0, 1.0);
		c.Input(1e8, in);
		R.add("particles in file", (uint64_t) c.size());
		bunch_bits(R, "read bunch", c);
		c.SortByCT();
		bunch_bits(R, "sorted bunch", c);
		PSmoments mom;
		c.GetMoments(mom);
		R.add("moment", mom.var(0));
	}
	g.b = b.get();
	stage("processes");
	long nsteps = 0;
	// (loss maps have no destructor to call)
	LossMapCollimationOutput* map = s.maps ? new LossMapCollimationOutput(tencm) : nullptr;
	std::unique_ptr<DetailedCollimationOutput> det(s.detail ? new DetailedCollimationOutput : nullptr);
	if(det)
		det->AddIdentifier("*");
	std::unique_ptr<ScatteringModel> model(s.scatter ? new ScatteringModelSixTrackIoniz : nullptr);
	std::vector<BPM*> bpms;
	std::unique_ptr<BPMDataBufferServer> server;
	if(s.bpm)
	{
		M.model->ExtractTypedElements(bpms);
		server.reset(new BPMDataBufferServer);
	}
	{
		ParticleTracker t(M.model->GetBeamline(), (ParticleBunch*) nullptr, false);
		Chopper* chopper = nullptr;
		static THIN_LENS::StdISet thin;
		static SYMPLECTIC::StdISet sym;
		if(s.set == 1)
			t.SetIntegratorSet(&thin);
		if(s.set == 2)
			t.SetIntegratorSet(&sym);
		if(s.coll)
		{
			CollimateParticleProcess* c = nullptr;
			if(s.scatter)
			{
				std::unique_ptr<CollimateProtonProcess> p(new CollimateProtonProcess(5, COLL_AT_EXIT));
				p->SetScatteringModel(model.get());
				c = p.release();
			}
			else
				c = new CollimateParticleProcess(5, COLL_AT_ENTRANCE | COLL_AT_EXIT);
			t.AddProcess(c);
			c->ScatterAtCollimator(s.scatter);
			c->SetLossThreshold(1000);
			c->IndexParticles(s.index);
			if(map)
				c->SetCollimationOutput(map);
			if(det)
				c->SetCollimationOutput(det.get());
		}
		if(s.wake)
			t.AddProcess(new WakeFieldProcess(2, 10, 3));
		if(s.cwake)
			t.AddProcess(new CollimatorWakeProcess(3, 3, 10, 3));
		if(s.rad)
			t.AddProcess(new SynchRadParticleProcess(4, true));
		if(s.spin)
			t.AddProcess(new SpinParticleProcess(4, 2));
		if(s.dt)
			t.AddProcess(new RingDeltaTProcess(6));
		if(s.chop)
		{
			chopper = new Chopper(1, nsteps);
			t.AddProcess(chopper);
			chopper->plan = s.cuts;
		}
		if(s.mon)
		{
			MonitorProcess* p = new MonitorProcess("MONITOR", 7, sim::path("m_"));
			t.AddProcess(p);
			for(auto& e : s.at)
				p->AddElement(e);
		}
		stage("tracking");
		RandomNG::init((uint32_t) s.seed + 1);
		try
		{
		if(s.stepwise)
		{
			ParticleBunch* mine = new ParticleBunch(*b);
			t.InitStepper(mine);
			while(t.StepComponent())
				;
			bunch_bits(R, "stepped", t.GetTrackedBunch());
		}
		if(s.run)
		{
			t.SetInitialBunch(static_cast<ParticleBunch*>(b.get()));
			t.Run();
			for(int i = 1; i < s.turns; i++)
				t.Continue();
			bunch_bits(R, "tracked", t.GetTrackedBunch());
			R.add("time", t.GetTrackedBunch().GetReferenceTime());
			t.InitStepper(true);
			t.StepComponent();
			bunch_bits(R, "one more step", t.GetTrackedBunch());
		}
		else
		{
			RandomNG::init((uint32_t) s.seed + 2);
			for(int i = 0; i < s.turns; i++)
				t.Track(b.get());
			bunch_bits(R, "tracked", *b);
			R.add("time", b->GetReferenceTime());
		}
		}
		catch(std::bad_alloc&)
		{
			// there is memory again: the tracker and its processes can be used again
			sim::heap_fail_clear();
			if(chopper)
				chopper->visit = 0;
			if(!s.random_bunch && !s.run)
			{
				std::unique_ptr<ParticleBunch> c(particles(s));
				RandomNG::init((uint32_t) s.seed + 2);
				for(int i = 0; i < s.turns; i++)
					t.Track(c.get());
				Result r;
				bunch_bits(r, "tracked", *c);
				for(size_t i = 0; i < normal->what.size(); i++)
					for(size_t k = 0; k < r.what.size(); k++)
						SIM_CHECK(r.what[k] != normal->what[i] || r.value[k] == normal->value[i], "memory:tracker",
							"after an allocation failed in tracking, '%s' of a bunch tracked with the same tracker differs", r.what[k].c_str());
			}
			throw;
		}
	}
	stage("loss records");
	if(map)
	{
		map->Finalise();
		Text t;
		map->Output(&t);
		R.add("loss map", t.get());
	}
	if(det)
	{
		det->Finalise();
		Text t;
		det->Output(&t);
		R.add("losses", t.get());
	}
	stage("copies");
	{
		ParticleBunch c(*b);
		c = *b;
		bunch_bits(R, "copy", c);
		AcceleratorModel::RingIterator ring = M.model->GetRing();
		R.add("ring", (uint64_t) std::distance(M.model->GetBeamline().begin(), M.model->GetBeamline().end()));
		(void) ring;
	}
	stage("end");
	g.whole = true;
}
const char* kind_of(std::exception& e) { return typeid(e).name(); }
// runs f normally, then with one failing allocation, then normally again
void search(const std::function<void(Result&, Stages*, const Result*)>& f)
{
	Result normal;
	Stages st;
	const uint64_t before = sim::heap_count();
	f(normal, &st, nullptr);
	const uint64_t total = sim::heap_count() - before;
	if(!total)
		return;
	// a part of the simulation, and an allocation in it
	const int attempts = (int) sim::range(1, sim::tier_thorough() ? 12 : 4);
	for(int a = 0; a < attempts; a++)
	{
		uint64_t from = 0, n = total;
		if(!st.begin.empty() && sim::chance(4, 5))
		{
			const size_t k = (size_t) sim::draw(st.begin.size());
			from = st.begin[k] - before;
			n = (k + 1 < st.begin.size() ? st.begin[k + 1] - before : total) - from;
			if(!n)
				continue;
		}
		const uint64_t at = from + 1 + sim::draw(n);
		std::string where = "?";
		for(size_t k = 0; k < st.begin.size(); k++)
			if(st.begin[k] - before < at)
				where = st.name[k];
		sim::ev("allocation %llu of %llu (%s) fails", (unsigned long long) at, (unsigned long long) total, where.c_str());
		sim::context(sim::fmt("no memory (%s)", where.c_str()).c_str());
		Result r;
		std::string how;
		bool through = false;
		r.what.reserve(200);
		r.value.reserve(200);
		sim::heap_fail_at(at);
		try
		{
			f(r, nullptr, &normal);
			through = true;
		}
		catch(std::bad_alloc&)
		{
			how = "bad_alloc";
		}
		catch(Broken&)
		{
			how = "stream state";
		}
		catch(std::exception& e)
		{
			how = kind_of(e);
		}
		const uint64_t fired = sim::heap_fail_clear();
		sim::ev("%s", through ? "went through" : how.c_str());
		if(fired || !through)
			sim::fault("allocation.failure");
		sim::mix(sim::hash_str(where) + (at - from));
		if(through)
			for(size_t i = 0; i < normal.what.size(); i++)
				SIM_CHECK(i < r.what.size() && r.value[i] == normal.value[i], "memory:silent", "allocation %llu (%s) fails, nothing is reported, and '%s' differs",
					(unsigned long long) at, where.c_str(), normal.what[i].c_str());
		sim::context(sim::fmt("after the failure (%s)", where.c_str()).c_str());
		Result again;
		f(again, nullptr, nullptr);
		for(size_t i = 0; i < normal.what.size(); i++)
			SIM_CHECK(i < again.what.size() && again.value[i] == normal.value[i], "memory:after", "after allocation %llu (%s) failed, '%s' of the next simulation differs",
				(unsigned long long) at, where.c_str(), normal.what[i].c_str());
		sim::nontrivial();
	}
}
}

SCENARIO(memory)
{
	sim::context("enough memory");
	Spec s;
	Opts o;
	o.nmin = 1;
	o.nmax = sim::tier_thorough() ? 8 : 5;
	o.lmin = 0.05;
	s.species = (int) sim::draw(4);
	s.coll = sim::chance(1, 2);
	o.apert = s.coll ? 60 : 20;
	o.apsize = 3e-3;
	o.more_ap = sim::chance(1, 2);
	o.kinds = {DRIFT, MARKER, QUAD, SBEND, BPMK, COLL, XCORK, SEXT, SOL};
	Lattice L = gen_lattice(o);
	if(s.species >= 2)
		L.p0 = sim::pick(std::vector<double>{3.0, 1.0, 5.0});
	s.P = sim::chance(1, 2) ? gen_plan(L, 6, true) : plan_flat(L);
	gen_moves(s.P, 3, 1e-4);
	describe(s.P);
	s.beam = gen_beam(1, 12, s.coll ? 3e-3 : 1e-4, 1e-4, 1e-3, 1e-4);
	s.wake = sim::chance(1, 4);
	s.cwake = !s.wake && sim::chance(1, 4);
	s.rad = s.species == 2 && sim::chance(1, 2);
	s.spin = s.species == 3;
	s.scatter = s.coll && s.species == 1 && sim::chance(2, 3);
	s.maps = s.coll && sim::chance(1, 2);
	s.detail = s.coll && sim::chance(1, 3);
	s.index = s.coll && sim::chance(1, 3);
	s.dt = false;
	s.mon = sim::chance(1, 4);
	s.chop = sim::chance(1, 3);
	s.stepwise = sim::chance(1, 3) && s.species != 3;
	s.run = s.species == 0 && sim::chance(1, 2);
	s.bpm = sim::chance(1, 4);
	s.random_bunch = s.species == 0 && sim::chance(1, 3);
	s.turns = (int) sim::range(1, 2);
	s.set = (int) sim::draw(3);
	if(s.chop)
		for(size_t i = 0; i < L.el.size(); i++)
			s.cuts.push_back(draw_cuts());
	for(auto& e : L.el)
		if(sim::chance(1, 3))
			s.at.push_back(e.name);
	s.ready_made = sim::chance(1, 3);
	s.seed = 1 + sim::draw(1000);
	search([&](Result& r, Stages* st, const Result* n) { simulate(s, r, st, n); });
	sim::steps(L.length() * s.turns * 3);
}
