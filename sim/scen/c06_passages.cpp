// C06: effects that belong to one passage of an element.  The process under test runs
// once alone and once sharing the scheduler with a chopping process; the number of
// effects is counted and the bunches compared.
#include "gen.h"
#include "chop.h"
#include "MonitorProcess.h"
#include "HollowELensProcess.h"
#include "HollowElectronLens.h"
#include "WakeFieldProcess.h"
#include "CollimatorWakeProcess.h"
#include "CouplerWakeFieldProcess.h"
#include "CombinedWakeRF.h"
#include "CollimatorWakePotentials.h"
#include "WakePotentials.h"
#include "SynchRadParticleProcess.h"
#include "SpinParticleProcess.h"
#include "RingDeltaTProcess.h"
#include "RandomNG.h"
#include <algorithm>
#include <map>
using namespace gen;

namespace
{
struct TestWake: public WakePotentials
{
	double a, b;
	mutable long calls = 0;
	TestWake(double x, double y) : a(x), b(y) {}
	double Wlong(double z) const override
	{
		calls++;
		return a * std::exp(-std::fabs(z) / 1e-3);
	}
	double Wtrans(double z) const override
	{
		return b * std::sqrt(std::fabs(z) + 1e-6);
	}
	void csr_on()
	{
		csr = true;
	}
};
struct TestCollWake: public CollimatorWakePotentials
{
	double a;
	TestCollWake(int m, double x) : CollimatorWakePotentials(m, 0, 0), a(x) {}
	double Wlong(double) const override { return 0; }
	double Wtrans(double) const override { return 0; }
	double Wlong(double z, int m) const override { return a * std::exp(-z / 1e-3) * m; }
	double Wtrans(double z, int m) const override { return a * std::exp(-z / 2e-3) / m; }
};
struct TestCouplerWake: public CombinedWakeRF
{
	double a;
	bool kicks;
	TestCouplerWake(double x, bool k = true) : a(x), kicks(k) {}
	double Wlong(double z) const override { return a * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return a * std::sqrt(std::fabs(z) + 1e-6); }
	Vector2D Wxy(double x, double y) const override { return kicks ? Vector2D(a * (1 + x), -a * (1 + y)) : Vector2D(0, 0); }
	Vector2D CouplerRFKick(double x, double y, double phi) const override
	{
		return !kicks ? Vector2D(0, 0) : Vector2D(1e-6 * std::cos(phi), 1e-6 * std::sin(phi));
	}
};
struct CountBuffer: public BPM::Buffer
{
	std::vector<BPM::Data> d;
	void Record(const BPM&, const BPM::Data& x) override
	{
		d.push_back(x);
	}
};
// notes what the bunch looks like at the end of every element
struct Observer: public ParticleBunchProcess
{
	std::vector<std::string>& text;
	std::vector<std::string> names;
	double s = 0;
	bool done = false;
	Observer(int prio, std::vector<std::string>& t) : ParticleBunchProcess("OBSERVER", prio), text(t) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		currentComponent = &c;
		s = 0;
		done = false;
		active = std::find(names.begin(), names.end(), c.GetName()) != names.end();
	}
	double GetMaxAllowedStepSize() const override
	{
		return 1e30;
	}
	void DoProcess(double ds) override
	{
		s += ds;
		if(!done && std::fabs(s - currentComponent->GetLength()) < 1e-12)
		{
			done = true;
			std::ostringstream os;
			currentBunch->Output(os);
			text.push_back(os.str());
		}
	}
};
// the same words, numbers to rounding
bool same_text(const std::string& a, const std::string& b)
{
	std::istringstream x(a), y(b);
	std::string u, v;
	for(;;)
	{
		const bool more = (bool) (x >> u), also = (bool) (y >> v);
		if(more != also)
			return false;
		if(!more)
			return true;
		if(u == v)
			continue;
		char *e1, *e2;
		const double p = std::strtod(u.c_str(), &e1), q = std::strtod(v.c_str(), &e2);
		if(*e1 || *e2 || !close(p, q, 1e-9, 1e-15))
			return false;
	}
}
enum { MONITOR, HEL, WAKE, CWAKE, COUPLER, SYNCH, SPIN, DELTAT, READING, NPROC };
const char* pname[] = {"monitor process", "electron lens", "wake field", "collimator wake", "coupler wake", "synchrotron radiation", "spin",
					   "ring delta t", "beam position monitor"};
}

SCENARIO(passages)
{
	sim::context("effects once per passage");
	const int what = (int) sim::draw(NPROC);
	Lattice L;
	{
		Opts o;
		o.nmin = 1;
		o.nmax = 4;
		o.lmin = 0.1;
		o.simple_names = true;
		switch(what)
		{
		case SYNCH:
			o.kinds = {SBEND, DRIFT};
			break;
		case SPIN:
			o.kinds = {SBEND, SOL, DRIFT};
			break;
		case DELTAT:
			o.kinds = {SBEND, DRIFT};
			break;
		case READING:
			o.kinds = {BPMK, DRIFT};
			break;
		case COUPLER:
			o.kinds = {DRIFT, TWRF};
			break;
		default:
			o.kinds = {DRIFT, COLL, MARKER};
			break;
		}
		if(what == WAKE)
			o.kinds.push_back(SBEND);
		L = gen_lattice(o);
	}
	if(what == SYNCH || what == SPIN)
		L.p0 = sim::pick(std::vector<double>{3.0, 1.0, 5.0});
	for(auto& e : L.el)
		if(e.kind == SBEND)
			e.s2 = 0;
	describe(L);
	sim::ev("under test: %s", pname[what]);
	const int turns = (int) sim::range(1, 4);
	double amp = what == HEL ? 5e-3 : 1e-5;
	double sp = 0.64350110879328437, sq = 0; // of the spins
	BeamSpec spec = gen_beam(what == COUPLER ? 1 : 2, 24, amp, amp / 10, what == WAKE || what == CWAKE || what == COUPLER ? 2e-3 : 1e-6, what == HEL ? 1e-4 : 1e-6);
	const int prio = (int) sim::range(1, 3), cprio = (int) sim::range(1, 4), oprio = 9;
	const double q = 1e8;
	const uint64_t seed = sim::draw(1000) + 1;
	int nsteps = 1;
	int helmode = (int) sim::draw(4), skip = (int) sim::range(1, 4);
	double helr = sim::real(1e-4, 4e-3), wa = sim::real(1e14, 1e16), wb = sim::real(1e15, 1e17);
	for(auto& e : L.el)
		if(e.kind == SBEND && wa > 1e15)
		{
			wa /= 10;
			wb /= 10;
		}
	if(what == CWAKE)
		wa *= 1e-5;
	bool centre = sim::chance(1, 2), csr = sim::chance(1, 4), tw = sim::chance(3, 4);
	bool quantum = sim::chance(1, 3);
	bool maxstep = sim::chance(1, 4);
	double dsmax = sim::real(0.05, 1);
	size_t nbins = (size_t) sim::range(2, 60);
	double nsig = sim::real(3, 6);
	if(what == SYNCH || what == SPIN)
		nsteps = (int) sim::range(1, 15);
	if(what == SPIN && sim::chance(1, 2))
	{
		sp = sim::real(0, M_PI);
		sq = sim::real(0, 2 * M_PI);
	}
	double bscale = sim::sreal(1e-6);

	std::vector<std::vector<double> > plan;
	int np = (int) sim::range(1, 4);
	for(int i = 0; i < np; i++)
		plan.push_back(draw_cuts());
	int zeros = (int) (sim::chance(1, 3) ? sim::range(1, 2) : 0);
	std::vector<bool> chosen;
	for(size_t i = 0; i < L.el.size(); i++)
		chosen.push_back(sim::chance(3, 4));

	struct Out
	{
		std::unique_ptr<ParticleBunch> b;
		std::vector<SpinVector> spins;
		std::vector<std::string> files, fnames, seen;
		std::vector<std::vector<BPM::Data> > data;
		std::vector<int> helturn;
		double pref = 0;
		long steps = 0;
	};
	// without kicks from the couplers a coupler wake is a plain wake
	bool kicks = true, plain = false;
	// every passage of an element with a tracker and a process of its own
	bool pieces = false;
	auto run = [&](bool chop, int nst, bool with = true) -> Out
	{
		Out o;
		// build
		std::vector<AcceleratorComponent*> comp;
		std::vector<std::unique_ptr<WakePotentials> > wakes;
		std::vector<std::unique_ptr<CountBuffer> > bufs;
		std::vector<HollowElectronLens*> hels;
		AcceleratorModelConstructor ctor;
		ctor.NewModel();
		for(size_t i = 0; i < L.el.size(); i++)
		{
			El& e = L.el[i];
			AcceleratorComponent* c = nullptr;
			if(what == HEL && chosen[i] && e.kind != MARKER)
			{
				HollowElectronLens* h = new HollowElectronLens(e.name, e.len, helmode, 5, 0.195, 2.334e4, e.len);
				h->SetRadii(helr, 2 * helr);
				if(helmode == 1)
					h->SetAC(0.31, 0.002, 5e-5, 1, 2);
				if(helmode == 3)
					h->SetTurnskip(skip);
				hels.push_back(h);
				c = h;
			}
			else
				c = make(e, L.p0);
			if(chosen[i] && (what == WAKE || what == CWAKE || (what == COUPLER && e.len > 0)))
			{
				if(what == WAKE)
				{
					TestWake* w = new TestWake(wa, wb);
					if(csr)
						w->csr_on();
					wakes.emplace_back(w);
				}
				else if(what == CWAKE)
					wakes.emplace_back(new TestCollWake(3, wa));
				else
					wakes.emplace_back(new TestCouplerWake(wa, kicks));
				c->SetWakePotentials(wakes.back().get());
			}
			if(BPM* b = dynamic_cast<BPM*>(c))
			{
				bufs.emplace_back(new CountBuffer);
				b->AddBuffer(bufs.back().get());
			}
			comp.push_back(c);
			ctor.AppendComponentFrame(new TComponentFrame<AcceleratorComponent>(*c));
		}
		std::unique_ptr<AcceleratorModel> model(ctor.GetModel());
		RandomNG::init((unsigned) seed);
		if(what == SPIN)
		{
			SpinParticleBunch* b = new SpinParticleBunch(L.p0, q);
			for(auto& p : spec.p)
				b->AddParticle(p, SpinVector(sin(sp) * cos(sq), sin(sp) * sin(sq), cos(sp)));
			o.b.reset(b);
		}
		else if(what == SYNCH)
			o.b.reset(make_bunch<ElectronBunch>(spec, L.p0, q));
		else
			o.b.reset(make_bunch<ProtonBunch>(spec, L.p0, q));
		ParticleTracker whole(model->GetBeamline(), o.b.get());
		const std::string prefix = sim::path(chop ? "cut_" : "one_");
		std::vector<std::string> names;
		for(size_t i = 0; i < L.el.size(); i++)
			if(chosen[i])
				names.push_back(L.el[i].name);
		auto add = [&](ParticleTracker& t) {
		switch(with ? what : NPROC)
		{
		case MONITOR:
		{
			MonitorProcess* p = new MonitorProcess("MONITOR", prio, prefix);
			for(auto& n : names)
				p->AddElement(n);
			t.AddProcess(p);
			Observer* ob = new Observer(oprio, o.seen);
			ob->names = names;
			t.AddProcess(ob);
			break;
		}
		case HEL:
			t.AddProcess(new HollowELensProcess(prio));
			break;
		case WAKE:
		{
			WakeFieldProcess* w = new WakeFieldProcess(prio, nbins, nsig);
			w->ApplyImpulseAt(centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
			w->IncludeTransverseWake(tw);
			t.AddProcess(w);
			break;
		}
		case CWAKE:
		{
			CollimatorWakeProcess* w = new CollimatorWakeProcess(3, prio, nbins, nsig);
			w->ApplyImpulseAt(centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
			t.AddProcess(w);
			break;
		}
		case COUPLER:
		{
			WakeFieldProcess* w = plain ? new WakeFieldProcess(prio, nbins, nsig) : new CouplerWakeFieldProcess(prio, nbins, nsig);
			w->ApplyImpulseAt(centre ? WakeFieldProcess::atCentre : WakeFieldProcess::atExit);
			t.AddProcess(w);
			break;
		}
		case SYNCH:
		{
			SynchRadParticleProcess* s = new SynchRadParticleProcess(prio, quantum);
			if(maxstep && nst == nsteps)
				s->SetMaxComponentStepSize(dsmax);
			else
				s->SetNumComponentSteps(nst);
			t.AddProcess(s);
			break;
		}
		case SPIN:
		{
			SpinParticleProcess* s = new SpinParticleProcess(prio, nst);
			t.AddProcess(s);
			break;
		}
		case DELTAT:
		{
			RingDeltaTProcess* d = new RingDeltaTProcess(prio);
			d->SetBendScale(bscale);
			t.AddProcess(d);
			break;
		}
		}
		if(chop)
		{
			Chopper* c = new Chopper(cprio, o.steps);
			c->plan = plan;
			c->zeros = zeros;
			t.AddProcess(c);
		}
		};
		add(whole);
		for(int i = 0; i < turns; i++)
		{
			if(!pieces)
			{
				whole.Track(o.b.get());
				continue;
			}
			for(size_t n = 0; n < L.el.size(); n++)
			{
				ParticleTracker t(model->GetBeamline(n, n), (ParticleBunch*) nullptr, false);
				add(t);
				t.Track(o.b.get());
			}
		}
		o.pref = o.b->GetReferenceMomentum();
		if(what == SPIN)
		{
			SpinParticleBunch* b = static_cast<SpinParticleBunch*>(o.b.get());
			o.spins.assign(b->beginSpinArray(), b->endSpinArray());
		}
		if(what == MONITOR)
			for(int n = 1; n <= 400; n++)
			{
				bool any = false;
				for(auto& nm : names)
				{
					std::string f = prefix + nm + "_" + std::to_string(n);
					if(sim::has_file(f))
					{
						SIM_CHECK(!any, "passage:monitor-file", "two dumps carry the number %d", n);
						any = true;
						o.files.push_back(sim::get_file(f));
						o.fnames.push_back(nm);
					}
				}
				if(!any)
					break;
			}
		for(auto& b : bufs)
			o.data.push_back(b->d);
		for(auto h : hels)
			o.helturn.push_back(h->Turn);
		sim::steps(L.length() * turns);
		log_bunch(chop ? "cut" : "alone", *o.b);
		return o;
	};
	Out a = run(false, nsteps);
	Out c = run(true, nsteps);
	const std::string wn = pname[what];
	// counts
	if(what == MONITOR)
	{
		size_t expect = 0;
		for(size_t i = 0; i < chosen.size(); i++)
			expect += chosen[i];
		expect *= turns;
		for(Out* o : {&a, &c})
		{
			const char* how = o == &a ? "alone" : "with cut steps";
			SIM_CHECK(o->files.size() == expect, "passage:monitor-count", "%zu dumps for %zu passages of monitored elements (%s)", o->files.size(),
				expect, how);
			SIM_CHECK(o->seen.size() == expect, "passage:harness", "observer saw %zu", o->seen.size());
			size_t k = 0;
			for(int t = 0; t < turns; t++)
				for(size_t i = 0; i < chosen.size(); i++)
					if(chosen[i])
					{
						SIM_CHECK(o->fnames[k] == L.el[i].name, "passage:monitor-file", "dump %zu is named after %s, it belongs to %s (%s)", k + 1,
							o->fnames[k].c_str(), L.el[i].name.c_str(), how);
						SIM_CHECK(same_text(o->files[k], o->seen[k]), "passage:monitor-content", "dump %zu (%s, %s) is not the bunch at the end of the element",
							k + 1, o->fnames[k].c_str(), how);
						k++;
					}
		}
	}
	for(size_t i = 0; i < a.helturn.size(); i++)
	{
		SIM_CHECK(a.helturn[i] == turns, "passage:turn-count", "electron lens counts %d turns after %d", a.helturn[i], turns);
		SIM_CHECK(c.helturn[i] == turns, "passage:turn-count", "electron lens counts %d turns after %d with cut steps", c.helturn[i], turns);
	}
	for(size_t i = 0; i < a.data.size(); i++)
	{
		SIM_CHECK((int) a.data[i].size() == turns, "passage:reading-count", "%zu readings in %d passages", a.data[i].size(), turns);
		SIM_CHECK((int) c.data[i].size() == turns, "passage:reading-count", "%zu readings in %d passages with cut steps", c.data[i].size(),
			turns);
		for(int t = 0; t < turns; t++)
			SIM_CHECK(close(a.data[i][t].x.value, c.data[i][t].x.value, 1e-9, 1e-17) && close(a.data[i][t].y.value, c.data[i][t].y.value, 1e-9, 1e-17),
				"passage:reading", "passage %d of monitor %zu reads (%.17g,%.17g) whole and (%.17g,%.17g) cut", t + 1, i,
				a.data[i][t].x.value, a.data[i][t].y.value, c.data[i][t].x.value, c.data[i][t].y.value);
	}
	// strength; elements far from the reference momentum are integrated approximately, so
	// wakes are compared within a small part of what they do altogether
	double scale[6] = {0, 0, 0, 0, 0, 0};
	bool wild = false;
	if(what == WAKE || what == CWAKE || what == COUPLER)
	{
		Out none = run(false, nsteps, false);
		std::map<long, PSvector> at;
		Out cutnone = run(true, nsteps, false);   // what cutting alone does
		auto q = cutnone.b->begin();
		for(auto p = none.b->begin(); p != none.b->end(); ++p, ++q)
			for(int k = 0; k < 6; k++)
				scale[k] = std::max(scale[k], 200 * std::fabs((*p)[k] - (*q)[k]));
		for(auto p = none.b->begin(); p != none.b->end(); ++p)
			at.insert(std::make_pair((long) p->id(), *p));
		for(auto p = a.b->begin(); p != a.b->end(); ++p)
			for(int k = 0; k < 6; k++)
			{
				const double d = std::fabs((*p)[k] - at.at((long) p->id())[k]);
				scale[k] = std::max(scale[k], d);
				wild = wild || !(std::fabs((*p)[k]) < 0.05);
			}
	}
	if(!wild)
	{
		double rel = what == SYNCH ? 1e-4 : 2e-6, abs = what == SYNCH ? 1e-10 : 3e-12;
		for(auto& e : L.el)
			if(e.kind == TWRF)
				rel = 2e-3, abs = 1e-8;
		SIM_CHECK(close(a.pref - L.p0, c.pref - L.p0, what <= COUPLER ? 0.02 : rel, (rel > 1e-3 ? 1e-7 : 1e-11) * L.p0), "passage:strength",
			"%s: reference momentum %.17g alone, %.17g with cut steps", wn.c_str(), a.pref, c.pref);
		SIM_CHECK(a.b->size() == c.b->size(), "passage:strength", "%s: %zu particles alone, %zu with cut steps", wn.c_str(), a.b->size(),
			c.b->size());
		auto p = a.b->begin(), r = c.b->begin();
		for(; p != a.b->end(); ++p, ++r)
		{
			SIM_CHECK(p->id() == r->id(), "passage:strength", "%s: order of particles differs", wn.c_str());
			for(int k = 0; k < 6; k++)
				SIM_CHECK(close((*p)[k], (*r)[k], rel, abs + 0.02 * scale[k]), "passage:strength", "%s: particle alone %s, with cut steps %s", wn.c_str(),
					show(*p).c_str(), show(*r).c_str());
		}
	}
	for(size_t i = 0; i < a.spins.size(); i++)
	{
		const SpinVector &s = a.spins[i], &u = c.spins[i];
		for(const SpinVector* v : {&s, &u})
		{
			const double l = std::sqrt(v->x() * v->x() + v->y() * v->y() + v->z() * v->z());
			SIM_CHECK(std::fabs(l - 1) < 1e-6, "passage:spin-length", "a spin of length 1 became (%.9g %.9g %.9g), length %.9g", v->x(), v->y(), v->z(), l);
		}
		const double d = std::fabs(s.x() - u.x()) + std::fabs(s.y() - u.y()) + std::fabs(s.z() - u.z());
		SIM_CHECK(d < 3e-3, "passage:spin", "spin (%.9g %.9g %.9g) alone, (%.9g %.9g %.9g) with cut steps", s.x(), s.y(), s.z(), u.x(), u.y(),
			u.z());
	}
	// nothing of one passage acts in another
	if(what != MONITOR)
	{
		pieces = true;
		Out x = run(false, nsteps);
		pieces = false;
		SIM_CHECK(x.b->size() == a.b->size(), "passage:alone", "%s: %zu particles left, %zu when each element has a process of its own", wn.c_str(),
			a.b->size(), x.b->size());
		auto p = a.b->begin(), r = x.b->begin();
		for(; p != a.b->end(); ++p, ++r)
			SIM_CHECK(p->id() == r->id() && same_bits(*p, *r), "passage:alone", "%s: particle %s, when each element has a process of its own %s",
				wn.c_str(), show(*p).c_str(), show(*r).c_str());
		SIM_CHECK(a.pref == x.pref, "passage:alone", "%s: reference momentum %.17g, when each element has a process of its own %.17g", wn.c_str(), a.pref,
			x.pref);
	}
	if(what == COUPLER)
	{
		kicks = false;
		Out x = run(false, nsteps);
		plain = true;
		Out y = run(false, nsteps);
		SIM_CHECK(x.b->size() == y.b->size(), "passage:coupler-particles", "%zu particles stay in the bunch with a coupler wake without kicks, %zu with the same wake field",
			x.b->size(), y.b->size());
		auto p = x.b->begin(), r = y.b->begin();
		for(; p != x.b->end(); ++p, ++r)
			for(int k = 0; k < 6; k++)
				SIM_CHECK(p->id() == r->id() && close((*p)[k], (*r)[k], 1e-9, 1e-13), "passage:coupler-plain",
					"coupler wake without kicks: particle %s, the same wake field: %s", show(*p).c_str(), show(*r).c_str());
	}
	// radiation in n steps is, to first order, the radiation in one
	if(what == SYNCH && !quantum)
	{
		Out one = run(false, 1);
		SIM_CHECK(close(one.pref - L.p0, a.pref - L.p0, 1e-2, 1e-14 * L.p0), "passage:radiation",
			"energy loss %.9g in %d steps per element, %.9g in one", L.p0 - a.pref, maxstep ? -1 : nsteps, L.p0 - one.pref);
	}
	if(c.steps > turns * (long) L.el.size())
		sim::nontrivial();
}
