// C05: an element tracked whole and the same element cut into steps.  Two trackers over
// one machine: one alone, one sharing the scheduler with a chopping process that asks for
// drawn step boundaries (zero-length steps, one-ulp cuts, uneven and uniform cuts).
#include "gen.h"
#include "chop.h"
#include "MonitorProcess.h"
#include <algorithm>
using namespace gen;

// how accurately the transport of an element composes (given as the tolerance on the
// difference between whole and cut, for particles of amplitude a)
static double tolerance(const El& e, int set, double a, double p0, bool extra)
{
	const double round = 1e-13 * a + 3e-15;
	switch(e.kind)
	{
	case DRIFT:
	case MARKER:
	case BPMK:
	case COLL:
	case XCORK:
	case YCORK:
		if(set != 2)
			return round * 10 + 1e-16;
		return round * 10;
	case SOL:
		return 1e-11 * a + 3e-15;
	case TRANSRF:
		return 1e-10 * a + 1e-14;
	case TWRF:
	{
		const double r = e.s1 * 1e-3 * e.len / p0;
		const double edge = e.s1 * 1e-3 / p0;
		return 8 * (r * r + edge * r + edge * edge) * a * std::max(1.0, e.len) + round * 100;
	}
	case SKEWQ:
	case QUAD:
	case SEXT:
	case OCT:
		if(set == 2 && (extra || e.kind == SKEWQ))
		{
			// these components act as one central kick per step
			const double r = (std::fabs(e.s1) * (e.kind == QUAD || e.kind == SKEWQ) + (extra ? 1 : 0)) * e.len * e.len;
			return (1e-3 + 6 * r * r) * a + 1e-14;
		}
	// fallthrough
	case SBEND:
		if(extra && e.kind == SBEND)
			return (3e-4 + 0.02) * a + 1e-14;
	// fallthrough
	default:
		return (3e-4 + (extra ? 1e-2 : 0)) * a + 1e-14; // a is tiny here: only the linear part is judged
	}
}

SCENARIO(subdivide)
{
	sim::context("element in steps");
	Lattice L;
	static const double ps[] = {1.0, 7000, 10, 0.5, 45.6, 450, 3};
	L.p0 = ps[sim::draw(7)];
	const int set = (int) sim::draw(3);      // 0 TRANSPORT 1 THIN_LENS 2 SYMPLECTIC
	std::vector<int> kinds = {DRIFT, MARKER, QUAD, SBEND, SEXT, SOL, BPMK, COLL, XCORK, YCORK, SKEWQ, OCT, TWRF, TRANSRF};
	Opts o;
	o.kinds = kinds;
	o.nmin = o.nmax = 1;
	o.lmin = 0.05;
	do
	{
		o.nmin = 1;
		Lattice t = gen_lattice(o);
		t.p0 = L.p0;
		L = t;
	}
	while(false);
	El& e = L.el[0];
	if(set == 2 && e.kind == TRANSRF)
	{
		e.kind = DRIFT;
	}
	double a = 0;
	bool exact_kind = e.kind == DRIFT || e.kind == BPMK || e.kind == COLL || e.kind == XCORK || e.kind == YCORK || e.kind == SOL ||
		e.kind == TRANSRF || e.kind == TWRF || e.kind == MARKER;
	if(exact_kind)
		a = sim::chance(1, 2) ? 1e-3 : 1e-6;
	else
		a = 1e-8;
	describe(L);
	Built m = build(L);
	AcceleratorComponent* c = m.comp[0];
	const double brho = L.p0 / PhysicalConstants::SpeedOfLight / PhysicalUnits::eV;
	bool extra = false;
	double tilt = 0;
	if(SectorBend* b = dynamic_cast<SectorBend*>(c))
		if(sim::chance(1, 3))
		{
			tilt = sim::sreal(0.5);
			b->GetGeometry().SetTilt(tilt);
		}
	if(SectorBend* b = dynamic_cast<SectorBend*>(c))
		if(e.len > 0 && sim::chance(1, 3))
		{
			// a skew quadrupole or sextupole error in the bend, acting as a central kick per step
			extra = true;
			const double k = 0.1 / (e.len * e.len);
			const int n = set == 2 ? 1 : (int) sim::range(1, 2);
			const double sk = sim::sreal(1);
			b->GetField().SetComponent(n, n == 1 ? b->GetField().GetComponent(1).real() : brho * k * sim::sreal(1), brho * k * (sk < 0 ? sk - 0.1 : sk + 0.1));
			sim::ev("bend error %d", n);
		}
	if(RectMultipole* r = dynamic_cast<RectMultipole*>(c))
		if(e.len > 0 && e.kind != XCORK && e.kind != YCORK && sim::chance(1, 3))
		{
			extra = true;
			int n = (int) sim::range(1, 3);
			r->GetField().SetComponent(n, brho * sim::sreal(0.5), brho * sim::sreal(0.5));
			sim::ev("extra multipole %d", n);
		}
	std::vector<std::complex<double> > f0;
	auto coeffs = [&](AcceleratorComponent* q)
	{
		std::vector<std::complex<double> > v;
		MultipoleField* f = nullptr;
		if(RectMultipole* r = dynamic_cast<RectMultipole*>(q))
			f = &r->GetField();
		if(SectorBend* r = dynamic_cast<SectorBend*>(q))
			f = &r->GetField();
		if(f)
			for(int i = 0; i <= f->HighestMultipole(); i++)
				v.push_back(f->GetCoefficient(i));
		while(!v.empty() && v.back() == std::complex<double>(0))
			v.pop_back();
		return v;
	};
	f0 = coeffs(c);
	bool fullacc = set != 2;
	if(e.kind == TWRF && set != 2 && sim::chance(1, 3))
	{
		fullacc = false;
		dynamic_cast<TWRFStructure*>(c)->GetField().SetFullAcceleration(false);
	}
	BeamSpec spec = gen_beam(1, 4, a, a / 10, a, a);
	if(e.kind == TWRF || e.kind == TRANSRF)
		for(auto& p : spec.p)
			p.ct() = sim::sreal(0.02);
	const int npass = (int) sim::range(1, 3);
	const bool electron = e.kind != SBEND && e.kind != OCT && sim::chance(1, 4);

	// the cuts
	long nsteps = 0;
	Chopper* ch = new Chopper(sim::chance(1, 3) ? -1 : 1, nsteps);
	for(int v = 0; v < npass; v++)
	{
		ch->plan.push_back(draw_cuts());
	}
	ch->zeros = (int) (sim::chance(1, 3) ? sim::range(1, 3) : 0);
	const bool interrupt = sim::chance(1, 6);

	std::vector<std::vector<double> > taken;
	auto track = [&](Chopper* chop) -> std::unique_ptr<ParticleBunch>
	{
		std::unique_ptr<ParticleBunch> b;
		if(electron)
			b.reset(make_bunch<ElectronBunch>(spec, L.p0, 1e-9));
		else
			b.reset(make_bunch<ProtonBunch>(spec, L.p0, 1e-9));
		ParticleTracker t(m.model->GetBeamline(), b.get());
		if(set == 1)
		{
			THIN_LENS::StdISet s;
			t.SetIntegratorSet(&s);
		}
		else if(set == 2)
		{
			SYMPLECTIC::StdISet s;
			t.SetIntegratorSet(&s);
		}
		if(chop)
			t.AddProcess(chop);
		if(chop && interrupt)
		{
			// an interrupted first attempt leaves no trace in the integrators
			ProtonBunch* junk = make_bunch<ProtonBunch>(spec, L.p0, 1e-9);
			chop->throw_at = (long) sim::draw(8);
			try
			{
				t.Track(junk);
			}
			catch(MerlinException&)
			{
				sim::probe("interrupted.mid-element");
			}
			chop->throw_at = -1;
			chop->visit = 0;
			delete junk;
		}
		if(chop)
			chop->recorded = &taken;
		for(int i = 0; i < npass; i++)
		{
			// the reference momentum of a cavity differs from pass to pass
			ParticleBunch* r = t.Track(b.get());
			SIM_CHECK(r == b.get(), "subdivide:harness", "tracker changed the bunch");
		}
		return b;
	};
	std::unique_ptr<ParticleBunch> whole = track(nullptr);
	SIM_CHECK(coeffs(c) == f0, "subdivide:element-altered", "tracking %s whole changed its field", kname(e.kind));
	std::unique_ptr<ParticleBunch> cut = track(ch);
	SIM_CHECK(coeffs(c) == f0, "subdivide:element-altered", "tracking %s in steps changed its field", kname(e.kind));
	sim::steps(e.len * npass);
	log_bunch("whole", *whole);
	log_bunch("cut", *cut);

	// the same steps given to the component tracker directly
	{
		std::unique_ptr<ParticleBunch> b;
		if(electron)
			b.reset(make_bunch<ElectronBunch>(spec, L.p0, 1e-9));
		else
			b.reset(make_bunch<ProtonBunch>(spec, L.p0, 1e-9));
		TRANSPORT::StdISet s0;
		THIN_LENS::StdISet s1;
		SYMPLECTIC::StdISet s2;
		typedef ParticleComponentTracker::ISetBase IS;
		const IS* is[] = {&s0, &s1, &s2};
		ParticleComponentTracker pct(*is[set]);
		pct.SetBunch(*b);
		for(int i = 0; i < npass; i++)
		{
			c->PrepareTracker(pct);
			double s = 0;
			const double tiny = 1e-12 * std::max(1.0, e.len);
			SIM_CHECK(close(pct.GetRemainingLength(), e.len, 0, tiny) && pct.GetIntegratedLength() == 0, "subdivide:tracker-length",
				"tracker starts with remaining %.17g, integrated %.17g in an element of %.17g", pct.GetRemainingLength(),
				pct.GetIntegratedLength(), e.len);
			for(double ds : taken[i])
			{
				const double rem = pct.TrackStep(ds);
				s += ds;
				SIM_CHECK(close(rem, e.len - s, 0, 4 * tiny) && close(pct.GetRemainingLength(), e.len - s, 0, 4 * tiny) &&
					close(pct.GetIntegratedLength(), s, 0, tiny), "subdivide:tracker-length",
					"after %.17g of %.17g the tracker returned %.17g, says remaining %.17g, integrated %.17g", s, e.len, rem,
					pct.GetRemainingLength(), pct.GetIntegratedLength());
			}
			pct.Reset();
		}
		if((int) b->size() == (int) cut->size())
		{
			auto p = b->begin();
			auto q = cut->begin();
			for(; p != b->end(); ++p, ++q)
				SIM_CHECK(close6(*p, *q, 1e-9, 1e-15), "subdivide:direct", "%s: stepping the component tracker gives %s, the tracking process %s",
					kname(e.kind), show(*p).c_str(), show(*q).c_str());
			sim::probe("direct.compared");
		}
	}
	static const char* setn[] = {"TRANSPORT", "THIN_LENS", "SYMPLECTIC"};
	const double pr0 = whole->GetReferenceMomentum(), pr1 = cut->GetReferenceMomentum();
	SIM_CHECK(close(pr0, pr1, 1e-13, 0), "subdivide:reference-momentum", "%s (%s) whole gives reference momentum %.17g, cut %.17g", kname(
			e.kind), setn[set], pr0, pr1);
	SIM_CHECK(close(whole->GetReferenceTime(), cut->GetReferenceTime(), 1e-13, 1e-15), "subdivide:reference-time",
		"%s (%s) whole gives reference time %.17g, cut %.17g", kname(e.kind), setn[set], whole->GetReferenceTime(),
		cut->GetReferenceTime());
	SIM_CHECK(close(cut->GetReferenceTime(), npass * e.len, 1e-12, 1e-15), "subdivide:length", "the bunch travelled %.17g in %d passages of %.17g",
		cut->GetReferenceTime(), npass, e.len);
	if(e.kind == TWRF)
	{
		const double gain = !fullacc ? 0 : npass * e.s1 * 1e-3 * e.len * std::cos(e.s2);
		SIM_CHECK(close(pr1 - L.p0, gain, 1e-9, 1e-12 * L.p0), "subdivide:reference-momentum",
			"cavity (%s) gives the reference momentum %.17g instead of %.17g", setn[set], pr1 - L.p0, gain);
	}
	SIM_CHECK(whole->size() == cut->size() && cut->size() == spec.p.size(), "subdivide:particles", "particles disappeared");
	const double tol = npass * tolerance(e, set, a, L.p0, extra);
	auto w = whole->begin(), q = cut->begin();
	double worst = 0;
	for(; w != whole->end(); ++w, ++q)
	{
		double scale = 1;
		for(int i = 0; i < 6; i++)
			scale = std::max(scale, std::fabs((*w)[i]) / a);
		for(int i = 0; i < 6; i++)
		{
			double d = std::fabs((*w)[i] - (*q)[i]);
			if(set == 2 && i != 4 && (e.kind == XCORK || e.kind == YCORK))
				d = std::max(0.0, d - npass * npass * e.len * std::pow(npass * std::fabs(e.s1) * e.len + scale * a, 3));
			// the path lengthening inside a steerer is only approximated by a central kick
			if(i == 4 && (e.kind == XCORK || e.kind == YCORK))
				d = std::max(0.0, d - 4 * npass * npass * std::fabs(e.s1) * e.len * (std::fabs(e.s1) * e.len + scale * a));
			if(getenv("VSIM_MEASURE"))
				worst = std::max(worst, d / (tol * scale));
			else
				SIM_CHECK(d <= tol * scale, "subdivide:coordinates",
					"%s (%s) %d passages: coordinate %d whole %.17g, cut %.17g (difference %.3g, tolerance %.3g)", kname(e.kind), setn[set],
					npass, i, (*w)[i], (*q)[i], d, tol * scale);
		}
		SIM_CHECK((*w).id() == (*q).id(), "subdivide:particles", "order of particles differs");
	}
	if(getenv("VSIM_MEASURE") && worst > 0.1)
		sim::fail(sim::fmt("m:%s:%s:%s", kname(e.kind), setn[set], extra ? "x" : "").c_str(), "worst %.3g tol %.3g a=%g", worst, tol, a);
	if(nsteps > npass)
		sim::nontrivial();
}
