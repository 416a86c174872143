// C29: sliced macroparticles go through a machine as the particles they stand for do: their
// centroids as single particles, their second moments as displacements of their centroids, with
// steps cut anywhere, exceptions on the way, and wake fields computed beside the process.
#include "frames.h"
#include "chop.h"
#include "ParticleBunchProcess.h"
#include "SMPBunch.h"
#include "SMPBunchConstructor.h"
#include "SMPTracker.h"
#include "SMPWakeFieldProcess.h"
#include "WakePotentials.h"
#include "SymplecticIntegrators.h"
#include <algorithm>
#include <memory>
using namespace gen;
using SMPTracking::SMPBunch;
using SMPTracking::SMPTracker;
using SMPTracking::SliceMacroParticle;

namespace
{
SliceMacroParticle draw_slice(double A, double act, double adp, double q)
{
	PSmoments S;
	double a[4][4];
	for(int j = 0; j < 4; j++)
		for(int k = 0; k < 4; k++)
			a[j][k] = sim::sreal(A);
	for(int j = 0; j < 4; j++)
	{
		S[j] = sim::sreal(A);
		for(int k = 0; k <= j; k++)
		{
			double v = 0;
			for(int m = 0; m < 4; m++)
				v += a[j][m] * a[k][m];
			S(j, k) = v;
		}
	}
	return SliceMacroParticle(S, sim::sreal(act), sim::sreal(adp), q);
}
double second(const SliceMacroParticle& p, int i, int j) { return i >= j ? p(i, j) : p(j, i); }
void log_slices(const SMPBunch& b)
{
	for(auto& p : b.GetSlices())
		sim::ev("slice %.9g: %.9g %.9g %.9g %.9g %.9g %.9g", p.Q(), p[0], p[1], p[2], p[3], p[4], p[5]);
}
void cut(SMPTracker& t, long& steps)
{
	Chopper* c = new Chopper(8, steps);
	const int n = (int) sim::range(1, 4);
	for(int i = 0; i < n; i++)
		c->plan.push_back(draw_cuts());
	t.AddProcess(c);
}
// how far out particles come on the way
struct Peak: public ParticleBunchProcess
{
	double& big;
	Peak(double& b) : ParticleBunchProcess("PEAK", 9), big(b) {}
	void SetCurrentComponent(AcceleratorComponent&) override { active = true; }
	double GetMaxAllowedStepSize() const override { return 1e30; }
	void DoProcess(double) override
	{
		for(auto& p : *currentBunch)
			for(int i = 0; i < 6; i++)
				big = std::max(big, std::fabs(p[i]));
	}
};
bool same(const SMPBunch& a, const SMPBunch& b)
{
	if(a.Size() != b.Size() || a.GetReferenceMomentum() != b.GetReferenceMomentum() || a.GetReferenceTime() != b.GetReferenceTime())
		return false;
	for(size_t k = 0; k < a.Size(); k++)
	{
		for(int i = 0; i < 6; i++)
		{
			const double x = a.Get(k)[i], y = b.Get(k)[i];
			if(std::memcmp(&x, &y, sizeof(double)))
				return false;
		}
		for(int i = 0; i < 4; i++)
			for(int j = 0; j <= i; j++)
			{
				const double x = second(a.Get(k), i, j), y = second(b.Get(k), i, j);
				if(std::memcmp(&x, &y, sizeof(double)))
					return false;
			}
	}
	return true;
}
bool linear(int kind) { return kind != SEXT && kind != OCT && kind != TRANSRF && kind != SWRF && kind != COLL; }
}

SCENARIO(slices_machine)
{
	sim::context("slices");
	sim::heap_config(sim::heap_random());
	const double A = std::pow(10.0, -sim::real(5, 7));
	Lattice L;
	L.p0 = sim::pick(std::vector<double>{1.0, 10, 45.6, 250});
	const int ne = (int) sim::range(1, sim::tier_thorough() ? 16 : 8);
	bool bends = false, rf = false;
	for(int i = 0; i < ne; i++)
	{
		El e = El();
		do
			e.kind = (int) sim::draw(TWRF + 1);
		while(!linear(e.kind) || (rf && e.kind == SBEND)); // bends are matched to the momentum at the start
		e.name = sim::fmt("E%d", i);
		e.len = e.kind == MARKER ? 0 : sim::real(0.05, 2);
		switch(e.kind)
		{
		case QUAD:
		case SKEWQ:
			e.s1 = sim::chance(1, 8) ? 0 : sim::sreal(1.5);
			break;
		case SBEND:
			e.s1 = sim::sreal(0.1);
			if(std::fabs(e.s1) < 1e-4)
				e.s1 = 1e-4;
			e.s2 = sim::chance(1, 2) ? sim::sreal(0.5) : 0;
			e.faces = (int) sim::draw(3);
			e.s3 = sim::sreal(0.1);
			bends = true;
			break;
		case SOL:
			e.s1 = sim::chance(1, 6) ? sim::sreal(3e-16) : sim::sreal(0.3);
			break;
		case XCORK:
		case YCORK:
			e.s1 = sim::sreal(A) / e.len;
			break;
		case TWRF:
			e.s1 = sim::real(1, 20);
			e.s2 = sim::sreal(3);
			rf = true;
			break;
		case BPMK:
			e.mpt = e.len * sim::sreal(0.45);
			if(sim::chance(1, 4))
				e.len = e.mpt = 0;
			break;
		}
		L.el.push_back(e);
		sim::mix(e.kind);
	}
	Plan P = sim::chance(2, 3) ? gen_plan(L, 6, false) : plan_flat(L);
	gen_moves(P, 4, A);
	if(!bends && sim::chance(1, 4))
		P.moves.push_back(Move{(int) sim::draw((uint64_t) P.nframes()), 5, sim::sreal(1.6)}); // a roll may be large
	describe(P);
	AcceleratorModelConstructor ctor;
	ctor.NewModel();
	Machine M = build(P, ctor);
	const double TOLC = rf ? 1e-2 : 1e-3, TOLS = rf ? 3e-3 : 1e-9, TOLM = rf && bends ? 1e-3 : 1e-6;
	SMPBunch b0(L.p0, 1);
	b0.SetReferenceTime(sim::chance(1, 2) ? 0 : sim::sreal(1e3));
	const int n = (int) sim::range(1, 6);
	for(int i = 0; i < n; i++)
		b0.AddParticle(draw_slice(A, A, A, sim::real(0.1, 2)), sim::chance(1, 2));
	log_slices(b0);
	double Q0 = b0.GetTotalCharge();
	auto track = [&](SMPBunch& b, bool cuts)
		{
			long steps = 0;
			SMPTracker t(M.model->GetBeamline(), &b, false);
			if(cuts)
				cut(t, steps);
			t.Track(&b);
			sim::steps(steps);
		};
	std::unique_ptr<SMPBunch> whole(b0.Clone()), cuts(b0.Clone());
	track(*whole, false);
	track(*cuts, true);
	// component by component, after a passage that was stopped
	{
		std::unique_ptr<SMPBunch> again(b0.Clone());
		long steps = 0;
		SMPTracker t(M.model->GetBeamline(), again.get(), false);
		Chopper* c = new Chopper(8, steps);
		c->plan.push_back(std::vector<double>());
		t.AddProcess(c);
		if(sim::chance(1, 2))
		{
			std::unique_ptr<SMPBunch> lost(b0.Clone());
			c->throw_at = (long) sim::draw(ne);
			try
			{
				t.Track(lost.get());
			}
			catch(Chopper::Stop&)
			{
			}
			c->throw_at = -1;
		}
		if(sim::chance(1, 2))
		{
			t.InitStepper(static_cast<Bunch*>(again.release()));
			bool more = true;
			while(more)
				more = t.StepComponent();
			again.reset(static_cast<SMPBunch&>(t.GetTrackedBunch()).Clone());
		}
		else
			t.Track(again.get());
		SIM_CHECK(same(*whole, *again), "slices:again", "a tracker that was stopped, or stepped, gives another result");
	}
	// the same centroids as particles
	ParticleBunch pb(L.p0, 1);
	pb.SetReferenceTime(b0.GetReferenceTime());
	for(auto& p : b0.GetSlices())
		pb.push_back(p.GetCentroid());
	double big = A;
	{
		ParticleTracker t(M.model->GetBeamline(), &pb, false);
		t.AddProcess(new Peak(big));
		t.Track(&pb);
	}
	SIM_CHECK(close(whole->GetReferenceMomentum(), pb.GetReferenceMomentum(), 1e-12, 0), "slices:momentum", "slices have reference momentum %.17g, particles %.17g", whole->GetReferenceMomentum(),
		pb.GetReferenceMomentum());
	SIM_CHECK(close(whole->GetReferenceTime(), pb.GetReferenceTime(), 1e-12, 1e-12), "slices:time", "slices have reference time %.17g, particles %.17g", whole->GetReferenceTime(), pb.GetReferenceTime());
	SIM_CHECK(whole->Size() == (size_t) n && cuts->Size() == (size_t) n && close(whole->GetTotalCharge(), Q0, 1e-12, 0), "slices:charge", "%zu slices, charge %.17g of %.17g", whole->Size(), whole->GetTotalCharge(), Q0);
	for(int k = 0; k < n; k++)
		for(int i = 0; i < 6; i++)
			big = std::max(big, std::fabs(pb.GetParticles()[k][i]));
	for(int k = 0; k < n; k++)
	{
		const PSvector p = pb.GetParticles()[k];
		const SliceMacroParticle& s = whole->Get(k);
		const SliceMacroParticle& c = cuts->Get(k);
		SIM_CHECK(s.Q() == b0.Get(k).Q() && c.Q() == b0.Get(k).Q(), "slices:charge", "slice %d has charge %.17g, in steps %.17g, of %.17g", k, s.Q(), c.Q(), b0.Get(k).Q());
		for(int i = 0; i < 6; i++)
		{
			SIM_CHECK(std::fabs(s[i] - p[i]) < TOLC * big + 2 * big * big * (1 + L.length()), "slices:centroid", "slice %d ends at %s, a particle at %s", k, show(s.GetCentroid()).c_str(), show(p).c_str());
			SIM_CHECK(std::fabs(s[i] - c[i]) < TOLS * big, "slices:steps", "slice %d ends at %s, in steps at %s", k, show(s.GetCentroid()).c_str(), show(c.GetCentroid()).c_str());
		}
	}
	// second moments against displaced centroids
	SMPBunch db(L.p0, 1);
	for(auto& p : b0.GetSlices())
		for(int j = 0; j < 5; j++)
		{
			SliceMacroParticle q(p);
			if(j < 4)
				q[j] += A;
			db.AddParticle(q);
		}
	track(db, false);
	for(int k = 0; k < n; k++)
	{
		const SliceMacroParticle& s = whole->Get(k);
		double R[4][4], norm = 0, s0 = 0;
		for(int i = 0; i < 4; i++)
			for(int j = 0; j < 4; j++)
			{
				R[i][j] = (db.Get(5 * k + j)[i] - db.Get(5 * k + 4)[i]) / A;
				norm = std::max(norm, std::fabs(R[i][j]));
				s0 = std::max(s0, std::fabs(second(b0.Get(k), i, j)));
			}
		for(int i = 0; i < 4; i++)
			for(int j = 0; j <= i; j++)
			{
				double v = 0;
				for(int a = 0; a < 4; a++)
					for(int b = 0; b < 4; b++)
						v += R[i][a] * R[j][b] * second(b0.Get(k), a, b);
				SIM_CHECK(std::fabs(second(s, i, j) - v) <= TOLM * norm * norm * s0, "slices:moments", "slice %d: second moment %d,%d is %.12g, displaced centroids say %.12g", k, i, j, second(s, i, j), v);
				SIM_CHECK(std::fabs(second(s, i, j) - second(cuts->Get(k), i, j)) <= 3 * TOLS * norm * norm * s0, "slices:steps", "slice %d: second moment %d,%d is %.12g, in steps %.12g", k, i, j, second(s, i, j),
					second(cuts->Get(k), i, j));
			}
	}
	sim::nontrivial();
	sim::done();
}

namespace
{
typedef long double ld;
struct LineWake: public WakePotentials
{
	double a, b;
	LineWake(double x, double y) : WakePotentials(0., 0.), a(x), b(y) {}
	double Wlong(double z) const override { return a * std::exp(-z / 1e-3); }
	double Wtrans(double z) const override { return b * std::sqrt(std::fabs(z)); }
};
struct Model
{
	ld q, x[6], s[4][4];
};
const ld wconv = (ld) PhysicalConstants::ElectronCharge * (ld) PhysicalUnits::Volt;
// slices no further than dz from the first of a bin act together, on those behind (smaller ct)
ld kick(std::vector<Model>& v, const LineWake& w, ld len, ld dz, bool tw, ld P0)
{
	struct Bin { size_t first, last; ld z, q, x, y, wz; };
	std::vector<Bin> b;
	for(size_t k = 0; k < v.size();)
	{
		Bin n = {k, k, 0, 0, 0, 0, 0};
		const double end = (double) v[k].x[4] + (double) dz;
		for(; n.last < v.size() && (double) v[n.last].x[4] < end; n.last++)
		{
			const Model& m = v[n.last];
			n.q += m.q;
			n.z += m.q * m.x[4];
			n.x += m.q * m.x[0];
			n.y += m.q * m.x[2];
		}
		n.z /= n.q;
		n.x /= n.q;
		n.y /= n.q;
		k = n.last;
		b.push_back(n);
	}
	ld loss = 0, Q = 0;
	for(size_t i = 0; i < b.size(); i++)
	{
		for(size_t j = i; j < b.size(); j++)
			b[i].wz += (i == j ? 0.5L : 1.0L) * w.a * expl(-(b[j].z - b[i].z) / 1e-3L) * b[j].q * wconv;
		loss += b[i].wz * b[i].q;
		Q += b[i].q;
	}
	loss *= len / Q;
	for(size_t i = 0; i < b.size(); i++)
	{
		ld kx = 0, ky = 0;
		for(size_t j = i + 1; tw && j < b.size(); j++)
		{
			const ld t = w.b * sqrtl(b[j].z - b[i].z) * b[j].q * wconv * len;
			kx += t * b[j].x;
			ky += t * b[j].y;
		}
		for(size_t k = b[i].first; k < b[i].last; k++)
		{
			Model& m = v[k];
			const ld E0 = P0 * (1 + m.x[5]), E1 = E0 - len * b[i].wz;
			m.x[1] = (E0 * m.x[1] + kx) / E1;
			m.x[3] = (E0 * m.x[3] + ky) / E1;
			m.x[5] = E1 / (P0 - loss) - 1;
			for(int o = 1; o < 4; o += 2)
			{
				for(int j = 0; j < 4; j++)
					m.s[o][j] *= E0 / E1;
				for(int j = 0; j < 4; j++)
					m.s[j][o] *= E0 / E1;
			}
		}
	}
	return P0 - loss;
}
std::vector<Model> view(const SMPBunch& b)
{
	std::vector<Model> v;
	for(auto& p : b.GetSlices())
	{
		Model m;
		m.q = p.Q();
		for(int i = 0; i < 6; i++)
			m.x[i] = p[i];
		for(int i = 0; i < 4; i++)
			for(int j = 0; j < 4; j++)
				m.s[i][j] = second(p, i, j);
		v.push_back(m);
	}
	std::stable_sort(v.begin(), v.end(), [](const Model& x, const Model& y) { return x.x[4] < y.x[4]; });
	return v;
}
// what the wake process did at each step, and once per passage
struct Watch
{
	const LineWake* wake = nullptr;
	ld len = 0, impulse = 0, s = 0, P = 0;
	double dz = 0;
	bool tw = false, centre = false;
	int kicks = 0;
	long steps = 0;
	std::vector<Model> before;
	void leave()
	{
		SIM_CHECK(kicks == (wake ? 1 : 0), "wakes:once", "%d kicks in an element %s wake", kicks, wake ? "with a" : "without");
	}
	void enter(AcceleratorComponent& c)
	{
		leave();
		wake = dynamic_cast<LineWake*>(c.GetWakePotentials());
		len = c.GetLength();
		impulse = centre ? len / 2 : len;
		s = 0;
		kicks = 0;
	}
	void after(const SMPBunch& b, double ds)
	{
		s += ds;
		steps++;
		std::vector<Model> v = view(b);
		if((ld) b.GetReferenceMomentum() != P)
		{
			SIM_CHECK(wake && fabsl(s - impulse) < 1e-12L, "wakes:place", "a kick at %.9Lg m instead of %.9Lg m", s, impulse);
			kicks++;
			P = kick(before, *wake, len, dz, tw, P);
		}
		SIM_CHECK(close(b.GetReferenceMomentum(), (double) P, 1e-10, 0), "wakes:reference", "reference momentum %.17g instead of %.17Lg", b.GetReferenceMomentum(), P);
		SIM_CHECK(v.size() == before.size(), "wakes:slices", "%zu slices of %zu", v.size(), before.size());
		auto charge = [](const Model& x, const Model& y) { return x.q < y.q; };
		std::sort(v.begin(), v.end(), charge);
		std::sort(before.begin(), before.end(), charge);
		for(size_t k = 0; k < v.size(); k++)
		{
			const Model& x = v[k];
			const Model& y = before[k];
			SIM_CHECK(x.q == y.q, "wakes:charge", "charge %.17Lg instead of %.17Lg", x.q, y.q);
			for(int i = 0; i < 6; i++)
				SIM_CHECK(fabsl(x.x[i] - y.x[i]) <= 1e-9L * fabsl(y.x[i]) + 1e-13L, "wakes:centroid", "slice %zu: coordinate %d is %.12Lg instead of %.12Lg", k, i, x.x[i], y.x[i]);
			for(int i = 0; i < 4; i++)
				for(int j = 0; j <= i; j++)
					SIM_CHECK(fabsl(x.s[i][j] - y.s[i][j]) <= 1e-9L * sqrtl(y.s[i][i] * y.s[j][j]), "wakes:moments", "slice %zu: moment %d,%d is %.12Lg instead of %.12Lg", k, i, j, x.s[i][j], y.s[i][j]);
		}
	}
};
struct Observer: public BunchProcess
{
	Watch& w;
	bool first;
	const SMPBunch* b = nullptr;
	Observer(int prio, Watch& x) : BunchProcess("OBSERVER", prio), w(x), first(prio == 0) {}
	void InitialiseProcess(Bunch& x) override { b = &dynamic_cast<SMPBunch&>(x); }
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		if(first)
			w.enter(c);
		active = true;
	}
	double GetMaxAllowedStepSize() const override { return 1e30; }
	void DoProcess(double ds) override
	{
		if(first)
		{
			w.before = view(*b);
			w.P = b->GetReferenceMomentum();
		}
		else
			w.after(*b, ds);
	}
};
}

SCENARIO(slices_wake)
{
	sim::context("slices with wakes");
	sim::heap_config(sim::heap_random());
	Lattice L;
	L.p0 = sim::pick(std::vector<double>{1.0, 10, 250});
	const double p0 = L.p0;
	AcceleratorModelConstructor ctor;
	ctor.NewModel();
	const int ne = (int) sim::range(1, 6), nw = (int) sim::range(1, 3);
	std::vector<std::unique_ptr<LineWake> > wakes;
	for(int i = 0; i < nw; i++)
		wakes.emplace_back(new LineWake((sim::chance(1, 2) ? -1 : 1) * sim::real(0.1, 1) * 1e-3 * p0 / (double) wconv / 1e10, sim::chance(1, 4) ? 0 : sim::sreal(1) * p0 / (double) wconv / 1e10));
	for(int i = 0; i < ne; i++)
	{
		El e = El();
		e.kind = (int) sim::pick(std::vector<int>{DRIFT, DRIFT, QUAD, SBEND, SOL});
		e.name = sim::fmt("E%d", i);
		e.len = sim::real(0.1, 2);
		e.s1 = e.kind == SBEND ? (sim::chance(1, 2) ? 1 : -1) * sim::real(0.01, 0.5) : sim::sreal(0.3);
		L.el.push_back(e);
		AcceleratorComponent* c = make(e, p0);
		const int w = sim::chance(1, 4) ? -1 : (int) sim::draw(nw);
		if(w >= 0)
			c->SetWakePotentials(wakes[w].get());
		ctor.AppendComponent(*c);
		sim::ev("wake %d", w);
	}
	describe(L);
	std::unique_ptr<AcceleratorModel> model(ctor.GetModel());
	Watch watch;
	watch.dz = sim::pick(std::vector<double>{1e-9, 1e-4, 5e-4, 1e-2});
	watch.centre = sim::chance(1, 2);
	watch.tw = sim::chance(3, 4);
	SMPTracking::WakeFieldProcess* wp = new SMPTracking::WakeFieldProcess(1, watch.dz);
	const bool recreate = sim::chance(1, 2);
	wp->ApplyImpulseAt(watch.centre ? SMPTracking::WakeFieldProcess::atCentre : SMPTracking::WakeFieldProcess::atExit);
	wp->IncludeTransverseWake(watch.tw);
	long steps = 0;
	SMPTracker t(model->GetBeamline(), (SMPBunch*) nullptr, false);
	t.AddProcess(new Observer(0, watch));
	t.AddProcess(wp);
	t.AddProcess(new Observer(2, watch));
	if(sim::chance(1, 2))
		cut(t, steps);
	sim::ev("bins of %g, kick at the %s, transverse %d", watch.dz, watch.centre ? "centre" : "exit", watch.tw);
	const int passes = (int) sim::range(1, 3);
	std::unique_ptr<SMPBunch> b;
	for(int pass = 0; pass < passes; pass++)
	{
		if(!b || recreate)
		{
			b.reset(new SMPBunch(p0, 1));
			const int n = (int) sim::range(1, 8);
			for(int i = 0; i < n; i++)
				b->AddParticle(draw_slice(1e-5, 1e-3, 1e-3, (i + sim::real(0.1, 1)) * 1e10), false);
			if(sim::chance(1, 2))
				b->SortByCT();
			log_slices(*b);
		}
		t.Track(b.get());
		watch.leave();
		watch.wake = nullptr;
		watch.kicks = 0;
		for(auto& m : view(*b))
			sim::mix((uint64_t) (std::fabs((double) m.x[5]) * 1e9));
	}
	sim::steps(watch.steps);
	sim::nontrivial();
	sim::done();
}
