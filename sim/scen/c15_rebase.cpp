// C15: bunches are re-referenced, sorted, transformed, merged into moments and tracked through
// elements that change the reference by themselves, in drawn orders.  The absolute momentum and
// arrival time of every particle is kept beside the bunch and must not move unless something
// accelerates the particle, and then by what that gives it.
#include <array>
#include "gen.h"
#include "RandomNG.h"
#include "chop.h"
#include "SpinParticleProcess.h"
#include "SynchRadParticleProcess.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "SMPBunch.h"
#include "SMPTracker.h"
#include "SMPWakeFieldProcess.h"
#include "SMPTransform3D.h"
#include "SWRFStructure.h"
#include "TWRFStructure.h"
using namespace gen;

namespace
{
typedef long double ld;
struct Wake: public WakePotentials
{
	double Wlong(double z) const override { return 1e14 * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return 1e13 * std::sqrt(std::fabs(z) + 1e-6); }
};
bool near(ld a, ld b, ld scale, ld rel)
{
	if(!std::isfinite((double) a) || !std::isfinite((double) b))
		return false;
	return fabsl(a - b) <= rel * scale;
}
// ---- a view of either kind of bunch: weight and coordinates of each particle
struct View
{
	ld q;
	ld c[6];
	ld s[4][4];          // second moments of a slice
};
void moments(const std::vector<View>& v, ld mean[6], ld cov[6][6])
{
	ld Q = 0;
	for(int i = 0; i < 6; i++)
	{
		mean[i] = 0;
		for(int j = 0; j < 6; j++)
			cov[i][j] = 0;
	}
	for(auto& p : v)
		Q += p.q;
	if(v.empty() || Q == 0)
		return;
	for(auto& p : v)
		for(int i = 0; i < 6; i++)
			mean[i] += p.q / Q * p.c[i];
	for(auto& p : v)
		for(int i = 0; i < 6; i++)
			for(int j = 0; j < 6; j++)
				cov[i][j] += p.q / Q * ((p.c[i] - mean[i]) * (p.c[j] - mean[j]) + (i < 4 && j < 4 ? p.s[i][j] : 0));
}
void check_moments(const Bunch& b, const std::vector<View>& v, ld tol)
{
	ld mean[6], cov[6][6];
	moments(v, mean, cov);
	ld amp[6] = {0, 0, 0, 0, 0, 0};
	for(auto& p : v)
		for(int i = 0; i < 6; i++)
			amp[i] = std::max(amp[i], fabsl(p.c[i]) + (i < 4 ? sqrtl(fabsl(p.s[i][i])) : 0));
	PSmoments S;
	b.GetMoments(S);
	PSvector x(0);
	b.GetCentroid(x);
	for(int i = 0; i < 6; i++)
	{
		SIM_CHECK(near(S.mean(i), mean[i], amp[i] + 1e-300L, tol), "moments:mean", "mean of coordinate %d is %.17g, particles give %.17Lg", i, S.mean(i), mean[i]);
		SIM_CHECK(near(x[i], mean[i], amp[i] + 1e-300L, tol), "moments:centroid", "centroid of coordinate %d is %.17g, particles give %.17Lg", i, x[i], mean[i]);
		for(int j = 0; j <= i; j++)
			SIM_CHECK(near(S(i, j), cov[i][j], amp[i] * amp[j] + 1e-300L, tol), "moments:second", "second moment %d %d is %.17g, particles give %.17Lg", i, j,
				(double) S(i, j), cov[i][j]);
	}
	for(int i = 0; i < 5; i += 2)
		for(int j = i + 1; j < 6; j += 2)
		{
			// a projection on a plane a slice has no second moments for is not defined
			if(!v.empty() && dynamic_cast<const SMPTracking::SMPBunch*>(&b) && (i > 3 || j > 3))
				continue;
			PSmoments2D P;
			b.GetProjectedMoments((PScoord) i, (PScoord) j, P);
			if(sim::chance(1, 4))
				b.GetProjectedMoments((PScoord) i, (PScoord) j, P);   // an object used before
			SIM_CHECK(near(P.mean(0), mean[i], amp[i] + 1e-300L, tol) && near(P.mean(1), mean[j], amp[j] + 1e-300L, tol), "moments:projected-mean",
				"projection on %d %d has mean %.17g %.17g, particles give %.17Lg %.17Lg", i, j, P.mean(0), P.mean(1), mean[i], mean[j]);
			SIM_CHECK(near(P(0, 0), cov[i][i], amp[i] * amp[i] + 1e-300L, tol) && near(P(0, 1), cov[i][j], amp[i] * amp[j] + 1e-300L, tol) && near(P(1, 1), cov[j][j],
				amp[j] * amp[j] + 1e-300L, tol), "moments:projected", "projection on %d %d has second moments %.17g %.17g %.17g, particles give %.17Lg %.17Lg %.17Lg", i, j,
				(double) P(0, 0), (double) P(0, 1), (double) P(1, 1), cov[i][i], cov[i][j], cov[j][j]);
			Point2D c = b.GetProjectedCentroid((PScoord) i, (PScoord) j);
			SIM_CHECK(near(c.x, mean[i], amp[i] + 1e-300L, tol) && near(c.y, mean[j], amp[j] + 1e-300L, tol), "moments:projected-centroid",
				"projected centroid %d %d is %.17g %.17g, particles give %.17Lg %.17Lg", i, j, c.x, c.y, mean[i], mean[j]);
		}
}
struct Truth
{
	ld p, t;             // absolute momentum and arrival time
	ld x, y, xp, yp;
	double sx, sy, sz;   // spin
};
const ld TOL = 2e-12L;
// ---- single particles
struct Particles
{
	std::unique_ptr<ParticleBunch> b;
	std::map<int, Truth> truth;
	bool spin = false;
	std::vector<View> view() const
	{
		std::vector<View> v;
		for(auto& p : *b)
		{
			View x;
			memset(&x, 0, sizeof x);
			x.q = 1;
			for(int i = 0; i < 6; i++)
				x.c[i] = p[i];
			v.push_back(x);
		}
		return v;
	}
	void check(const char* when, bool all)
	{
		ld tscale = 0;
		for(auto& i : truth)
			tscale = std::max(tscale, fabsl(i.second.t));
		const ld P0 = b->GetReferenceMomentum(), T0 = b->GetReferenceTime();
		SIM_CHECK(b->size() == truth.size(), "particles", "%s: %zu particles, there were %zu", when, b->size(), truth.size());
		size_t n = 0;
		auto sp = spin ? static_cast<SpinParticleBunch*>(b.get())->beginSpinArray() : std::vector<SpinVector>::iterator();
		for(auto& p : *b)
		{
			auto i = truth.find((int) p.id());
			SIM_CHECK(i != truth.end(), "particles", "%s: particle %g was not there", when, p.id());
			const Truth& t = i->second;
			SIM_CHECK(near(P0 * (1 + (ld) p.dp()), t.p, fabsl(P0) + fabsl(t.p), TOL), "momentum", "%s: particle %d has %.17Lg GeV/c, it had %.17Lg", when, i->first,
				P0 * (1 + (ld) p.dp()), t.p);
			SIM_CHECK(near(T0 - (ld) p.ct(), t.t, fabsl(T0) + fabsl(t.t) + tscale + 1e-300L, TOL), "time", "%s: particle %d arrives at %.17Lg m, it was %.17Lg", when, i->first,
				T0 - (ld) p.ct(), t.t);
			if(all)
				SIM_CHECK(p.x() == (double) t.x && p.y() == (double) t.y && p.xp() == (double) t.xp && p.yp() == (double) t.yp, "transverse", "%s: particle %d moved from %s", when,
					i->first, show(p).c_str());
			if(spin)
			{
				SIM_CHECK(sp->x() == t.sx && sp->y() == t.sy && sp->z() == t.sz, "spin", "%s: particle %d has spin (%g %g %g), it was (%g %g %g)", when, i->first, sp->x(),
					sp->y(), sp->z(), t.sx, t.sy, t.sz);
				++sp;
			}
			n++;
		}
	}
	void remember()
	{
		truth.clear();
		const ld P0 = b->GetReferenceMomentum(), T0 = b->GetReferenceTime();
		auto sp = spin ? static_cast<SpinParticleBunch*>(b.get())->beginSpinArray() : std::vector<SpinVector>::iterator();
		for(auto& p : *b)
		{
			Truth t;
			memset(&t, 0, sizeof t);
			t.p = P0 * (1 + (ld) p.dp());
			t.t = T0 - (ld) p.ct();
			t.x = p.x();
			t.y = p.y();
			t.xp = p.xp();
			t.yp = p.yp();
			if(spin)
			{
				t.sx = sp->x();
				t.sy = sp->y();
				t.sz = sp->z();
				++sp;
			}
			truth[(int) p.id()] = t;
		}
	}
};
}
SCENARIO(rebase)
{
	sim::context("re-referencing a bunch");
	sim::heap_config(sim::heap_random());
	const double p0 = std::pow(10.0, sim::real(0, 3.8));
	const int kind = (int) sim::draw(4);
	Particles w;
	const int n = (int) (sim::chance(1, 12) ? 0 : sim::range(1, 24));
	const double act = std::pow(10.0, -(double) sim::range(1, 6)), adp = std::pow(10.0, -(double) sim::range(1, 6));
	BeamSpec s = gen_beam(n ? n : 1, n ? n : 1, 1e-3, 1e-4, act, adp);
	if(n == 0)
		s.p.clear();
	switch(kind)
	{
	case 0:
		w.b.reset(make_bunch<ProtonBunch>(s, p0, 1e-9));
		break;
	case 1:
		w.b.reset(make_bunch<ElectronBunch>(s, p0, 1e-9));
		break;
	case 2:
		w.b.reset(make_bunch<ParticleBunch>(s, p0, 1e-9));
		break;
	default:
	{
		SpinParticleBunch* sb = new SpinParticleBunch(p0, 1e-9);
		for(auto& p : s.p)
			sb->AddParticle(p, SpinVector(sim::sreal(1), sim::sreal(1), sim::sreal(1)));
		w.b.reset(sb);
		w.spin = true;
	}
	}
	int id = 1;
	for(auto& p : *w.b)
		p.id() = id++;
	ParticleBunch& b = *w.b;
	b.SetReferenceTime(sim::chance(1, 2) ? 0 : sim::sreal(1e4));
	w.remember();
	const int nops = (int) sim::range(1, 10);
	sim::ev("bunch kind %d, %d particles, %.9g GeV/c, reference time %.9g", kind, n, p0, b.GetReferenceTime());
	log_bunch("bunch", b);
	int rebased = 0;
	for(int k = 0; k < nops; k++)
	{
		const double P0 = b.GetReferenceMomentum(), T0 = b.GetReferenceTime();
		ld mdp = 0, mct = 0, amp = 0;
		for(auto& p : b)
		{
			mdp += (ld) p.dp() / b.size();
			mct += (ld) p.ct() / b.size();
			amp = std::max(amp, fabsl(p.ct()));
		}
		const int op = (int) sim::draw(9);
		switch(op)
		{
		case 0:
		{
			const double d = sim::sreal(0.5) * std::pow(10.0, -(double) sim::range(0, 6));
			sim::ev("reference momentum by %.9g", d);
			const double r = b.AdjustRefMomentum(d);
			SIM_CHECK(r == b.GetReferenceMomentum(), "report", "AdjustRefMomentum returned %.17g, the reference is %.17g", r, b.GetReferenceMomentum());
			SIM_CHECK(near(r, (1 + (ld) d) * P0, P0, TOL), "reference", "AdjustRefMomentum(%.9g) made %.17g of %.17g", d, r, P0);
			w.check("after changing the reference momentum", true);
			rebased++;
			break;
		}
		case 1:
		{
			sim::ev("reference momentum to mean");
			const double r = b.AdjustRefMomentumToMean();
			SIM_CHECK(r == b.GetReferenceMomentum(), "report", "AdjustRefMomentumToMean returned %.17g, the reference is %.17g", r, b.GetReferenceMomentum());
			SIM_CHECK(near(r, (1 + mdp) * P0, P0, TOL), "reference", "AdjustRefMomentumToMean made %.17g of %.17g, the mean deviation was %.9Lg", r, P0, mdp);
			w.check("after setting the reference momentum to the mean", true);
			PSvector c(0);
			if(b.size())
				b.GetCentroid(c);
			SIM_CHECK(fabs(c.dp()) <= 1e-13, "mean", "the mean momentum deviation is %.9g after setting the reference to the mean", c.dp());
			rebased++;
			break;
		}
		case 2:
		{
			sim::ev("reference time to mean");
			const double r = b.AdjustRefTimeToMean();
			SIM_CHECK(r == b.GetReferenceTime(), "report", "AdjustRefTimeToMean returned %.17g, the reference is %.17g", r, b.GetReferenceTime());
			SIM_CHECK(near(r, T0 - mct, fabsl(T0) + amp + 1e-300L, TOL), "reference", "AdjustRefTimeToMean made %.17g of %.17g, the mean was %.9Lg", r, T0, mct);
			w.check("after setting the reference time to the mean", true);
			rebased++;
			break;
		}
		case 3:
			sim::ev("sort");
			b.SortByCT();
			w.check("after sorting", true);
			for(size_t i = 1; i < b.size(); i++)
				SIM_CHECK(b.GetParticles()[i - 1].ct() <= b.GetParticles()[i].ct(), "sorted", "particles %zu and %zu are out of order", i - 1, i);
			break;
		case 4:
		{
			const double a = sim::sreal(0.3), dx = sim::sreal(1e-3), dy = sim::sreal(1e-3);
			const int how = (int) sim::draw(3);
			sim::ev("transform kind %d %.9g %.9g %.9g", how, a, dx, dy);
			std::vector<View> before = w.view();
			SIM_CHECK(b.ApplyTransformation(how == 0 ? Transform3D(Point3D(dx, dy, 0), Rotation3D::identity()) : how == 1 ? Transform3D(Point3D(0, 0, 0),
				Rotation3D::rotationZ(a)) : Transform3D(Point3D(0, 0, 0), Rotation3D::identity())), "report", "a transformation was reported as unsupported");
			if(w.spin && how == 1)
			{
				// the spins turn with the frame: only their number and length is kept here
				SpinParticleBunch& sb = static_cast<SpinParticleBunch&>(b);
				auto i = sb.beginSpinArray();
				for(auto& p : b)
				{
					const Truth& t = w.truth[(int) p.id()];
					const double l1 = i->x() * i->x() + i->y() * i->y() + i->z() * i->z(), l0 = t.sx * t.sx + t.sy * t.sy + t.sz * t.sz;
					SIM_CHECK(close(l1, l0, 1e-12, 1e-300) && i->z() == t.sz, "spin", "rotating the frame about z changed a spin's length or z component");
					Truth& u = w.truth[(int) p.id()];
					u.sx = i->x();
					u.sy = i->y();
					++i;
				}
			}
			w.check("after a transformation", false);
			std::vector<View> after = w.view();
			for(size_t i = 0; i < after.size(); i++)
			{
				ld x = before[i].c[0], y = before[i].c[2], xp = before[i].c[1], yp = before[i].c[3];
				if(how == 0)
				{
					x -= dx;
					y -= dy;
				}
				else if(how == 1)
				{
					// only the length is fixed by the property; the sense of rotation is that of Rotation3D
					ld r0 = x * x + y * y, r1 = after[i].c[0] * after[i].c[0] + after[i].c[2] * after[i].c[2];
					SIM_CHECK(near(r0, r1, r0 + 1e-300L, 1e-12L), "transform", "rotating about z changed the distance from the axis");
					continue;
				}
				SIM_CHECK(near(after[i].c[0], x, fabsl(x) + fabsl(dx), 1e-14L) && near(after[i].c[2], y, fabsl(y) + fabsl(dy), 1e-14L) && after[i].c[1] == xp &&
					after[i].c[3] == yp, "transform", "a translation by %g %g moved a particle from %Lg %Lg to %Lg %Lg", dx, dy, before[i].c[0], before[i].c[2], after[i].c[0],
					after[i].c[2]);
			}
			w.remember();
			break;
		}
		case 5:
		case 6:
		{
			// an accelerating element
			const bool sw = kind < 2 && sim::chance(1, 4);
			const double V = sim::chance(1, 8) ? 0 : sim::sreal(0.2) * P0 * std::pow(10.0, -(double) sim::range(0, 4)), ph = sim::sreal(3.2);
			const int set = sw ? 0 : (int) sim::draw(2);
			const double f = 1.3e9;
			const double len = sw ? (double) sim::range(1, 8) * (PhysicalConstants::SpeedOfLight / f / 2) : sim::real(0.2, 3);
			AcceleratorModelConstructor mc;
			mc.NewModel();
			std::vector<std::vector<double> > plan(1);
			RFStructure* c;
			if(sw)
				c = new SWRFStructure("CAV", (int) std::lround(len / (PhysicalConstants::SpeedOfLight / f / 2)), f, V / len, ph);
			else
				c = new TWRFStructure("CAV", len, f, V / len, ph);
			mc.AppendComponent(*c);
			std::unique_ptr<AcceleratorModel> model(mc.GetModel());
			long ns = 0;
			if(!sw && sim::chance(1, 2))
				plan[0] = draw_cuts();
			ParticleTracker tr(model->GetBeamline(), &b, false);
			THIN_LENS::StdISet thin;
			if(set == 1)
				tr.SetIntegratorSet(&thin);
			Chopper* ch = new Chopper(0, ns);
			ch->plan = plan;
			tr.AddProcess(ch);
			sim::ev("%s cavity %.9g GV phase %.9g length %.9g set %d cuts %zu", sw ? "standing wave" : "travelling wave", V, ph, len, set, plan[0].size());
			const ld k0 = 2 * M_PIl * f / (ld) PhysicalConstants::SpeedOfLight;
			const bool full = sw || c->GetField().FullAcceleration();
			const ld gain0 = (ld) V * cosl((ld) ph);
			std::map<int, ld> ct;
			for(auto& p : b)
				ct[(int) p.id()] = p.ct();
			tr.Track(&b);
			for(auto& p : w.truth)
			{
				const ld g = (ld) V * cosl((ld) ph - k0 * ct[p.first]);
				p.second.p += g;
				p.second.t += c->GetLength();
			}
			const double want = full ? (double) (P0 + gain0) : P0;
			SIM_CHECK(near(b.GetReferenceMomentum(), want, P0, 1e-11L), "acceleration:reference", "a cavity giving %.9Lg GeV on the reference made %.17g of %.17g", gain0,
				b.GetReferenceMomentum(), P0);
			for(auto& p : b)
			{
				const Truth& t = w.truth[(int) p.id()];
				const ld has = b.GetReferenceMomentum() * (1 + (ld) p.dp());
				SIM_CHECK(near(has, t.p, P0 + fabsl(V), 1e-10L), "acceleration:momentum", "a %s cavity of %.9g GV, phase %.9g at ct %.9Lg left a particle with %.17Lg GeV/c instead of %.17Lg",
					sw ? "standing wave" : "travelling wave", V, ph, ct[(int) p.id()], has, t.p);
				SIM_CHECK(p.ct() == (double) ct[(int) p.id()], "acceleration:time", "a cavity changed a particle's ct from %.17Lg to %.17g", ct[(int) p.id()], p.ct());
			}
			SIM_CHECK(near(b.GetReferenceTime(), T0 + c->GetLength(), fabsl(T0) + 1, 1e-12L), "acceleration:reference-time", "%.17g m of cavity made reference time %.17g of %.17g",
				c->GetLength(), b.GetReferenceTime(), T0);
			w.remember();
			rebased++;
			break;
		}
		case 7:
		{
			// processes that follow the mean energy loss with the reference
			if(b.size() < 3 || kind >= 2)
				break;
			const bool wake = sim::chance(1, 2);
			if(!wake && kind == 1 && P0 > 20)
				break;
			sim::ev("%s", wake ? "wake field" : "radiation");
			AcceleratorModelConstructor mc;
			mc.NewModel();
			Wake wp;
			AcceleratorComponent* c = wake ? (AcceleratorComponent*) new Drift("D", 1) : new SectorBend("B", 1, 0.05, P0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight * 0.05);
			if(wake)
				c->SetWakePotentials(&wp);
			mc.AppendComponent(*c);
			std::unique_ptr<AcceleratorModel> model(mc.GetModel());
			ParticleTracker tr(model->GetBeamline(), &b, false);
			if(wake)
				tr.AddProcess(new WakeFieldProcess(1, 20, 50.0));
			else
			{
				SynchRadParticleProcess* sr = new SynchRadParticleProcess(1, false);
				sr->SetNumComponentSteps((int) sim::range(1, 4));
				tr.AddProcess(sr);
			}
			RandomNG::init((uint32_t) sim::draw(1000) + 1);
			ld m0 = 0;
			for(auto& p : b)
				m0 += P0 * (1 + (ld) p.dp()) / b.size();
			tr.Track(&b);
			ld m1 = 0;
			for(auto& p : b)
				m1 += b.GetReferenceMomentum() * (1 + (ld) p.dp()) / b.size();
			SIM_CHECK(near(b.GetReferenceMomentum() - P0, m1 - m0, P0, 1e-10L), "loss:reference", "%s changed the mean momentum by %.12Lg GeV/c and the reference by %.12g",
				wake ? "a wake field" : "radiation", m1 - m0, b.GetReferenceMomentum() - P0);
			w.remember();
			rebased++;
			break;
		}
		case 8:
			if(b.size() && !w.spin)
			{
				PSvector x0(0);
				for(int i = 0; i < 6; i++)
					x0[i] = sim::sreal(1e-4);
				x0.id() = b.FirstParticle().id();
				sim::ev("set centroid %s", show(x0).c_str());
				b.SetCentroid(x0);
				PSvector c(0);
				b.GetCentroid(c);
				(void) c;
				w.remember();
			}
			break;
		}
		check_moments(b, w.view(), 1e-11L);
		sim::mix(sim::hash_bytes(&b.GetParticles()[0], b.size() * sizeof(PSvector)));
		sim::probe(sim::fmt("op.%d", op).c_str());
		sim::steps(1);
	}
	if(rebased && n)
		sim::nontrivial();
	sim::done();
}
SCENARIO(rebase_slices)
{
	sim::context("re-referencing a bunch of slices");
	sim::heap_config(sim::heap_random());
	using SMPTracking::SMPBunch;
	using SMPTracking::SliceMacroParticle;
	const double p0 = std::pow(10.0, sim::real(0, 3));
	SMPBunch b(p0, 1);
	b.SetReferenceTime(sim::chance(1, 2) ? 0 : sim::sreal(1e4));
	const int n = (int) (sim::chance(1, 12) ? 0 : sim::range(1, 12));
	const double act = std::pow(10.0, -(double) sim::range(1, 4)), adp = std::pow(10.0, -(double) sim::range(1, 6));
	for(int i = 0; i < n; i++)
	{
		PSmoments S;
		for(int j = 0; j < 4; j++)
			S[j] = sim::sreal(j % 2 ? 1e-4 : 1e-3);
		double a[4][4];
		for(int j = 0; j < 4; j++)
			for(int k = 0; k < 4; k++)
				a[j][k] = sim::sreal(j % 2 ? 1e-4 : 1e-3);
		for(int j = 0; j < 4; j++)
			for(int k = 0; k <= j; k++)
			{
				double v = 0;
				for(int m = 0; m < 4; m++)
					v += a[j][m] * a[k][m];
				S(j, k) = v;
			}
		b.AddParticle(SliceMacroParticle(S, sim::sreal(act), sim::sreal(adp), sim::real(0.1, 2)), sim::chance(1, 2));
	}
	auto view = [&]()
	{
		std::vector<View> v;
		for(SMPBunch::const_iterator p = ((const SMPBunch&) b).begin(); p != ((const SMPBunch&) b).end(); ++p)
		{
			View x;
			x.q = p->Q();
			for(int i = 0; i < 6; i++)
				x.c[i] = (*p)[i];
			for(int i = 0; i < 4; i++)
				for(int j = 0; j < 4; j++)
					x.s[i][j] = i >= j ? (*p)(i, j) : (*p)(j, i);
			v.push_back(x);
		}
		return v;
	};
	sim::ev("%d slices, %.9g GeV/c, reference time %.9g", n, p0, b.GetReferenceTime());
	for(auto& x : view())
		sim::ev("slice charge %.9Lg x %.9Lg xp %.9Lg y %.9Lg yp %.9Lg ct %.9Lg dp %.9Lg", x.q, x.c[0], x.c[1], x.c[2], x.c[3], x.c[4], x.c[5]);
	check_moments(b, view(), 1e-11L);
	const int nops = (int) sim::range(1, 8);
	int rebased = 0;
	for(int k = 0; k < nops; k++)
	{
		const std::vector<View> v0 = view();
		const ld P0 = b.GetReferenceMomentum(), T0 = b.GetReferenceTime();
		ld mean[6], cov[6][6], amp = 0;
		moments(v0, mean, cov);
		for(auto& x : v0)
			amp = std::max(amp, fabsl(x.c[4]));
		auto key = [&](const View& x, ld P, ld T) { return std::array<ld, 3>{x.q, P * (1 + x.c[5]), T - x.c[4]}; };
		auto same = [&](const char* when, bool sorted, bool transverse)
		{
			std::vector<View> v1 = view();
			SIM_CHECK(v1.size() == v0.size(), "slices", "%s: %zu slices instead of %zu", when, v1.size(), v0.size());
			const ld P1 = b.GetReferenceMomentum(), T1 = b.GetReferenceTime();
			std::vector<char> used(v0.size());
			for(size_t i = 0; i < v1.size(); i++)
			{
				auto a = key(v1[i], P1, T1);
				bool found = false;
				for(size_t j = sorted ? 0 : i; j < (sorted ? v0.size() : i + 1) && !found; j++)
				{
					auto c = key(v0[j], P0, T0);
					if(used[j] || a[0] != c[0])
						continue;
					if(!sorted)
					{
						SIM_CHECK(near(a[1], c[1], P0 + P1, TOL), "momentum", "%s: slice %zu has %.17Lg GeV/c, it had %.17Lg", when, i, a[1], c[1]);
						SIM_CHECK(near(a[2], c[2], fabsl(T0) + fabsl(c[2]) + amp + 1e-300L, TOL), "time", "%s: slice %zu arrives at %.17Lg m, it was %.17Lg", when, i, a[2], c[2]);
					}
					else if(!near(a[1], c[1], P0 + P1, TOL) || !near(a[2], c[2], fabsl(T0) + fabsl(c[2]) + amp + 1e-300L, TOL))
						continue;
					bool eq = true;
					for(int m = 0; m < 4; m++)
					{
						eq = eq && v1[i].c[m] == v0[j].c[m];
						for(int o = 0; o < 4; o++)
							eq = eq && v1[i].s[m][o] == v0[j].s[m][o];
					}
					if(transverse && !eq)
						continue;
					used[j] = 1;
					found = true;
				}
				SIM_CHECK(found, "slices", "%s: slice %zu (charge %.9Lg) is none of those before", when, i, v1[i].q);
			}
		};
		const int op = (int) sim::draw(7);
		switch(op)
		{
		case 0:
		case 1:
		{
			sim::ev("reference momentum to mean");
			const double r = b.AdjustRefMomentumToMean();
			SIM_CHECK(r == b.GetReferenceMomentum(), "report", "AdjustRefMomentumToMean returned %.17g, the reference is %.17g", r, b.GetReferenceMomentum());
			SIM_CHECK(near(r, P0 * (1 + mean[5]), P0, TOL), "reference", "AdjustRefMomentumToMean made %.17g of %.17Lg, the mean deviation was %.9Lg", r, P0, mean[5]);
			same("after setting the reference momentum to the mean", false, true);
			rebased++;
			break;
		}
		case 2:
		case 3:
		{
			sim::ev("reference time to mean");
			const double r = b.AdjustRefTimeToMean();
			SIM_CHECK(r == b.GetReferenceTime(), "report", "AdjustRefTimeToMean returned %.17g, the reference is %.17g", r, b.GetReferenceTime());
			SIM_CHECK(near(r, T0 - mean[4], fabsl(T0) + amp + 1e-300L, TOL), "reference", "AdjustRefTimeToMean made %.17g of %.17Lg, the mean was %.9Lg", r, T0, mean[4]);
			same("after setting the reference time to the mean", false, true);
			rebased++;
			break;
		}
		case 4:
			sim::ev("sort");
			b.SortByCT();
			same("after sorting", true, true);
			break;
		case 5:
		{
			const double a = sim::sreal(1.5), dx = sim::sreal(1e-3), dy = sim::sreal(1e-3);
			const int how = (int) sim::draw(3);
			sim::ev("transform kind %d %.9g %.9g %.9g", how, a, dx, dy);
			const bool ok = b.ApplyTransformation(how == 0 ? Transform3D(Point3D(dx, dy, 0), Rotation3D::identity()) : how == 1 ? Transform3D(Point3D(0, 0, 0),
				Rotation3D::rotationZ(a)) : Transform3D(Point3D(0, 0, 0), Rotation3D::identity()));
			SIM_CHECK(ok, "report", "a supported transformation was reported as unsupported");
			same("after a transformation", false, false);
			std::vector<View> v1 = view();
			ld m1[6], c1[6][6];
			moments(v1, m1, c1);
			if(how == 0)
			{
				SIM_CHECK(near(m1[0], mean[0] - dx * (n != 0), 1e-2L, 1e-13L) && near(m1[2], mean[2] - dy * (n != 0), 1e-2L, 1e-13L), "transform", "a translation moved the centroid elsewhere");
			}
			else if(how == 1 && n)
			{
				// the whole distribution turns by the same angle: means and second moments together
				ld best = 1e9;
				for(int sg = -1; sg <= 1; sg += 2)
				{
					const ld c = cosl((ld) a), s = sg * sinl((ld) a);
					ld R[4][4] = {{c, 0, s, 0}, {0, c, 0, s}, {-s, 0, c, 0}, {0, -s, 0, c}};
					ld worst = 0;
					for(int i = 0; i < 4; i++)
					{
						ld m = 0;
						for(int j = 0; j < 4; j++)
							m += R[i][j] * mean[j];
						worst = std::max(worst, fabsl(m - m1[i]) / (i % 2 ? 1e-4L : 1e-3L));
						for(int j = 0; j <= i; j++)
						{
							ld v = 0;
							for(int p = 0; p < 4; p++)
								for(int q = 0; q < 4; q++)
									v += R[i][p] * cov[p][q] * R[j][q];
							worst = std::max(worst, fabsl(v - c1[i][j]) / ((i % 2 ? 1e-4L : 1e-3L) * (j % 2 ? 1e-4L : 1e-3L)));
						}
					}
					best = std::min(best, worst);
				}
				SIM_CHECK(best < 1e-10L, "transform:rotation", "turning the frame by %.9g about z does not turn the slices' means and second moments (off by %.3Lg)", a, best);
			}
			rebased++;
			break;
		}
		case 6:
		{
			if(n < 2)
				break;
			const bool wake = sim::chance(1, 2);
			const double V = sim::sreal(0.2) * (double) P0 * std::pow(10.0, -(double) sim::range(0, 4)), ph = sim::sreal(3.2), len = sim::real(0.2, 3);
			sim::ev("%s %.9g %.9g %.9g", wake ? "wake field" : "cavity", V, ph, len);
			AcceleratorModelConstructor mc;
			mc.NewModel();
			Wake wp;
			AcceleratorComponent* c = wake ? (AcceleratorComponent*) new Drift("D", len) : new TWRFStructure("C", len, 1.3e9, V / len, ph);
			if(wake)
				c->SetWakePotentials(&wp);
			mc.AppendComponent(*c);
			std::unique_ptr<AcceleratorModel> model(mc.GetModel());
			b.SortByCT();
			std::vector<View> s0 = view();
			SMPTracking::SMPTracker tr(model->GetBeamline(), &b, false);
			if(wake)
				tr.AddProcess(new SMPTracking::WakeFieldProcess(1, 1e-5));
			tr.Track(&b);
			std::vector<View> s1 = view();
			const ld P1 = b.GetReferenceMomentum();
			ld Q = 0, gain = 0;
			for(size_t i = 0; i < s1.size(); i++)
			{
				Q += s1[i].q;
				gain += s1[i].q * (P1 * (1 + s1[i].c[5]) - P0 * (1 + s0[i].c[5]));
				SIM_CHECK(s1[i].c[4] == s0[i].c[4], "acceleration:time", "slice %zu changed its ct", i);
				if(!wake)
				{
					const ld g = (ld) V * cosl((ld) ph - 2 * M_PIl * 1.3e9L / (ld) PhysicalConstants::SpeedOfLight * s0[i].c[4]);
					SIM_CHECK(near(P1 * (1 + s1[i].c[5]), P0 * (1 + s0[i].c[5]) + g, P0, 1e-10L), "acceleration:momentum", "a cavity giving %.9Lg GeV left a slice with %.17Lg instead of %.17Lg",
						g, P1 * (1 + s1[i].c[5]), P0 * (1 + s0[i].c[5]) + g);
				}
			}
			if(wake)
				SIM_CHECK(near(P1 - P0, gain / Q, P0, 1e-10L), "loss:reference", "a wake changed the mean momentum by %.12Lg GeV/c and the reference by %.12Lg", gain / Q, P1 - P0);
			else
				SIM_CHECK(near(P1, P0 + (ld) V * cosl((ld) ph), P0, 1e-11L), "acceleration:reference", "a cavity giving %.9Lg GeV made %.17Lg of %.17Lg", (ld) V * cosl((ld) ph), P1, P0);
			SIM_CHECK(near(b.GetReferenceTime(), T0 + c->GetLength(), fabsl(T0) + 1, 1e-12L), "acceleration:reference-time", "%.17g m made reference time %.17g of %.17Lg", c->GetLength(),
				b.GetReferenceTime(), T0);
			rebased++;
			break;
		}
		}
		check_moments(b, view(), 1e-10L);
		ld h = 0;
		for(auto& x : view())
			h += x.c[4] + 3 * x.c[5] + x.c[0];
		double hd = (double) h;
		sim::mix(sim::hash_bytes(&hd, 8));
		sim::probe(sim::fmt("op.%d", op).c_str());
		sim::steps(1);
	}
	if(rebased && n)
		sim::nontrivial();
	sim::done();
}
