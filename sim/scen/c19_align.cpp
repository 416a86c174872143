// C19: elements and groups of a drawn machine are translated, turned, set, cleared and given
// errors in drawn orders, with questions and tracking in between.  Where every frame is, and what
// the beam then does, is computed beside it from the movements alone.
#include "pose.h"
#include "RandomNG.h"
#include "AcceleratorErrors.h"
using namespace gen;

namespace
{
double amount(bool turn)
{
	static const double a[] = {1e-4, 1e-3, 1e-6, 5e-9, 1e-2, 1e-12};
	const double v = sim::sreal(a[sim::draw(6)]);
	return turn || !sim::chance(1, 8) ? v : v * 10;
}
struct Act
{
	int what;
	double v;
};
Pose pose_of_act(const Act& a)
{
	return a.what < 3 ? shift(a.what == 0 ? a.v : 0, a.what == 1 ? a.v : 0, a.what == 2 ? a.v : 0) : turn(a.what - 3, a.v);
}
Transform3D drawn_transform()
{
	Transform3D t;
	const int n = (int) sim::range(1, 3);
	for(int i = 0; i < n; i++)
		switch(sim::draw(4))
		{
		case 0:
			t *= Transform3D::translation(amount(false), amount(false), amount(false));
			break;
		case 1:
			t *= Transform3D::rotationX(amount(true));
			break;
		case 2:
			t *= Transform3D::rotationY(amount(true));
			break;
		case 3:
			t *= Transform3D::rotationZ(amount(true));
			break;
		}
	return t;
}
struct Rig
{
	Plan P;
	Machine M;
	Geometry G;
	std::vector<std::vector<Act>> done;            // movements that can be undone, by node
	std::vector<pld> travelled;                    // how far each frame was pushed about, for the tolerance
	std::vector<Built> alone;
	pld round = 0;                                 // rounding of the placing of arcs of little curvature
	explicit Rig(const Plan& p) : P(p), M(build(p, false)), G(p), done(G.node.size()), travelled(G.node.size(), 0)
	{
		for(auto& n : G.node)
			if(n.h != 0)
				round += 2e-15L / fabsl(n.h);
		round += 3e-14L * (1 + P.L.length());
		for(auto& e : P.L.el)
		{
			Lattice one;
			one.p0 = P.L.p0;
			one.el.push_back(e);
			alone.push_back(gen::build(one));
		}
	}
	LatticeFrame* frame(int n) { return M.frames[G.node[n].frame]; }
	std::vector<Pose> seen()
	{
		std::vector<Pose> r;
		for(size_t n = 1; n < G.node.size(); n++)
			r.push_back(pose_of(frame((int) n)->GetPhysicalTransform()));
		return r;
	}
	void check_frame(int n)
	{
		const Pose real = pose_of(frame(n)->GetPhysicalTransform()), model = G.actual(n);
		pld t = 0;
		for(int k = n; k > 0; k = G.node[k].parent)
			t += travelled[k];
		SIM_CHECK(close_pose(real, model, round + 1e-14 * t, 1e-14 * (3 + t)), "align:place", "%s is %s, its movements put it %s",
			frame(n)->GetName().c_str(), show(real).c_str(), show(model).c_str());
		// the frame transformation is the difference to where it would be undisturbed
		const Pose ft = pose_of(frame(n)->GetFrameTransform()), mt = inv(G.reference(n)) * model;
		SIM_CHECK(close_pose(ft, mt, 3 * round + 1e-14 * t, 1e-14 * (3 + t)), "align:frame_transform",
			"%s is displaced by %s, its movements give %s", frame(n)->GetName().c_str(), show(ft).c_str(), show(mt).c_str());
		const bool moved = frame(n)->IsTransformed();
		if(!moved)
			SIM_CHECK(close_pose(G.node[n].local, Pose(), 1e-13, 1e-13), "align:unmoved", "%s says it was not moved", frame(n)->GetName().c_str());
	}
	// changed: the frame that moved, so nothing outside it may differ from before
	void check(const std::vector<Pose>& before, int changed)
	{
		const std::vector<Pose> now = seen();
		for(size_t n = 1; n < G.node.size(); n++)
		{
			sim::steps(1);
			if(!G.within((int) n, changed))
				SIM_CHECK(same_pose_bits(before[n - 1], now[n - 1]), "align:other", "moving %s moved %s from %s to %s", frame(changed)->GetName().c_str(), frame(
						(int) n)->GetName().c_str(), show(before[n - 1]).c_str(), show(now[n - 1]).c_str());
		}
		for(size_t n = 1; n < G.node.size(); n++)
			check_frame((int) n);
	}
	void move(int n, const Act& a)
	{
		G.node[n].local = G.node[n].local * pose_of_act(a);
		travelled[n] += fabs(a.v) + 1;
	}
	std::unique_ptr<ParticleBunch> bunch(const BeamSpec& S) { return std::unique_ptr<ParticleBunch>(make_bunch<ProtonBunch>(S, P.L.p0, 1)); }
	std::unique_ptr<ParticleBunch> track(const BeamSpec& S, bool flat, bool on_axis)
	{
		std::unique_ptr<ParticleBunch> b = bunch(S);
		ParticleTracker t(M.model->GetBeamline());
		if(flat)
			t.AssumeFlatLattice(true);
		if(on_axis)
			t.InjectBeamOnAxis(true);
		t.Track(b.get());
		return b;
	}
	// the same beam carried from element to element by the movements alone
	void check_beam(const BeamSpec& S, bool on_axis)
	{
		std::unique_ptr<ParticleBunch> b = bunch(S);
		const size_t np = b->size();
		std::vector<double> scale(np, 1e-9);
		Pose at;
		for(size_t k = 0; k <= G.beam.size(); k++)
		{
			Pose to = k < G.beam.size() ? G.entrance(G.beam[k]) : Pose() * G.along(0, G.node[0].len);
			if(!(k == 0 && on_axis))
			{
				size_t i = 0;
				for(auto it = b->begin(); it != b->end(); ++it, ++i)
				{
					pld r[4] = {it->x(), it->xp(), it->y(), it->yp()};
					to_frame(at, to, r);
					it->x() = (double) r[0];
					it->xp() = (double) r[1];
					it->y() = (double) r[2];
					it->yp() = (double) r[3];
				}
			}
			size_t i = 0;
			for(auto it = b->begin(); it != b->end(); ++it, ++i)
				for(int c = 0; c < 4; c++)
					scale[i] = std::max(scale[i], std::fabs((*it)[c]));
			if(k == G.beam.size())
				break;
			ParticleTracker t(alone[G.node[G.beam[k]].comp].model->GetBeamline());
			t.Track(b.get());
			if(b->size() != np)
				return;
			at = G.exit(G.beam[k]);
			sim::steps(1);
		}
		std::unique_ptr<ParticleBunch> r = track(S, false, on_axis);
		SIM_CHECK(r->size() == np, "align:beam_size", "%zu particles instead of %zu", r->size(), np);
		if(r->size() != np)
			return;
		auto x = r->begin();
		auto y = b->begin();
		for(size_t i = 0; i < np; i++, ++x, ++y)
		{
			if(!(scale[i] < 10))
				continue;                   // far outside anything physical
			for(int c = 0; c < 4; c++)
				SIM_CHECK(std::fabs((*x)[c] - (*y)[c]) <= 1e-9 * scale[i] + 3 * (double) round, "align:beam",
					"particle %zu arrives at %s, the movements give %s", i, show(*x).c_str(), show(*y).c_str());
		}
	}
};
struct Keep
{
	std::vector<PSvector> p;
	explicit Keep(const ParticleBunch& b) : p(b.begin(), b.end()) {}
	bool operator==(const Keep& o) const
	{
		if(p.size() != o.p.size())
			return false;
		for(size_t i = 0; i < p.size(); i++)
			if(!same_bits(p[i], o.p[i]))
				return false;
		return true;
	}
};
// AcceleratorErrors moves elements chosen by name; what it drew is read off one frame at a time
void errors(Rig& R)
{
	AcceleratorErrors E;
	std::ostringstream log;
	static const double sizes[] = {0, 1e-4, 1e-9, 1e-6, 1e-8, 1e-5};
	double rms[3], mean[3];
	for(int i = 0; i < 3; i++)
	{
		rms[i] = sizes[sim::draw(6)];
		mean[i] = sim::chance(1, 3) ? sim::sreal(1e-4) : 0;
	}
	const bool set = sim::chance(1, 2), rot = sim::chance(1, 2), report = sim::chance(1, 3);
	if(set)
		E.SetErrors(rms[0], rms[1], rms[2], mean[0], mean[1], mean[2]);
	else
		E.AddErrors(rms[0], rms[1], rms[2], mean[0], mean[1], mean[2]);
	if(report)
		E.Report(&log);
	const size_t n = R.G.beam.size();
	const bool all = sim::chance(1, 3);
	const std::string pat = all ? "*" : R.P.L.el[R.G.node[R.G.beam[sim::draw(n)]].comp].name;
	const size_t i0 = sim::chance(1, 3) ? sim::draw(n) : 0, i1 = sim::chance(1, 3) ? i0 + sim::draw(n - i0) : n - 1;
	AcceleratorModel::Beamline bl = R.M.model->GetBeamline(i0, i1);
	sim::ev("errors %s %s on '%s' in %zu-%zu rms %g %g %g mean %g %g %g", set ? "set" : "added", rot ? "turns" : "shifts", pat.c_str(), i0, i1, rms[0], rms[1],
		rms[2], mean[0], mean[1], mean[2]);
	const std::vector<Pose> before = R.seen();
	std::vector<Pose> local;
	for(size_t f = 1; f < R.G.node.size(); f++)
		local.push_back(pose_of(R.frame((int) f)->GetLocalFrameTransform()));
	if(rot)
		E.ApplyRotations(bl, pat);
	else
		E.ApplyShifts(bl, pat);
	std::vector<char> touched(R.G.node.size(), 0);
	int ntouched = 0;
	for(size_t k = i0; k <= i1; k++)
	{
		const int nd = R.G.beam[k];
		if(!all && R.P.L.el[R.G.node[nd].comp].name != pat)
			continue;
		touched[nd] = 1;
		ntouched++;
		const Pose was = set ? Pose() : local[nd - 1], is = pose_of(R.frame(nd)->GetLocalFrameTransform());
		const Pose d = inv(was) * is;
		pld e[3];
		if(rot)
		{
			e[1] = asinl(std::min((pld) 1, std::max((pld) -1, d.O[0][2])));
			e[0] = atan2l(-d.O[1][2], d.O[2][2]);
			e[2] = atan2l(-d.O[0][1], d.O[0][0]);
		}
		else
			for(int c = 0; c < 3; c++)
				e[c] = d.x[c];
		const pld tol = 1e-15L * (set ? 1 : 10 + R.travelled[nd]);
		for(int c = 0; c < 3; c++)
		{
			if(rms[c] == 0)
				SIM_CHECK(fabsl(e[c] - mean[c]) <= tol, "errors:mean", "%s got %.17Lg on axis %d, stated %.17g", R.frame(nd)->GetName().c_str(), e[c], c, mean[c]);
			else
			{
				SIM_CHECK(fabsl(e[c] - mean[c]) <= 9 * rms[c] + tol, "errors:size", "%s got %.17Lg on axis %d for rms %.17g about %.17g",
					R.frame(nd)->GetName().c_str(), e[c], c, rms[c], mean[c]);
				SIM_CHECK(fabsl(e[c] - mean[c]) > 1e-9 * rms[c] || rms[c] < 1e3 * tol, "errors:none", "%s got no error on axis %d for rms %.17g",
					R.frame(nd)->GetName().c_str(), c, rms[c]);
			}
		}
		const Pose move = rot ? turn(0, e[0]) * turn(1, e[1]) * turn(2, e[2]) : shift(e[0], e[1], e[2]);
		R.G.node[nd].local = (set ? Pose() : R.G.node[nd].local) * move;
		R.done[nd].clear();
		if(set)
			R.travelled[nd] = 0;
		R.travelled[nd] += 3;
		if(report)
			SIM_CHECK(log.str().find(R.frame(nd)->GetQualifiedName()) != std::string::npos, "errors:report", "%s is not in the report", R.frame(
					nd)->GetQualifiedName().c_str());
	}
	if(report)
	{
		int lines = 0;
		for(char c : log.str())
			lines += c == '\n';
		SIM_CHECK(lines == ntouched, "errors:report", "%d lines for %d elements", lines, ntouched);
	}
	const std::vector<Pose> now = R.seen();
	for(size_t f = 1; f < R.G.node.size(); f++)
	{
		if(!touched[f])
			SIM_CHECK(same_pose_bits(before[f - 1], now[f - 1]), "align:other", "errors on '%s' moved %s", pat.c_str(), R.frame((int) f)->GetName().c_str());
		R.check_frame((int) f);
	}
	sim::probe("errors_applied");
}
}

SCENARIO(alignment)
{
	sim::heap_config(sim::heap_random());
	Opts o;
	o.kinds = {DRIFT, QUAD, SBEND, SEXT, SOL, BPMK, XCORK, YCORK, SKEWQ, OCT, MARKER, TWRF};
	o.nmin = 1;
	o.nmax = 7;
	const Lattice L = gen_lattice(o);
	const Plan P = gen_plan(L, sim::chance(1, 2) ? 3 : 6, false, 3);
	describe(P);
	RandomNG::init((uint32_t) sim::draw(1u << 30));
	Rig R(P);
	const BeamSpec S = gen_beam(1, 5, 1e-3, 1e-4, 1e-3, 1e-4);
	const std::vector<Pose> start = R.seen();
	for(size_t n = 1; n < R.G.node.size(); n++)
		R.check_frame((int) n);
	const bool on_axis = sim::chance(1, 5);
	const Keep undisturbed(*R.track(S, false, on_axis));
	const Keep flat(*R.track(S, true, false));
	const int nn = (int) R.G.node.size();
	const int nops = (int) sim::range(1, sim::tier_thorough() ? 25 : 12);
	for(int k = 0; k < nops; k++)
	{
		const int n = 1 + (int) sim::draw(nn - 1);
		LatticeFrame* f = R.frame(n);
		const std::vector<Pose> before = R.seen();
		sim::steps(1);
		switch(sim::draw(10))
		{
		case 0:
		case 1:
		case 2:
		{
			Act a{(int) sim::draw(6), 0};
			a.v = amount(a.what > 2);
			if(a.what == 5 && sim::chance(1, 4))
				a.v = sim::pick(std::vector<double>{M_PI / 2, M_PI, -M_PI / 4, 1.0});
			sim::ev("%s: %s%c %.17g", f->GetName().c_str(), a.what < 3 ? "along " : "about ", 'x' + a.what % 3, a.v);
			apply(f, a.what, a.v);
			R.move(n, a);
			R.done[n].push_back(a);
			R.check(before, n);
			break;
		}
		case 3:
		{
			const double x = amount(false), y = amount(false), z = amount(false);
			sim::ev("%s: by %.17g %.17g %.17g", f->GetName().c_str(), x, y, z);
			if(sim::chance(1, 2))
				f->Translate(x, y, z);
			else
				f->Translate(Vector3D(x, y, z));
			for(int c = 0; c < 3; c++)
			{
				const Act a{c, c == 0 ? x : c == 1 ? y : z};
				R.move(n, a);
				R.done[n].push_back(a);
			}
			R.check(before, n);
			break;
		}
		case 4:
		{
			const Transform3D t = drawn_transform();
			const bool set = sim::chance(1, 2);
			sim::ev("%s: transform %s %s", f->GetName().c_str(), set ? "set" : "applied", show(pose_of(t)).c_str());
			if(set)
			{
				f->SetLocalFrameTransform(t);
				R.G.node[n].local = Pose();
				R.travelled[n] = 0;
			}
			else
				f->ApplyLocalFrameTransform(t);
			R.G.node[n].local = R.G.node[n].local * pose_of(t);
			R.travelled[n] += 3;
			R.done[n].clear();
			R.check(before, n);
			break;
		}
		case 5:
			sim::ev("%s: cleared", f->GetName().c_str());
			if(sim::chance(1, 2))
				f->ClearLocalFrameTransform();
			else
				f->ClearTransform();
			R.G.node[n].local = Pose();
			R.travelled[n] = 0;
			R.done[n].clear();
			SIM_CHECK(!f->IsTransformed(), "align:clear", "%s is still transformed after clearing", f->GetName().c_str());
			R.check(before, n);
			break;
		case 6:
		{
			size_t m = R.done[n].size();
			if(sim::chance(1, 3) && m)
				m = 1 + sim::draw(m);
			sim::ev("%s: last %zu movements undone", f->GetName().c_str(), m);
			for(; m; m--)
			{
				Act a = R.done[n].back();
				R.done[n].pop_back();
				a.v = -a.v;
				apply(f, a.what, a.v);
				R.move(n, a);
				sim::probe("undone");
			}
			R.check(before, n);
			break;
		}
		case 7:
			errors(R);
			break;
		case 8:
			// a question on its own must not change an answer
			sim::ev("%s asked", f->GetName().c_str());
			R.check_frame(n);
			(void) f->GetEntrancePlaneTransform();
			(void) f->GetExitPlaneTransform();
			R.check(before, n);
			break;
		case 9:
			sim::ev("tracked");
			R.check_beam(S, false);
			sim::probe("tracked_while_misaligned");
			break;
		}
	}
	sim::nontrivial();
	sim::ev("tracked at the end%s", on_axis ? " injected on axis" : "");
	R.check_beam(S, on_axis);
	SIM_CHECK(Keep(*R.track(S, true, false)) == flat, "align:flat", "a lattice taken as flat tracks differently after movements");
	// clear everything, in a drawn order
	std::vector<int> order;
	for(int n = 1; n < nn; n++)
		order.insert(order.begin() + sim::draw(order.size() + 1), n);
	for(int n : order)
		R.frame(n)->ClearLocalFrameTransform();
	for(int n = 1; n < nn; n++)
		SIM_CHECK(same_pose_bits(pose_of(R.frame(n)->GetPhysicalTransform()), start[n - 1]), "align:cleared", "%s did not return to where it was",
			R.frame(n)->GetName().c_str());
	SIM_CHECK(Keep(*R.track(S, false, on_axis)) == undisturbed, "align:cleared_beam", "the beam did not return to its undisturbed path");
}
