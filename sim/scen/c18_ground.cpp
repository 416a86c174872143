// C18: supports, movers and frames of a drawn machine are moved in drawn orders, by hand and by
// ground-motion models, with questions and tracking in between (so what is cached is stale at
// drawn moments).  Where everything is follows from the present offsets and settings alone.
#include <algorithm>
#include <fstream>
#include "pose.h"
#include "RandomNG.h"
#include "SimpleATL.h"
#include "ATL2D.h"
using namespace gen;

namespace
{
struct Sup
{
	AcceleratorSupport* s;
	int node;
	bool second;
};
struct Move1
{
	int node, what;
	double v;
};
struct Rig
{
	Plan P;
	Machine M;
	Geometry G;
	std::vector<Sup> sup;
	std::vector<Move1> moves;
	pld round = 0, amp = 0;
	explicit Rig(const Plan& p) : P(p), M(build(p, false)), G(p)
	{
		for(size_t n = 1; n < G.node.size(); n++)
		{
			if(G.node[n].h != 0)
				round += 2e-15L / fabsl(G.node[n].h);
			if(G.node[n].kind != 3 && G.node[n].kind != 4)
				continue;
			SupportStructure* st = dynamic_cast<SupportStructure*>(frame((int) n));
			AcceleratorSupportList l;
			const int k = st->ExportSupports(l);
			SIM_CHECK(k == (int) l.size() && k == (G.node[n].kind == 4 ? 2 : 1), "support:count", "%s has %d supports, %zu exported", st->GetName().c_str(), k,
				l.size());
			for(int i = 0; i < k; i++)
				sup.push_back(Sup{l[i], (int) n, i == 1});
		}
		round += 3e-14L * (1 + P.L.length());
	}
	LatticeFrame* frame(int n) const { return M.frames[G.node[n].frame]; }
	MagnetMover* mover(int n) const { return dynamic_cast<MagnetMover*>(frame(n)); }
	void read_supports()
	{
		for(auto& s : sup)
		{
			const Vector3D v = s.s->GetOffset();
			pld* o = s.second ? G.node[s.node].off2 : G.node[s.node].off1;
			o[0] = v.x;
			o[1] = v.y;
			o[2] = v.z;
		}
		for(auto& n : G.node)
			for(int i = 0; i < 3; i++)
				amp = std::max(amp, std::max(fabsl(n.off1[i]), fabsl(n.off2[i])));
	}
	Pose seen(int n) const { return pose_of(frame(n)->GetPhysicalTransform()); }
	std::vector<Pose> all() const
	{
		std::vector<Pose> r;
		for(size_t n = 1; n < G.node.size(); n++)
			r.push_back(seen((int) n));
		return r;
	}
	// offsets large against the length of a girder leave room in how it tilts
	pld slack(int n) const
	{
		pld s = 0;
		for(; n > 0; n = G.node[n].parent)
			if(G.node[n].kind == 4 && G.node[n].len > 1e-9)
			{
				pld d = 0;
				for(int i = 0; i < 3; i++)
					d = std::max(d, fabsl(G.node[n].off1[i] - G.node[n].off2[i]));
				s += 4 * d * d / (G.node[n].len * G.node[n].len) * (1 + G.node[n].len);
			}
		return s;
	}
	void check_frame(int n) const
	{
		const Pose real = seen(n), model = G.actual(n);
		const pld tol = round + slack(n) * (1 + P.L.length()) + 1e-13 * amp + 1e-14 * moves.size();
		SIM_CHECK(close_pose(real, model, tol, tol), "support:place", "%s is %s, its supports and adjustments put it %s", frame(n)->GetName().c_str(),
			show(real).c_str(), show(model).c_str());
		sim::steps(1);
	}
	void check_all() const
	{
		for(size_t n = 1; n < G.node.size(); n++)
			check_frame((int) n);
	}
	void check_positions() const
	{
		for(auto& s : sup)
		{
			const Node& N = G.node[s.node];
			const Pose at = N.kind == 3 ? G.reference(s.node) : s.second ? G.exit_ref(s.node) : G.entrance_ref(s.node);
			const pld arc = G.arc(s.node) + (N.kind == 3 ? N.o : s.second ? N.len : 0);
			const Point2D l = s.s->GetLocation();
			SIM_CHECK(fabsl(s.s->GetArcPosition() - arc) <= round && fabsl(l.x - at.x[0]) <= 3 * round && fabsl(l.y - at.x[2]) <= 3 * round,
				"support:position", "a support of %s is at %.15g (%.15g %.15g), should be %.15Lg (%.15Lg %.15Lg)", frame(s.node)->GetName().c_str(),
				s.s->GetArcPosition(), l.x, l.y, arc, at.x[0], at.x[2]);
		}
	}
	std::unique_ptr<ParticleBunch> track(const BeamSpec& S) const
	{
		std::unique_ptr<ParticleBunch> b(make_bunch<ProtonBunch>(S, P.L.p0, 1));
		ParticleTracker t(M.model->GetBeamline());
		t.Track(b.get());
		return b;
	}
};
bool same_bunch(const ParticleBunch& a, const ParticleBunch& b)
{
	if(a.size() != b.size())
		return false;
	auto x = a.begin();
	for(auto y = b.begin(); y != b.end(); ++x, ++y)
		if(!same_bits(*x, *y))
			return false;
	return true;
}
// a machine that has known nothing but the present settings
void check_fresh(const Rig& R, const BeamSpec& S)
{
	Rig F(R.P);
	for(size_t i = 0; i < R.sup.size(); i++)
		F.sup[i].s->SetOffset(R.sup[i].s->GetOffset());
	for(size_t n = 1; n < R.G.node.size(); n++)
		if(MagnetMover* m = R.mover((int) n))
		{
			F.mover((int) n)->SetX(m->GetX());
			F.mover((int) n)->SetY(m->GetY());
			F.mover((int) n)->SetRoll(m->GetRoll());
		}
	for(auto& m : R.moves)
		apply(F.frame(m.node), m.what, m.v);
	// asked in another order
	std::vector<int> order;
	for(size_t n = 1; n < R.G.node.size(); n++)
		order.insert(order.begin() + sim::draw(order.size() + 1), (int) n);
	for(int n : order)
	{
		const Pose a = R.seen(n), b = F.seen(n);
		SIM_CHECK(close_pose(a, b, 1e-15 * (1 + R.P.L.length()), 3e-16), "support:history", "%s is %s, with the same settings from the start it is %s",
			R.frame(n)->GetName().c_str(), show(a).c_str(), show(b).c_str());
	}
	std::unique_ptr<ParticleBunch> x = R.track(S), y = F.track(S);
	auto p = x->begin();
	for(auto q = y->begin(); q != y->end(); ++p, ++q)
		SIM_CHECK(close6(*p, *q, 1e-9, 1e-14), "support:beam", "the beam arrives at %s, with the same settings from the start at %s", show(*p).c_str(),
			show(*q).c_str());
}
Plan drawn_plan(int nmax)
{
	Opts o;
	o.kinds = {DRIFT, QUAD, SBEND, SEXT, BPMK, XCORK, MARKER};
	o.nmin = 1;
	o.nmax = nmax;
	const Lattice L = gen_lattice(o);
	Plan P = gen_plan(L, 6, false, 3);
	for(auto& op : P.ops)
		if(op.k == Op::OPEN && op.i < 3 && sim::chance(1, 2))
			op.i = 3 + (int) sim::draw(3);
	describe(P);
	return P;
}
double offset()
{
	static const double a[] = {1e-4, 1e-6, 1e-9, 1e-3};
	return sim::sreal(a[sim::draw(4)]);
}
}

SCENARIO(supports)
{
	sim::heap_config(sim::heap_random());
	Plan P = drawn_plan(7);
	if(std::none_of(P.ops.begin(), P.ops.end(), [](const Op& o) { return o.k == Op::OPEN && o.i > 2; }))
	{
		P.ops.insert(P.ops.begin(), Op{Op::OPEN, 3 + (int) sim::draw(3), "G", {0, 0, 0, 0, 0, 0}});
		P.ops.push_back(Op{Op::CLOSE, 0, "", {0, 0, 0, 0, 0, 0}});
	}
	Rig R(P);
	const BeamSpec S = gen_beam(1, 3, 1e-3, 1e-4, 1e-3, 1e-4);
	AcceleratorSupportList all;
	R.M.model->GetAcceleratorSupports(all);
	SIM_CHECK(all.size() == R.sup.size(), "support:list", "%zu supports listed, the machine has %zu", all.size(), R.sup.size());
	for(auto& s : R.sup)
		SIM_CHECK(std::count(all.begin(), all.end(), s.s) == 1, "support:list", "a support of %s is listed %ld times", R.frame(s.node)->GetName().c_str(),
			(long) std::count(all.begin(), all.end(), s.s));
	R.check_positions();
	const std::vector<Pose> start = R.all();
	R.check_all();
	const std::unique_ptr<ParticleBunch> undisturbed = R.track(S);
	const int nn = (int) R.G.node.size();
	std::vector<int> movers;
	for(int n = 1; n < nn; n++)
		if(R.mover(n))
			movers.push_back(n);
	const int nops = (int) sim::range(1, sim::tier_thorough() ? 30 : 14);
	for(int k = 0; k < nops; k++)
	{
		sim::steps(1);
		switch(sim::draw(7))
		{
		case 0:
		case 1:
			if(R.sup.empty())
				break;
			{
				const Sup& s = R.sup[sim::draw(R.sup.size())];
				// two supports at one place move together, others sometimes
				const bool thin = R.G.node[s.node].kind == 4 && (R.G.node[s.node].len < 1e-9 || sim::chance(1, 4));
				const double x = offset(), y = offset(), z = offset();
				const int how = (int) sim::draw(3);
				sim::ev("support %d of %s %s %.17g %.17g %.17g", (int) s.second, thin ? (R.frame(s.node)->GetName() + " (both)").c_str() : R.frame(s.node)->GetName().c_str(), how == 0 ? "to" : how == 1 ? "by" : "reset", x, y,
					z);
				const Vector3D old = s.s->GetOffset();
				const bool vec = sim::chance(1, 2);
				for(auto& q : R.sup)
					if(q.s == s.s || (thin && q.node == s.node))
					{
						if(how == 0)
							q.s->SetOffset(x, y, z);
						else if(how == 1 && vec)
							q.s->IncrementOffset(x, y, z);
						else if(how == 1)
							q.s->IncrementOffset(Vector3D(x, y, z));
						else
							q.s->Reset();
					}
				const Vector3D now = s.s->GetOffset();
				const double e[3] = {how == 0 ? x : how == 1 ? old.x + x : 0, how == 0 ? y : how == 1 ? old.y + y : 0, how == 0 ? z : how == 1 ? old.z + z : 0};
				SIM_CHECK(now.x == e[0] && now.y == e[1] && now.z == e[2], "support:offset", "offset %.17g %.17g %.17g, should be %.17g %.17g %.17g", now.x, now.y,
					now.z, e[0], e[1], e[2]);
				R.read_supports();
				sim::nontrivial();
				break;
			}
		case 2:
			if(movers.empty())
				break;
			{
				const int n = movers[sim::draw(movers.size())];
				MagnetMover* m = R.mover(n);
				const double v = offset();
				const int what = (int) sim::draw(4);
				sim::ev("mover %s %s %.17g", m->GetName().c_str(), what == 3 ? "reset" : what == 2 ? "roll" : what ? "y" : "x", v);
				if(what == 3)
				{
					m->Reset();
					for(int i = 0; i < 3; i++)
						R.G.node[n].mover[i] = 0;
				}
				else
				{
					R.G.node[n].mover[what] = v;
					if(what == 0)
						m->SetX(v);
					else if(what == 1)
						m->SetY(v);
					else
						m->SetRoll(v);
				}
				SIM_CHECK(m->GetX() == (double) R.G.node[n].mover[0] && m->GetY() == (double) R.G.node[n].mover[1] && fabsl(m->GetRoll() -
					R.G.node[n].mover[2]) <= 1e-15, "support:mover", "mover %s is at %.17g %.17g %.17g", m->GetName().c_str(), m->GetX(), m->GetY(), m->GetRoll());
				sim::nontrivial();
				break;
			}
		case 3:
		{
			const Move1 m{1 + (int) sim::draw(nn - 1), (int) sim::draw(6), offset()};
			sim::ev("%s: %s%c %.17g", R.frame(m.node)->GetName().c_str(), m.what < 3 ? "along " : "about ", 'x' + m.what % 3, m.v);
			apply(R.frame(m.node), m.what, m.v);
			R.moves.push_back(m);
			R.G.node[m.node].local = R.G.node[m.node].local * (m.what < 3 ? shift(m.what == 0 ? m.v : 0, m.what == 1 ? m.v : 0, m.what == 2 ? m.v : 0) :
				turn(m.what - 3, m.v));
			break;
		}
		case 4:
		{
			const int n = 1 + (int) sim::draw(nn - 1);
			sim::ev("%s asked", R.frame(n)->GetName().c_str());
			R.check_frame(n);
			break;
		}
		case 5:
			sim::ev("all asked");
			R.check_all();
			break;
		case 6:
			sim::ev("tracked");
			(void) R.track(S);
			break;
		}
	}
	sim::ev("compared with a fresh machine");
	check_fresh(R, S);
	R.check_all();
	R.check_positions();
	for(auto& s : R.sup)
		s.s->Reset();
	for(int n : movers)
		R.mover(n)->Reset();
	for(int n = 1; n < nn; n++)
		R.frame(n)->ClearTransform();
	for(int n = 1; n < nn; n++)
		SIM_CHECK(same_pose_bits(R.seen(n), start[n - 1]), "support:reset", "%s did not return to its undisturbed place", R.frame(n)->GetName().c_str());
	SIM_CHECK(same_bunch(*R.track(S), *undisturbed), "support:reset_beam", "the beam did not return to its undisturbed path");
}

namespace
{
// either ground-motion model behind one face
struct Ground
{
	std::unique_ptr<SimpleATL> a;
	std::unique_ptr<ATL2D> b;
	double step(double dt) { return a ? a->DoStep(dt) : b->DoStep(dt); }
	double time() { return a ? a->GetTime() : b->GetTime(); }
	void reset() { a ? a->Reset() : b->Reset(); }
	void seed(unsigned s) { a ? a->SetRandomSeed(s) : b->SetRandomSeed(s); }
	unsigned seed() { return a ? a->GetRandomSeed() : b->GetRandomSeed(); }
	void reseed() { a ? a->ResetRandomSeed() : b->ResetRandomSeed(); }
	void record(std::ostream& os) { a ? a->RecordOffsets(os) : b->RecordOffsets(os); }
};
struct Spec
{
	bool two;            // ATL2D
	bool inc;
	double A, vib;
	Point2D ref;
};
Ground make_ground(const Spec& s, const AcceleratorSupportList& l, double scaleA = 1, double scalev = 1)
{
	Ground g;
	if(s.two)
	{
		g.b.reset(new ATL2D(s.A * scaleA, l, s.ref));
		if(s.vib != 0)
			SIM_CHECK(g.b->SetVibration(s.vib * scalev), "ground:vibration", "vibration refused");
		if(s.inc)
			SIM_CHECK(g.b->SetATLMode(ATL2D::increment), "ground:mode", "mode refused");
	}
	else
		g.a.reset(new SimpleATL(s.A * scaleA, l, s.vib * scalev));
	return g;
}
std::vector<Vector3D> offsets(const std::vector<Sup>& sup)
{
	std::vector<Vector3D> r;
	for(auto& s : sup)
		r.push_back(s.s->GetOffset());
	return r;
}
bool same_v(const Vector3D& a, const Vector3D& b)
{
	return a.x == b.x && a.y == b.y && a.z == b.z;
}
}

SCENARIO(ground)
{
	sim::heap_config(sim::heap_random());
	Plan P = drawn_plan(6);
	bool any = false;
	for(auto& op : P.ops)
		if(op.k == Op::OPEN && (op.i == 3 || op.i == 4))
			any = true;
	if(!any)
	{
		P.ops.insert(P.ops.begin(), Op{Op::OPEN, 3 + (int) sim::draw(2), "G", {0, 0, 0, 0, 0, 0}});
		P.ops.push_back(Op{Op::CLOSE, 0, "", {0, 0, 0, 0, 0, 0}});
	}
	for(size_t i = 0; i < P.ops.size(); i++)     // girders of no length cannot tilt
		if(P.ops[i].k == Op::OPEN && P.ops[i].i == 4)
		{
			double len = 0;
			int depth = 1;
			for(size_t j = i + 1; j < P.ops.size() && depth; j++)
			{
				depth += P.ops[j].k == Op::OPEN ? 1 : P.ops[j].k == Op::CLOSE ? -1 : 0;
				if(P.ops[j].k == Op::COMP)
					len += P.L.el[P.ops[j].i].len;
			}
			if(len < 1e-3)
				P.ops[i].i = 3;
		}
	Rig R(P);
	const uint32_t seed = (uint32_t) sim::draw(1u << 30);
	RandomNG::init(seed);
	// the supports the model is given: a drawn selection in a drawn order
	const bool some = sim::chance(1, 3);
	std::vector<int> listed;
	for(size_t i = 0; i < R.sup.size(); i++)
		if(!some || sim::chance(2, 3))
			listed.insert(listed.begin() + (sim::chance(1, 3) ? sim::draw(listed.size() + 1) : listed.size()), (int) i);
	if(listed.empty())
		listed.push_back(0);
	AcceleratorSupportList L;
	for(int i : listed)
		L.push_back(R.sup[i].s);
	bool ties = false;
	for(int i : listed)
		for(int j : listed)
			if(i != j && std::fabs(R.sup[i].s->GetArcPosition() - R.sup[j].s->GetArcPosition()) < 1e-9)
				ties = true;
	Spec s;
	s.two = sim::chance(1, 2);
	s.inc = s.two && sim::chance(1, 2);
	s.A = sim::pick(std::vector<double>{1e-18, 4e-18, 1e-16, 1e-14});
	s.vib = !s.inc && sim::chance(1, 3) ? 1e-9 * sim::range(1, 100) : 0;
	s.ref = sim::chance(1, 2) ? Point2D(0, 0) : sim::chance(1, 2) ? L[sim::draw(L.size())]->GetLocation() : Point2D(sim::sreal(10), sim::sreal(10));
	const unsigned gseed = (unsigned) sim::draw(5);
	sim::ev("%s%s A=%g vibration %g on %zu of %zu supports, reference %.9g %.9g, seed %u", s.two ? "2D" : "simple", s.inc ? " increments" : "", s.A, s.vib,
		L.size(), R.sup.size(), s.ref.x, s.ref.y, gseed);
	std::vector<Vector3D> by_hand(R.sup.size(), Vector3D(0, 0, 0));
	for(size_t i = 0; i < R.sup.size(); i++)
		if(sim::chance(1, 3))
		{
			by_hand[i] = Vector3D(offset(), offset(), offset());
			if(std::find(listed.begin(), listed.end(), (int) i) == listed.end())
				R.sup[i].s->SetOffset(by_hand[i]);
		}
	Ground g = make_ground(s, L);
	if(gseed || sim::chance(1, 2))
		g.seed(gseed);
	SIM_CHECK(g.seed() == gseed, "ground:seed", "seed %u reads back as %u", gseed, g.seed());
	const int n = (int) sim::range(1, 8);
	std::vector<double> dts;
	std::vector<std::vector<Vector3D> > hist;
	double t = 0;
	for(int k = 0; k < n; k++)
	{
		const double dt = sim::chance(1, 6) ? 0 : sim::pick(std::vector<double>{1, 10, 0.2, 3600, 1e5});
		dts.push_back(dt);
		const double r = g.step(dt);
		t += dt;
		sim::steps(dt);
		SIM_CHECK(r == t && g.time() == t, "ground:time", "after %.17g seconds the model says %.17g and %.17g", t, r, g.time());
		const std::vector<Vector3D> now = offsets(R.sup);
		for(size_t i = 0; i < now.size(); i++)
		{
			sim::ev("step %.17g support %zu: %.17g %.17g %.17g", dt, i, now[i].x, now[i].y, now[i].z);
			if(std::find(listed.begin(), listed.end(), (int) i) == listed.end())
				SIM_CHECK(same_v(now[i], by_hand[i]), "ground:other", "ground motion moved a support it was not given");
			else
				SIM_CHECK(std::isfinite(now[i].y) && now[i].x == 0 && now[i].z == 0, "ground:offset", "a support is displaced by %g %g %g", now[i].x, now[i].y,
					now[i].z);
		}
		if(s.vib == 0)
			for(int i : listed)
				for(int j : listed)
				{
					const Point2D p = R.sup[i].s->GetLocation(), q = R.sup[j].s->GetLocation();
					if(p.x == q.x && p.y == q.y && std::fabs(R.sup[i].s->GetArcPosition() - R.sup[j].s->GetArcPosition()) == 0)
						SIM_CHECK(std::fabs(now[i].y - now[j].y) <= 1e-6 * (k + 1) * std::sqrt(s.A * 1e5 * 8 * (P.L.length() + 20)), "ground:together",
							"two supports at one place moved by %.17g and %.17g", now[i].y, now[j].y);
				}
		if(dt == 0 && k > 0 && !s.two && s.vib == 0)
			for(int i : listed)
				SIM_CHECK(now[i].y == hist.back()[i].y, "ground:still", "a support moved from %.17g to %.17g in no time", hist.back()[i].y, now[i].y);
		if(s.inc && dt == 0 && k > 0)
			for(int i : listed)
				SIM_CHECK(now[i].y == hist.back()[i].y, "ground:still", "a support moved from %.17g to %.17g in no time", hist.back()[i].y, now[i].y);
		hist.push_back(now);
		R.read_supports();
		if(sim::chance(1, 2))
			R.check_all();
	}
	std::ostringstream os;
	os.precision(3);
	g.record(os);
	const std::string rec = os.str();
	SIM_CHECK((size_t) std::count(rec.begin(), rec.end(), '\n') == L.size(), "ground:record", "%ld lines for %zu supports", (long) std::count(rec.begin(),
		rec.end(), '\n'), L.size());
	SIM_CHECK(os.precision() == 3 && os.flags() == std::ostringstream().flags(), "ground:record", "the stream's format was changed");
	R.check_all();
	sim::nontrivial();
	// again, after other use of the random streams
	auto replay = [&](Ground& h, const std::vector<Sup>& sup, const char* what, double scale) {
		for(int k = 0; k < n; k++)
		{
			h.step(dts[k]);
			const std::vector<Vector3D> now = offsets(sup);
			for(int i : listed)
				SIM_CHECK(now[i].y == scale * hist[k][i].y, "ground:again", "%s: step %d moves support %d to %.17g, was %.17g", what, k, i, now[i].y, scale * hist[k][i].y);
			sim::steps(dts[k]);
		}
	};
	const int again = (int) sim::range(1, 3);
	for(int k = 0; k < again; k++)
	{
		const int other = (int) sim::draw(4);
		for(int i = 0; i < other; i++)
		{
			RandomNG::normal(0, 1);
			RandomNG::getLocalGenerator(hash_string("something else"))();
		}
		switch(sim::draw(6))
		{
		case 0:
			sim::ev("the same model again");
			g.reset();
			SIM_CHECK(g.time() == 0, "ground:reset", "time %g after resetting", g.time());
			for(int i : listed)
				SIM_CHECK(same_v(R.sup[i].s->GetOffset(), Vector3D(0, 0, 0)), "ground:reset", "a support is not at zero after resetting");
			g.reseed();
			replay(g, R.sup, "the same model again", 1);
			break;
		case 1:
			sim::ev("seeded anew");
			g.reset();
			if(sim::chance(1, 2))
			{
				g.seed(gseed + 77);
				g.step(1);
				g.reset();
			}
			g.seed(gseed);
			replay(g, R.sup, "seeded anew", 1);
			break;
		case 2:
		{
			sim::ev("another model of the same kind");
			for(int i : listed)
				R.sup[i].s->Reset();
			Ground h = make_ground(s, L);
			h.seed(gseed);
			if(sim::chance(1, 2))
				h.reseed();
			replay(h, R.sup, "another model of the same kind", 1);
			break;
		}
		case 3:
		{
			sim::ev("another machine after seeding everything again");
			Rig Q(P);
			AcceleratorSupportList l;
			for(int i : listed)
				l.push_back(Q.sup[i].s);
			RandomNG::init(seed);
			Ground h = make_ground(s, l);
			h.seed(gseed);
			replay(h, Q.sup, "another machine", 1);
			break;
		}
		case 4:
		{
			sim::ev("four times the motion");
			for(int i : listed)
				R.sup[i].s->Reset();
			Ground h = make_ground(s, L, 4, 2);
			h.seed(gseed);
			replay(h, R.sup, "four times the constant", 2);
			break;
		}
		case 5:
			if(!s.two && !(ties && s.vib != 0))
			{
				sim::ev("supports in another order");
				AcceleratorSupportList l(L.rbegin(), L.rend());
				for(int i : listed)
					R.sup[i].s->Reset();
				Ground h = make_ground(s, l);
				h.seed(gseed);
				replay(h, R.sup, "supports in another order", 1);
			}
			else if(s.two)
			{
				// the eigensystem kept in files
				sim::ev("from recorded files");
				const std::string fv = sim::path("evec"), fe = sim::path("eval");
				{
					std::ofstream ov(fv), oe(fe);
					g.b->RecordEigenSystem(&ov, &oe);
				}
				const bool cut = sim::chance(1, 3);
				if(cut)
				{
					const std::string& f = sim::chance(1, 2) ? fv : fe;
					std::string c = sim::get_file(f);
					std::vector<size_t> ends;
					for(size_t i = 0; i + 1 < c.size(); i++)
						if(!isspace((unsigned char) c[i]) && isspace((unsigned char) c[i + 1]))
							ends.push_back(i + 1);
					const size_t keep = sim::draw(ends.size());       // whole numbers kept
					c.resize(keep ? ends[keep - 1] : 0);
					sim::put_file(f, c);
					sim::ev("%zu of %zu numbers kept", keep, ends.size());
					sim::fault("truncated_file");
				}
				for(int i : listed)
					R.sup[i].s->Reset();
				std::ifstream iv(fv), ie(fe);
				Ground h;
				try
				{
					h.b.reset(new ATL2D(s.A, L, s.ref, &iv, &ie));
				}
				catch(std::exception& e)
				{
					SIM_CHECK(cut, "ground:files", "recorded files refused: %s", e.what());
					sim::probe("cut_files_refused");
				}
				if(!h.b)
					break;
				SIM_CHECK(!cut, "ground:files_cut", "a truncated eigensystem was taken");
				if(s.vib != 0)
					h.b->SetVibration(s.vib);
				if(s.inc)
					h.b->SetATLMode(ATL2D::increment);
				h.seed(gseed);
				double scale = 0;
				for(int k2 = 0; k2 < n; k2++)
					for(int i : listed)
						scale = std::max(scale, std::fabs(hist[k2][i].y));
				for(int k2 = 0; k2 < n; k2++)
				{
					h.step(dts[k2]);
					for(int i : listed)
						SIM_CHECK(std::fabs(R.sup[i].s->GetOffset().y - hist[k2][i].y) <= 1e-9 * scale, "ground:files",
							"from recorded files step %d moves support %d to %.17g, was %.17g", k2, i, R.sup[i].s->GetOffset().y, hist[k2][i].y);
				}
			}
			break;
		}
	}
}
