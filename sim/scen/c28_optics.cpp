// C28: a drawn history of optics computations and surveys on one machine, with objects that are
// kept or new, stopped by exceptions and failing allocations; every result is compared bit by bit
// with that of new objects on a newly built machine, and at the end the machine is tracked through.
#include "frames.h"
#include "chop.h"
#include "ClosedOrbit.h"
#include "TransferMatrix.h"
#include "LatticeFunctions.h"
#include "Dispersion.h"
#include "BetatronTunes.h"
#include "EquilibriumDistribution.h"
#include "PhaseAdvance.h"
#include "StableOrbits.h"
#include "ApertureSurvey.h"
#include "HollowELensProcess.h"
#include "HollowElectronLens.h"
#include "CollimateParticleProcess.h"
#include "ElectronBunch.h"
#include "MatrixPrinter.h"
#include "RandomNG.h"
#include <algorithm>
#include <cxxabi.h>
#include <memory>
#include <new>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
using namespace gen;

namespace
{
// a process that can be told to stop the tracking
struct Stopper: public ParticleBunchProcess
{
	long at = -1;
	struct Stop: public MerlinException
	{
		Stop() : MerlinException("stop") {}
	};
	Stopper() : ParticleBunchProcess("STOPPER", 9) {}
	void SetCurrentComponent(AcceleratorComponent&) override { active = true; }
	double GetMaxAllowedStepSize() const override { return 1e30; }
	void DoProcess(double) override
	{
		if(at >= 0 && at-- == 0)
			throw Stop();
	}
};
enum What { CO, RMSORBIT, TM, TMPART, COTM, LFT, LFTDERIV, DISP, RMSDISP, TUNES, DAMPING, MOMENT, SURVEY, NWHAT };
const char* wname(int w)
{
	static const char* n[] = {"closed orbit", "rms orbit", "transfer matrix", "transfer matrix of a part", "closed orbit and matrix", "lattice functions", "derivatives",
		"dispersion", "rms dispersion", "tunes", "damping", "beam moment", "aperture survey"};
	return n[w];
}
struct Req
{
	int what = 0;
	int keep = 0;               // with the object kept for it
	bool transverse = true, rad = false, sympl = false, stab = false, given = false, givenM = false, diffusion = false, file = false, lens = false;
	double delta = 1e-9, bend = 0, radstep = 0, survey = 1;
	int radn = 1, iter = 20, n = 0, n2 = 0, funcs = 0, turns = 64, mode = 0;
	PSvector orbit = PSvector(0);
};
struct Objects
{
	std::unique_ptr<ClosedOrbit> co;
	Stopper* stop = nullptr;
	std::unique_ptr<TransferMatrix> tm;
	std::unique_ptr<LatticeFunctionTable> lft;
	std::unique_ptr<Dispersion> disp;
	std::unique_ptr<BetatronTunes> tunes;
	std::unique_ptr<EquilibriumDistribution> eq;
	int funcs = -1;
};
struct Values
{
	std::vector<double> v;
	std::string s, how;
	void add(double d) { v.push_back(d); }
	void add(const PSvector& p)
	{
		for(int i = 0; i < 6; i++)
			add(p[i]);
	}
	void add(RealMatrix& m)
	{
		for(size_t i = 0; i < (size_t) m.nrows(); i++)
			for(size_t j = 0; j < (size_t) m.ncols(); j++)
				add(m(i, j));
	}
};
// every number a computation gives; exceptions are results too
Values compute(const Req& o, Machine& M, Objects& O, double p0, bool fresh, long stop, HollowELensProcess* lens)
{
	Values r;
	AcceleratorModel* m = M.model.get();
	Objects mine;
	Objects& X = fresh ? mine : O;
	try
	{
		switch(o.what)
		{
		case CO:
		case RMSORBIT:
		{
			if(!X.co)
			{
				X.co.reset(new ClosedOrbit(m, p0));
				X.stop = nullptr;
			}
			if(!X.stop)
			{
				std::unique_ptr<Stopper> s(new Stopper);
				X.co->AddProcess(s.get());
				X.stop = s.release();
			}
			X.stop->at = stop;
			ClosedOrbit& co = *X.co;
			PSvector p = o.orbit;
			if(o.what == RMSORBIT)
				co.FindRMSOrbit(p);
			else
			{
				co.TransverseOnly(o.transverse);
				co.Radiation(o.rad);
				if(o.radstep > 0)
					co.SetRadStepSize(o.radstep);
				else
					co.SetRadNumSteps(o.radn);
				co.SetDelta(o.delta);
				co.SetMaxIterations(o.iter);
				co.ScaleBendPathLength(o.bend);
				co.FindClosedOrbit(p, o.n);
				r.add(co.w);
				r.add(co.iter);
			}
			r.add(p);
			break;
		}
		case TM:
		case TMPART:
		case COTM:
		{
			if(!X.tm)
				X.tm.reset(new TransferMatrix(m, p0));
			TransferMatrix& tm = *X.tm;
			tm.Radiation(o.rad);
			if(o.radstep > 0)
				tm.SetRadStepSize(o.radstep);
			else
				tm.SetRadNumSteps(o.radn);
			tm.SetDelta(o.delta);
			tm.ScaleBendPathLength(o.bend);
			tm.SetObservationPoint(o.n);
			RealMatrix R(6);
			PSvector p = o.orbit;
			if(o.what == COTM)
				tm.FindClosedOrbitTM(R, p);
			else if(o.what == TMPART)
				tm.FindTM(R, p, std::min(o.n, o.n2), std::max(o.n, o.n2));
			else if(o.given)
				tm.FindTM(R, p);
			else
				tm.FindTM(R);
			r.add(R);
			r.add(p);
			break;
		}
		case LFT:
		case LFTDERIV:
		{
			if(!X.lft)
			{
				X.lft.reset(new LatticeFunctionTable(m, p0));
				X.funcs = -1;
			}
			LatticeFunctionTable& t = *X.lft;
			if(X.funcs != o.funcs)
			{
				X.funcs = -1;
				if(o.funcs == 0)
					t.UseDefaultFunctions();
				else if(o.funcs == 1)
					t.UseOrbitFunctions();
				else
				{
					t.RemoveAllFunctions();
					t.AddFunction(1, 0, 0);
					t.AddFunction(1, 1, 1);
					t.AddFunction(3, 3, 2);
					t.AddFunction(0, 0, 1);
					t.AddFunction(0, 0, 2);
					if(o.funcs == 3)
						t.AddFunction(5, 5, 1);
				}
				X.funcs = o.funcs;
			}
			t.SetDelta(o.delta);
			t.MakeTMSymplectic(o.sympl);
			t.SetForceLongitudinalStability(o.stab);
			t.ScaleBendPathLength(o.bend);
			PSvector p = o.orbit;
			if(o.what == LFTDERIV)
				t.CalculateEnergyDerivative();
			else if(o.givenM)
			{
				RealMatrix R(6);
				TransferMatrix tm(m, p0);
				tm.FindTM(R, p);
				t.Calculate(&p, &R);
			}
			else
				t.Calculate(o.given ? &p : nullptr);
			int rows, cols;
			t.Size(rows, cols);
			r.add(rows);
			r.add(cols);
			for(int i = 0; i < rows; i++)
			{
				r.add(t.Value(0, 0, 0, i));
				r.add(t.Value(1, 0, 0, i));
				if(o.funcs != 1)
				{
					r.add(t.Value(1, 1, 1, i));
					r.add(t.Value(3, 3, 2, i));
				}
				if(o.funcs >= 2)
				{
					r.add(t.Value(0, 0, 1, i));
					r.add(t.Value(0, 0, 2, i));
				}
			}
			std::ostringstream s;
			t.PrintTable(s);
			r.s = s.str();
			r.add(t.Mean(1, 0, 0));
			r.add(t.RMS(1, 0, 0));
			break;
		}
		case DISP:
		case RMSDISP:
		{
			if(!X.disp)
				X.disp.reset(new Dispersion(m, p0));
			X.disp->SetDelta(o.delta);
			if(o.what == DISP)
			{
				X.disp->FindDispersion(o.n);
				r.add(X.disp->Dx);
				r.add(X.disp->Dxp);
				r.add(X.disp->Dy);
				r.add(X.disp->Dyp);
			}
			else
			{
				std::ostringstream s;
				X.disp->FindRMSDispersion(o.file ? &s : nullptr);
				r.add(X.disp->DxRMS);
				r.add(X.disp->DyRMS);
				r.s = s.str();
			}
			break;
		}
		case TUNES:
		{
			if(!X.tunes)
				X.tunes.reset(new BetatronTunes(m, p0));
			X.tunes->SetHELProcess(lens);
			PSvector p = o.orbit;
			X.tunes->FindTunes(p, o.turns, o.diffusion);
			r.add(X.tunes->GetQx());
			r.add(X.tunes->GetQy());
			r.add(X.tunes->GetdQx());
			r.add(X.tunes->GetdQy());
			break;
		}
		case DAMPING:
		case MOMENT:
		{
			if(!X.eq)
				X.eq.reset(new EquilibriumDistribution(m, p0));
			X.eq->CalculateDampingConstants();
			for(int i = 0; i < 3; i++)
			{
				r.add(X.eq->DampingConstant(i));
				r.add(X.eq->Tune(i));
			}
			r.add(X.eq->SynchronousTime());
			if(o.what == MOMENT)
			{
				X.eq->CalculateEmittance();
				for(int i = 0; i < 3; i++)
					r.add(X.eq->Emittance(i));
				r.add(X.eq->BeamMoment(0, 0, o.n));
			}
			break;
		}
		case SURVEY:
		{
			const ApertureSurvey::SurveyType mode = o.mode == 0 ? ApertureSurvey::points_per_element : o.mode == 1 ? ApertureSurvey::distance : ApertureSurvey::abs_distance;
			if(o.file)
			{
				ApertureSurvey::ApertureSurvey(m, sim::path("survey.txt"), mode, o.survey);
				r.s = sim::get_file("survey.txt");
			}
			else
			{
				std::ostringstream s;
				ApertureSurvey::ApertureSurvey(m, &s, mode, o.survey);
				r.s = s.str();
			}
			break;
		}
		}
		r.how = "done";
	}
	catch(std::bad_alloc&)
	{
		throw;
	}
	catch(Stopper::Stop&)
	{
		throw;
	}
	catch(std::exception& e)
	{
		r = Values();
		r.how = typeid(e).name();
	}
	catch(...) // the linear algebra's errors have no base class
	{
		r = Values();
		r.how = abi::__cxa_current_exception_type()->name();
	}
	return r;
}
bool same(const Values& a, const Values& b)
{
	return a.how == b.how && a.s == b.s && a.v.size() == b.v.size() && (a.v.empty() || !std::memcmp(a.v.data(), b.v.data(), a.v.size() * sizeof(double)));
}
Lattice ring(bool clean)
{
	Lattice L;
	L.p0 = sim::pick(std::vector<double>{1.0, 3.0, 5.0});
	const int cells = (int) sim::range(1, sim::tier_thorough() ? 5 : 3);
	const bool rf = !clean && sim::chance(1, 2), bends = sim::chance(3, 4), sol = !clean && sim::chance(1, 3), cor = !clean && sim::chance(1, 2), sext = sim::chance(1, 2), thick = sim::chance(1, 2);
	const double f = sim::real(1.2, 4), g = f * sim::real(0.75, 1.3);
	int k = 0;
	auto add = [&](int kind, double len, double s1, double s2 = 0, double s3 = 0)
		{
			El e = El();
			e.kind = kind;
			e.len = len;
			e.s1 = s1;
			e.s2 = s2;
			e.s3 = s3;
			e.name = sim::fmt("E%d", k++);
			L.el.push_back(e);
		};
	const double lq = thick ? 0.4 : 0.05, angle = sim::real(0.01, 0.2);
	for(int c = 0; c < cells; c++)
		for(int h = 0; h < 2; h++)
		{
			add(QUAD, lq, (h ? -1 / g : 1 / f) / lq);
			if(sext && sim::chance(1, 2))
				add(SEXT, 0.2, sim::sreal(5));
			add(DRIFT, 0.3, 0);
			if(bends)
				add(SBEND, 1.0, angle, sim::chance(1, 4) ? 0.05 : 0, angle / 2);
			else
				add(DRIFT, 1.0, 0);
			if(bends && sim::chance(1, 4))
				L.el.back().faces = 1 + (int) sim::draw(2);
			if(cor && sim::chance(1, 2))
				add(sim::chance(1, 2) ? XCORK : YCORK, 0.1, sim::sreal(1e-4));
			if(sol && c == 0 && !h)
				add(SOL, 0.3, sim::sreal(0.1));
			if(sim::chance(1, 4))
				add(sim::chance(1, 2) ? MARKER : BPMK, 0, 0);
			add(DRIFT, 0.2, 0);
		}
	if(rf)
		add(TWRF, 0.5, sim::real(0.1, 3), M_PI / 2 + sim::sreal(0.1));
	for(auto& e : L.el)
		if(e.len > 0 && sim::chance(1, 4))
			e.ap = ApSpec{2, sim::real(5e-3, 3e-2), sim::real(5e-3, 3e-2), 0, 0};
	return L;
}
Req draw_req(const Lattice& L, bool rf, int focus)
{
	Req o;
	o.what = focus >= 0 && sim::chance(5, 6) ? focus : (int) sim::draw(NWHAT);
	o.keep = sim::chance(focus >= 0 ? 5 : 2, focus >= 0 ? 6 : 3);
	o.transverse = !rf || sim::chance(1, 2);
	o.rad = sim::chance(1, 4);
	o.sympl = sim::chance(1, 4);
	o.given = sim::chance(1, 3);
	o.givenM = o.given && sim::chance(1, 2);
	o.diffusion = sim::chance(1, 2);
	o.file = sim::chance(1, 2);
	o.lens = sim::chance(1, 3);
	o.delta = sim::pick(std::vector<double>{1e-9, 1e-8, 1e-6});
	o.bend = sim::chance(1, 4) ? sim::sreal(1e-3) : 0;
	o.stab = !rf && o.bend == 0 && sim::chance(1, 3);
	o.radstep = sim::chance(1, 3) ? 0.25 : 0;
	o.radn = (int) sim::range(1, 3);
	o.iter = sim::chance(1, 2) ? 20 : (int) sim::range(2, 6);
	o.n = (int) sim::draw(L.el.size());
	o.n2 = (int) sim::draw(L.el.size());
	o.funcs = (int) sim::draw(4);
	o.turns = sim::chance(1, 12) ? 20 : sim::chance(1, 2) ? 64 : 16;
	o.mode = (int) sim::draw(3);
	o.survey = o.mode == 0 ? (double) sim::range(1, 4) : sim::real(0.05, 1);
	if(sim::chance(1, 2))
		for(int i = 0; i < 4; i++)
			o.orbit[i] = sim::sreal(1e-4);
	if(o.what == TUNES && sim::chance(1, 5))
		o.orbit[0] = o.orbit[2] = sim::chance(1, 2) ? 1e15 : 1e200; // has no tune
	return o;
}
// The beam goes round (or through part of) the machine
PSvector passage(const AcceleratorModel::RingIterator* ring, AcceleratorModel::Beamline* line, const PSvector& p, double p0)
{
	ParticleBunch b(p0, 1);
	b.push_back(p);
	if(ring)
	{
		ParticleTracker t(*ring, &b, false);
		t.Track(&b);
	}
	else
	{
		ParticleTracker t(*line, &b, false);
		t.Track(&b);
	}
	return b.FirstParticle();
}
// what was computed agrees with what particles do
void agree(const Req& o, const Values& a, Machine& M, const Lattice& L, bool clean, double p0)
{
	AcceleratorModel* m = M.model.get();
	const double* v = a.v.data();
	const bool plain = !o.rad && o.bend == 0;
	if(a.how != "done")
		return;
	bool bends = false;
	for(auto& e : L.el)
		bends = bends || e.kind == SBEND;
	auto vec = [&](const double* x)
		{
			PSvector p(0);
			for(int i = 0; i < 6; i++)
				p[i] = x[i];
			return p;
		};
	switch(o.what)
	{
	case CO:
	{
		// the time of arrival is not determined without bends
		if(!plain || !(v[0] < 1e-22) || (!o.transverse && !bends))
			return;
		const PSvector p = vec(v + 2);
		AcceleratorModel::RingIterator r = m->GetRing(o.n);
		const PSvector q = passage(&r, nullptr, p, p0);
		for(int i = 0; i < (o.transverse ? 4 : 6); i++)
			SIM_CHECK(std::fabs(q[i] - p[i]) <= (o.transverse ? 1e-9 : 1e-7), "optics:closed", "the closed orbit %s comes back as %s", show(p).c_str(), show(q).c_str());
		sim::probe("orbit.closed");
		break;
	}
	case TM:
	case TMPART:
	case COTM:
	{
		if(!plain)
			return;
		const PSvector p = o.what == TM && !o.given ? PSvector(0) : vec(v + 36);
		if(o.what == TM && !o.given && !clean)
			return;
		PSvector d(0), e = p;
		double norm = 0, size = 0;
		for(int i = 0; i < 6; i++)
		{
			d[i] = sim::sreal(1e-7);
			e[i] += d[i];
		}
		AcceleratorModel::RingIterator r = m->GetRing(o.n);
		AcceleratorModel::Beamline b = o.what == TMPART ? m->GetBeamline(std::min(o.n, o.n2), std::max(o.n, o.n2)) : m->GetBeamline();
		const PSvector x = passage(o.what == TMPART ? nullptr : &r, &b, p, p0), y = passage(o.what == TMPART ? nullptr : &r, &b, e, p0);
		for(int i = 0; i < 36; i++)
			norm = std::max(norm, std::fabs(v[i]));
		for(int i = 0; i < 6; i++)
			size = std::max(size, std::fabs(x[i]));
		if(norm > 1e5)
			return;
		for(int i = 0; i < 6; i++)
		{
			double s = 0;
			for(int k = 0; k < 6; k++)
				s += v[i * 6 + k] * d[k];
			SIM_CHECK(std::fabs(y[i] - x[i] - s) <= norm * norm * 1e-10 + size * 1e-12 + 1e-15, "optics:matrix", "a displacement %s becomes %.17g in coordinate %d, the matrix says %.17g", show(d).c_str(), y[i] - x[i], i, s);
		}
		sim::probe("matrix.tracked");
		break;
	}
	case LFT:
	{
		if(o.given || o.bend != 0 || o.funcs == 1 || !clean || (o.stab && !bends)) // without bends the longitudinal motion has no normal form
			return;
		RealMatrix R(6);
		PSvector p(0);
		TransferMatrix tm(m, p0);
		tm.FindTM(R, p);
		const double cx = (R(0, 0) + R(1, 1)) / 2, cy = (R(2, 2) + R(3, 3)) / 2;
		if(std::fabs(cx) > 0.9 || std::fabs(cy) > 0.9 || std::fabs(cx - cy) < 0.1)
			return;
		const int rows = (int) v[0], n = o.funcs >= 2 ? 6 : 4;
		SIM_CHECK((size_t) rows == L.el.size() + 1, "optics:rows", "%d rows for %zu elements", rows, L.el.size());
		double s = 0;
		const double* z = v + 2 + (rows - 1) * n;
		for(int i = 0; i < rows; i++)
		{
			const double* w = v + 2 + i * n;
			SIM_CHECK(close(w[0], s, 1e-12, 1e-12), "optics:position", "row %d is at %.17g instead of %.17g", i, w[0], s);
			SIM_CHECK(w[2] > 0 && w[3] > 0, "optics:beta", "beta is %g, %g in row %d", w[2], w[3], i);
			if(i + 1 < rows)
				s += L.el[i].len;
		}
		SIM_CHECK(close(z[2], v[4], 1e-3, 0) && close(z[3], v[5], 1e-3, 0), "optics:periodic", "beta is %.12g, %.12g at the start and %.12g, %.12g a turn later", v[4], v[5], z[2], z[3]);
		if(n == 6)
			SIM_CHECK(std::fabs(cos(2 * M_PI * z[4]) - cx) < 1e-3 && std::fabs(cos(2 * M_PI * z[5]) - cy) < 1e-3, "optics:phase", "phase advances %.12g, %.12g, traces %.12g, %.12g", z[4], z[5], cx, cy);
		// beta from the matrix
		SIM_CHECK(close(v[4], std::fabs(R(0, 1)) / sqrt(1 - cx * cx), 1e-2, 0) && close(v[5], std::fabs(R(2, 3)) / sqrt(1 - cy * cy), 1e-2, 0), "optics:matrix_beta", "beta %.12g, %.12g, the matrix says %.12g, %.12g", v[4], v[5],
			std::fabs(R(0, 1)) / sqrt(1 - cx * cx), std::fabs(R(2, 3)) / sqrt(1 - cy * cy));
		sim::probe("lattice.functions");
		break;
	}
	case DISP:
	{
		if(!clean)
			return;
		RealMatrix R(6);
		PSvector p(0);
		TransferMatrix tm(m, p0);
		tm.SetObservationPoint(o.n);
		tm.FindTM(R, p);
		for(int i = 0; i < 4; i++)
		{
			double s = R(i, 5) - v[i], norm = 1;
			for(int k = 0; k < 4; k++)
			{
				s += R(i, k) * v[k];
				norm = std::max(norm, std::fabs(R(i, k) * v[k]));
			}
			SIM_CHECK(std::fabs(s) < 1e-4 * norm, "optics:dispersion", "dispersion (%.9g %.9g %.9g %.9g) changes by %.9g in coordinate %d over a turn", v[0], v[1], v[2], v[3], s, i);
		}
		sim::probe("dispersion");
		break;
	}
	case TUNES:
	{
		SIM_CHECK((o.turns & (o.turns - 1)) == 0, "optics:turns", "tunes from %d turns", o.turns);
		if(o.orbit[0] != 0 && o.orbit[2] != 0)
			SIM_CHECK(!std::isnan(v[0]) && !std::isnan(v[1]) && !std::isnan(v[2]) && !std::isnan(v[3]), "optics:no_tune", "tunes %g, %g, changes %g, %g of a particle that moves", v[0], v[1], v[2], v[3]);
		if(o.orbit[0] > 1 && clean) // rotated frames bring such slopes back to finite ones
			SIM_CHECK(v[0] == 0 && v[1] == 0, "optics:no_tune", "tunes %g, %g of a particle far out of the machine", v[0], v[1]);
		if(!clean || o.turns != 64 || !(std::fabs(o.orbit[0]) > 1e-6 && std::fabs(o.orbit[2]) > 1e-6) || o.orbit[0] > 1)
			return;
		RealMatrix R(6);
		PSvector p(0);
		TransferMatrix tm(m, p0);
		tm.FindTM(R, p);
		const double cx = (R(0, 0) + R(1, 1)) / 2, cy = (R(2, 2) + R(3, 3)) / 2;
		if(std::fabs(cx) > 0.9 || std::fabs(cy) > 0.9)
			return;
		sim::probe("tunes");
		SIM_CHECK(std::fabs(cos(2 * M_PI * v[0]) - cx) < 0.05 && std::fabs(cos(2 * M_PI * v[1]) - cy) < 0.05, "optics:tune", "tunes %.9g, %.9g, the matrix says %.9g, %.9g", v[0], v[1], acos(cx) / 2 / M_PI,
			acos(cy) / 2 / M_PI);
		break;
	}
	case SURVEY:
	{
		std::istringstream in(a.s);
		std::string line;
		std::getline(in, line);
		double s = 0, last = -o.survey;
		for(auto& e : L.el)
		{
			if(e.len == 0)
				continue;
			std::vector<double> z;
			if(o.mode == 0)
				for(int i = 0; i < (int) o.survey; i++)
					z.push_back(i ? i * e.len / ((int) o.survey - 1) : 0);
			else if(o.mode == 1)
			{
				for(double x = 0; x <= e.len; x += o.survey)
					z.push_back(x);
				z.push_back(e.len);
			}
			else
				while(last + o.survey < s + e.len)
				{
					last += o.survey;
					z.push_back(last - s);
				}
			for(double x : z)
			{
				SIM_CHECK((bool) std::getline(in, line), "optics:survey", "the survey ends before %s", e.name.c_str());
				std::istringstream f(line);
				std::string name, type;
				double end, len, at, lim[4];
				f >> name >> type >> end >> len >> at >> lim[0] >> lim[1] >> lim[2] >> lim[3];
				SIM_CHECK(!!f && name == e.name && close(end, s + e.len, 1e-4, 1e-5) && close(len, e.len, 1e-4, 1e-5) && close(at, s + x, 1e-4, 1e-5), "optics:survey", "%s at %g in %s at %g", line.c_str(), x, e.name.c_str(), s);
				for(int i = 0; i < 4; i++)
				{
					const double want = e.ap.kind == 0 ? 1 : i < 2 ? e.ap.a : e.ap.b;
					SIM_CHECK(std::fabs(lim[i] - want) < 3e-6 + 1e-5 * want, "optics:survey", "aperture %d of %s is %g instead of %g", i, e.name.c_str(), lim[i], want);
				}
			}
			s += e.len;
		}
		SIM_CHECK(!std::getline(in, line), "optics:survey", "an extra row %s", line.c_str());
		sim::probe("survey");
		break;
	}
	}
}
}

SCENARIO(optics)
{
	sim::context("optics");
	RandomNG::init(3);
	const bool clean = sim::chance(1, 2); // no coupling and no orbit
	const Lattice L = ring(clean);
	const bool rf = L.el.back().kind == TWRF;
	Plan P = sim::chance(1, 2) ? gen_plan(L, 6, false) : plan_flat(L);
	if(!clean)
		gen_moves(P, 3, 1e-4);
	describe(P);
	struct Here // optics computations leave files in the current directory
	{
		const int was = open(".", O_RDONLY | O_DIRECTORY);
		Here() { if(was < 0 || chdir(sim::scratch().c_str())) abort(); }
		~Here() { if(fchdir(was)) abort(); close(was); }
	} here;
	auto machine = [&]
		{
			AcceleratorModelConstructor c;
			c.NewModel();
			Machine M = build(P, c);
			double s = 0;
			AcceleratorModel::Beamline b = M.model->GetBeamline();
			for(auto i = b.begin(); i != b.end(); ++i)
				if((*i)->IsComponent())
				{
					(*i)->GetComponent().SetComponentLatticePosition(s);
					s += (*i)->GetComponent().GetLength();
				}
			return M;
		};
	Machine M = machine();
	Objects O;
	const int nops = (int) sim::range(2, sim::tier_thorough() ? 12 : 6);
	const int focus = sim::chance(1, 2) ? (int) sim::draw(NWHAT) : -1;
	// an electron lens process that belongs to somebody else
	std::unique_ptr<HollowELensProcess> ours(new HollowELensProcess(4));
	for(int i = 0; i < nops; i++)
	{
		Req o = draw_req(L, rf, focus);
		sim::ev("%s%s rad=%d/%g/%d delta=%g bend=%g n=%d/%d funcs=%d sympl=%d stab=%d given=%d/%d turns=%d iter=%d", wname(o.what), o.keep ? " (kept)" : "", o.rad, o.radstep, o.radn, o.delta,
			o.bend, o.n, o.n2, o.funcs, o.sympl, o.stab, o.given, o.givenM, o.turns, o.iter);
		HollowELensProcess* lens = o.lens ? ours.get() : nullptr;
		sim::context(wname(o.what));
		sim::mix(o.what * 2 + o.keep);
		// it may be stopped first
		const int fault = (int) sim::draw(6);
		if(fault == 0)
		{
			sim::heap_fail_at(1 + sim::draw(sim::chance(1, 2) ? 60 : 3000));
			try
			{
				compute(o, M, O, L.p0, !o.keep, -1, lens);
			}
			catch(std::bad_alloc&)
			{
				sim::fault("allocation.failure");
			}
			sim::heap_fail_clear();
			sim::ev("memory");
		}
		else if(fault == 1)
		{
			try
			{
				compute(o, M, O, L.p0, !o.keep, (long) sim::draw(40), lens);
			}
			catch(Stopper::Stop&)
			{
				sim::fault("process.exception");
				sim::ev("stopped");
			}
		}
		Values a = compute(o, M, O, L.p0, !o.keep, -1, lens);
		sim::ev("%s, %zu numbers", a.how.c_str(), a.v.size());
		Machine N = machine();
		Objects none;
		Values b = compute(o, N, none, L.p0, true, -1, lens);
		size_t k = 0;
		while(k < a.v.size() && k < b.v.size() && !std::memcmp(&a.v[k], &b.v[k], sizeof(double)))
			k++;
		SIM_CHECK(same(a, b), "optics:repeat", "%s: number %zu is %.17g, and %.17g with new objects on a new machine (%s, %s)", wname(o.what), k, k < a.v.size() ? a.v[k] : 0., k < b.v.size() ? b.v[k] : 0.,
			a.how.c_str(), b.how.c_str());
		if(a.how == "done")
			sim::probe("computed");
		sim::context("agreement");
		agree(o, a, N, L, clean, L.p0);
		sim::nontrivial();
	}
	// the machine is what it was
	sim::context("tracking after optics");
	Machine N = machine();
	BeamSpec s = gen_beam(1, 5, 1e-4, 1e-4, 1e-3, 1e-4);
	std::unique_ptr<ParticleBunch> x(make_bunch<ParticleBunch>(s, L.p0, 1)), y(make_bunch<ParticleBunch>(s, L.p0, 1));
	ParticleTracker t(M.model->GetBeamline(), x.get(), false), u(N.model->GetBeamline(), y.get(), false);
	t.Track(x.get());
	u.Track(y.get());
	bool eq = x->size() == y->size();
	for(auto p = x->begin(), q = y->begin(); eq && p != x->end(); ++p, ++q)
		eq = same_bits(*p, *q);
	SIM_CHECK(eq, "optics:machine", "after optics computations a bunch is tracked differently");
	sim::steps(L.length() * nops);
}

// phase advances over a ring of many cells, where the tunes have passed whole numbers
SCENARIO(optics_phase)
{
	sim::context("optics phase");
	struct Here
	{
		const int was = open(".", O_RDONLY | O_DIRECTORY);
		Here() { if(was < 0 || chdir(sim::scratch().c_str())) abort(); }
		~Here() { if(fchdir(was)) abort(); close(was); }
	} here;
	const double p0 = sim::range(1, 50), brho = p0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight;
	AcceleratorModelConstructor c;
	c.NewModel();
	const int cells = (int) sim::range(1, sim::tier_thorough() ? 24 : 12), drifts = (int) sim::range(1, 3);
	const double lq = sim::real(0.1, 0.5), ld = sim::real(0.5, 2);
	std::vector<Quadrupole*> quads;
	std::vector<double> len;
	auto put = [&](auto* e)
		{
			e->SetComponentLatticePosition(len.empty() ? 0 : len.back());
			len.push_back((len.empty() ? 0 : len.back()) + e->GetLength());
			c.AppendComponent(e);
		};
	std::vector<std::string> names;
	for(int i = 0; i < cells; i++)
		for(int q = 0; q < 2; q++)
		{
			names.push_back(sim::fmt("Q%d%d", i, q));
			quads.push_back(new Quadrupole(names.back(), lq, 0));
			put(quads.back());
			for(int d = 0; d < drifts; d++)
			{
				names.push_back(sim::fmt("D%d%d%d", i, q, d));
				put(new Drift(names.back(), ld / drifts));
			}
		}
	std::unique_ptr<AcceleratorModel> model(c.GetModel());
	const int rows = (int) names.size() + 1;
	LatticeFunctionTable table(model.get(), p0);
	table.SetForceLongitudinalStability(false);
	table.RemoveAllFunctions();
	table.AddFunction(1, 1, 1);
	table.AddFunction(0, 0, 1);
	table.AddFunction(0, 0, 2);
	PhaseAdvance phase(model.get(), &table, p0);
	int done = 0;
	for(int round = (int) sim::range(1, 3); round-- > 0;)
	{
		// a working point: thin lens estimate of the cell phase
		const double mu[2] = {sim::real(0.05, 0.45), sim::real(0.05, 0.45)};
		const double kf = 2 * sin(M_PI * mu[0]) / (ld + lq) / lq, kd = 2 * sin(M_PI * mu[1]) / (ld + lq) / lq;
		for(size_t i = 0; i < quads.size(); i++)
			quads[i]->SetFieldStrength((i % 2 ? -kd : kf) * brho);
		// one cell by itself
		double cell[2];
		{
			RealMatrix R(6);
			PSvector p(0);
			TransferMatrix tm(model.get(), p0);
			tm.FindTM(R, p, 0, 2 * (1 + drifts) - 1);
			const double cx = (R(0, 0) + R(1, 1)) / 2, cy = (R(2, 2) + R(3, 3)) / 2;
			if(std::fabs(cx) > 0.95 || std::fabs(cy) > 0.95 || std::fabs(cx - cy) < 0.02)
				continue;
			cell[0] = acos(cx) / 2 / M_PI;
			cell[1] = acos(cy) / 2 / M_PI;
		}
		const double turn[2] = {cells * cell[0], cells * cell[1]};
		bool near = false; // at whole and half tunes the ring has no normal form, at equal tunes the planes are not told apart
		for(int k = 0; k < 2; k++)
			near = near || std::fabs(turn[k] * 2 - std::round(turn[k] * 2)) < 0.06;
		near = near || std::fabs(cos(2 * M_PI * turn[0]) - cos(2 * M_PI * turn[1])) < 0.05;
		if(near)
			continue;
		sim::ev("%d cells, tunes %.9g %.9g", cells, turn[0], turn[1]);
		sim::mix(cells * 64 + (int) turn[0] * 8 + (int) turn[1]);
		sim::mix((uint64_t) (turn[0] * 100) * 1000 + (uint64_t) (turn[1] * 100));
		if(sim::chance(1, 3)) // a calculation that runs out of memory leaves nothing behind
		{
			sim::heap_fail_at(1 + sim::draw(2000));
			try
			{
				table.Calculate();
			}
			catch(std::bad_alloc&)
			{
				sim::fault("allocation.failure");
			}
			sim::heap_fail_clear();
		}
		table.Calculate();
		int r, cols;
		table.Size(r, cols);
		SIM_CHECK(r == rows, "optics:rows", "%d rows for %d elements", r, rows - 1);
		// unwrapped: an element advances the phase by less than a turn
		std::vector<double> at[2];
		for(int k = 0; k < 2; k++)
		{
			double last = 0, sum = 0;
			for(int i = 0; i < rows; i++)
			{
				const double v = table.Value(0, 0, k + 1, i);
				double d = v - last;
				if(d < -1e-6)
					d += 1;
				SIM_CHECK(d > -1e-6 && d < 0.5, "optics:phase", "the phase advances by %.12g to row %d", d, i);
				sum += d;
				at[k].push_back(sum);
				last = v;
			}
			SIM_CHECK(std::fabs(sum - turn[k]) < 1e-3, "optics:phase", "the phase over %d cells is %.12g instead of %.12g", cells, sum, turn[k]);
			for(int i = 0; i <= cells; i++)
				SIM_CHECK(std::fabs(at[k][i * 2 * (1 + drifts)] - i * cell[k]) < 1e-3, "optics:phase", "the phase after %d cells is %.12g instead of %.12g", i, at[k][i * 2 * (1 + drifts)], i * cell[k]);
			if(sum > 1)
				sim::probe("tune.above.one");
		}
		for(int q = 0; q < 12; q++)
		{
			int n1 = (int) sim::draw(rows), n2 = (int) sim::draw(rows);
			const bool hor = sim::chance(1, 2);
			double got, want;
			const int how = (int) sim::draw(5);
			if(how == 1)
				n1 = 0;
			else if(how >= 3)
			{
				n1 = std::min(n1, rows - 2);
				n2 = std::min(n2, rows - 2);
			}
			if(how == 4)
				n1 = 0;
			const std::vector<double>& a = at[hor ? 0 : 1];
			want = a[n2] - a[n1];
			got = how == 0 ? phase.PhaseAdvanceBetween(n1, n2, hor) : how == 1 ? phase.PhaseAdvanceBetween(n2, hor) : how == 2 ? (hor ? phase.GetPhaseAdvanceX(n2, n1) : phase.GetPhaseAdvanceY(n2, n1)) :
				how == 3 ? phase.PhaseAdvanceBetween(names[n1], names[n2], hor) : phase.PhaseAdvanceBetween(names[n2], hor);
			SIM_CHECK(std::fabs(got - want) < 1e-6, "optics:advance", "the %s phase advance from %d to %d of %d is %.12g instead of %.12g", hor ? "horizontal" : "vertical", n1, n2, rows, got, want);
			sim::probe("advance");
		}
		done++;
	}
	if(done)
		sim::nontrivial();
	sim::steps(rows * done);
}

// the particles that survive some turns, all together and one by one
SCENARIO(optics_stable)
{
	sim::context("stable orbits");
	struct Here
	{
		const int was = open(".", O_RDONLY | O_DIRECTORY);
		Here() { if(was < 0 || chdir(sim::scratch().c_str())) abort(); }
		~Here() { if(fchdir(was)) abort(); close(was); }
	} here;
	RandomNG::init(3);
	Opts o;
	o.kinds = {DRIFT, QUAD, QUAD, MARKER, COLL, SEXT};
	o.nmin = 2;
	o.lmax = 1;
	o.apert = 60;
	o.apsize = 2e-3;
	Lattice L = gen_lattice(o);
	L.el[sim::draw(L.el.size())].kind = DRIFT;
	describe(L);
	Built M = build(L), N = build(L);
	BeamSpec s = gen_beam(1, 12, 2e-3, 1e-3, 1e-3, 1e-3);
	StableOrbits orbits(M.model.get());
	for(int round = (int) sim::range(1, 3); round-- > 0;)
	{
		const int turns = (int) sim::range(1, 6), at = (int) sim::draw(L.el.size());
		orbits.SetTurns(turns);
		orbits.SetObservationPoint(at);
		std::list<size_t> index;
		if(sim::chance(1, 2))
			index.push_back(99);
		std::vector<size_t> want;
		std::vector<PSvector> left;
		for(size_t i = 0; i < s.p.size(); i++)
		{
			ParticleBunch b(L.p0, 1);
			b.AddParticle(s.p[i]);
			ParticleTracker t(N.model->GetRing(at), &b, false);
			t.AddProcess(new CollimateParticleProcess(1, COLL_AT_CENTER));
			bool alive = true;
			try
			{
				for(int k = 0; k < turns && b.size(); k++)
					t.Track(&b);
				alive = b.size() == 1;
			}
			catch(std::exception&) // all are lost
			{
				alive = false;
			}
			if(alive)
			{
				want.push_back(i);
				left.push_back(*b.begin());
			}
		}
		ParticleBunch all(L.p0, 1);
		for(auto& p : s.p)
			all.AddParticle(p);
		std::string how = "done";
		try
		{
			orbits.SelectStable(all, &index);
		}
		catch(std::exception& e)
		{
			how = e.what();
		}
		sim::ev("%d turns from %d: %zu of %zu stable, %s", turns, at, want.size(), s.p.size(), how.c_str());
		std::vector<size_t> got(index.begin(), index.end());
		if(want.empty() && how != "done")
			continue;
		SIM_CHECK(got == want, "optics:stable", "%zu of %zu particles are called stable over %d turns (%s), alone %zu survive", got.size(), s.p.size(), turns, how.c_str(), want.size());
		if(!want.empty() && want.size() < s.p.size())
			sim::nontrivial(), sim::probe(turns > 1 ? "some.stable.turns" : "some.stable");
		sim::mix(want.size() * 64 + s.p.size());
	}
	sim::steps(L.length());
}
