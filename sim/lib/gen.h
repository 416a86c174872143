// Workload generation: lattices and bunches as plain descriptions, from which any
// number of identical models can be built (under different memory conditions).
#ifndef VSIM_GEN_H
#define VSIM_GEN_H
#include "sim.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorModel.h"
#include "Components.h"
#include "SectorBend.h"
#include "Solenoid.h"
#include "TWRFStructure.h"
#include "SWRFStructure.h"
#include "TransverseRFStructure.h"
#include "StandardMultipoles.h"
#include "CorrectorDipoles.h"
#include "Collimator.h"
#include "CollimatorAperture.h"
#include "Aperture.h"
#include "InterpolatedApertures.h"
#include "DataTable.h"
#include "BPM.h"
#include "Marker.h"
#include "Drift.h"
#include "RMSProfileMonitor.h"
#include "ParticleBunch.h"
#include "ProtonBunch.h"
#include "ElectronBunch.h"
#include "ParticleTracker.h"
#include "PhysicalUnits.h"
#include "PhysicalConstants.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "ComponentFrame.h"
#include "BunchProcess.h"
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace gen
{
using namespace ParticleTracking;
enum Kind { DRIFT, MARKER, QUAD, SBEND, SEXT, SOL, BPMK, COLL, XCORK, YCORK, SKEWQ, OCT, TWRF, TRANSRF, SWRF, NKIND };

struct ApSpec
{
	// 0 none 1 circle 2 rectangle 3 ellipse 4 rect-ellipse 5 collimator jaws 6 tapered, shifted, tilted jaws
	// 7 shifted and tilted parallel jaws 8 one jaw 9 octagon 10 interpolated circle 11 interpolated rect-ellipse
	int kind;
	double a, b, c, d;             // at the entrance
	double a2, b2, c2, d2;         // at the exit
	double ox, oy, ox2, oy2, tilt; // jaws
	bool side;
};
struct El
{
	int kind;
	double len;
	double s1, s2, s3;  // strengths
	double mpt;
	int faces;          // pole faces on bends, 0 none
	ApSpec ap;
	std::string name;
};
struct Lattice
{
	double p0;          // GeV
	std::vector<El> el;
	double length() const
	{
		double s = 0;
		for(auto& e : el)
			s += e.len;
		return s;
	}
};
inline bool has_len(int k)
{
	return k != MARKER;
}
inline const char* kname(int k)
{
	static const char* n[] = {"drift", "marker", "quad", "sbend", "sext", "sol", "bpm", "coll", "xcor", "ycor", "skewq",
							  "oct", "twrf", "transrf", "swrf"};
	return n[k];
}
struct Opts
{
	std::vector<int> kinds;
	int nmin, nmax;
	double lmin, lmax;
	int apert;             // percentage of elements with an aperture
	double apsize;         // typical half aperture
	bool thin_ok;          // zero-length elements allowed
	bool simple_names;     // unique names only
	bool more_ap = false;  // also apertures that vary along the element
	Opts() : kinds{DRIFT, MARKER, QUAD, SBEND, SEXT, SOL, BPMK, COLL, XCORK, YCORK}, nmin(1), nmax(12), lmin(0.05), lmax(
			4), apert(0), apsize(5e-3), thin_ok(true), simple_names(false)
	{
	}
};
inline double awkward_length(double lo, double hi)
{
	switch(sim::draw(6))
	{
	case 0:
		return lo + (hi - lo) / 4 > 1 ? 1.0 : lo + (hi - lo) / 4;
	case 1:
		return 0.1 * (double) sim::range((int64_t) std::ceil(lo * 10), (int64_t) std::floor(hi * 10));
	case 2:
		return (double) sim::range(1, (int64_t) std::max(1.0, std::floor(hi)));
	case 3:
		return sim::real(lo, hi);
	case 4:
		return sim::real(lo, hi) / 3.0;
	default:
		return sim::real(lo, hi) * 1.0000000000000002;
	}
}
inline ApSpec gen_aperture(double sz)
{
	ApSpec a = ApSpec();
	a.kind = 1 + (int) sim::draw(4);
	a.a = sz * sim::real(1, 0.2);
	a.b = sz * sim::real(1, 0.2);
	a.c = sz * sim::real(1, 0.2);
	a.d = sz * sim::real(1, 0.2);
	return a;
}
// apertures that vary along the element, are shifted or are tilted; jaws only where there is length
inline void gen_aperture_more(ApSpec& a, double sz, bool jaws, double len)
{
	if(jaws)
		a.kind = 5 + (int) sim::draw(4);
	else if(sim::chance(1, 3))
		a.kind = 9 + (int) sim::draw(len > 0 ? 3 : 1);
	a.a2 = sz * sim::real(1, 0.2);
	a.b2 = sz * sim::real(1, 0.2);
	a.c2 = sz * sim::real(1, 0.2);
	a.d2 = sz * sim::real(1, 0.2);
	if(sim::chance(1, 2))
	{
		a.ox = 0.5 * sz * sim::sreal(1);
		a.oy = 0.5 * sz * sim::sreal(1);
		a.ox2 = sim::chance(1, 2) ? a.ox : 0.5 * sz * sim::sreal(1);
		a.oy2 = sim::chance(1, 2) ? a.oy : 0.5 * sz * sim::sreal(1);
	}
	a.tilt = sim::chance(1, 2) ? sim::sreal(1.6) : 0;
	a.side = sim::chance(1, 2);
	if(a.kind == 9)
	{
		a.c = sim::real(0.2, 0.5);
		a.d = sim::real(1.0, 1.3);
		a.b = a.a * sim::real(1, 0.8);
	}
}
// the geometry, written down independently of the library
inline bool inside(const ApSpec& a, double x, double y, double z, double len)
{
	auto lerp = [&](double u, double v) {
		return len > 0 ? u + (v - u) * std::min(std::max(z / len, 0.0), 1.0) : u;
	};
	auto ell = [&](double h, double v) {
		return (x / h) * (x / h) + (y / v) * (y / v) < 1;
	};
	auto rect = [](double u, double v, double h, double w) {
		return std::fabs(u) < h && std::fabs(v) < w;
	};
	switch(a.kind)
	{
	case 1:
		return ell(a.a, a.a);
	case 2:
		return rect(x, y, a.a, a.b);
	case 3:
		return ell(a.a, a.b);
	case 4:
		return rect(x, y, a.a, a.b) && ell(a.c, a.d);
	case 5:
		return rect(x, y, a.a, a.b);
	case 6:
	case 7:
	case 8:
	{
		const double dx = x - (a.kind == 6 ? lerp(a.ox, a.ox2) : a.ox), dy = y - (a.kind == 6 ? lerp(a.oy, a.oy2) : a.oy);
		const double u = dx * std::cos(a.tilt) + dy * std::sin(a.tilt), v = -dx * std::sin(a.tilt) + dy * std::cos(a.tilt);
		if(a.kind == 6)
			return rect(u, v, lerp(a.a, a.a2), lerp(a.b, a.b2));
		if(a.kind == 7)
			return rect(u, v, a.a, a.b);
		return (a.side ? u : -u) < a.a && std::fabs(v) < a.b;
	}
	case 9:
	{
		const double px = a.a, py = a.a * std::tan(a.c), qx = a.b / std::tan(a.d), qy = a.b; // the cut corner runs from p to q
		const double ax = std::fabs(x), ay = std::fabs(y);
		return ax < a.a && ay < a.b && (qx - px) * (ay - py) - (qy - py) * (ax - px) > 0;
	}
	case 10:
		return ell(lerp(a.a, a.a2), lerp(a.a, a.a2));
	case 11:
		return rect(x, y, lerp(a.a, a.a2), lerp(a.b, a.b2)) && ell(lerp(a.c, a.c2), lerp(a.d, a.d2));
	}
	return true;
}
inline Lattice gen_lattice(const Opts& o)
{
	Lattice L;
	static const double ps[] = {1.0, 7000, 10, 0.5, 45.6, 450, 3};
	L.p0 = ps[sim::draw(7)];
	int n = (int) sim::range(o.nmin, o.nmax);
	for(int i = 0; i < n; i++)
	{
		El e;
		e.kind = o.kinds[sim::draw(o.kinds.size())];
		e.len = has_len(e.kind) ? awkward_length(o.lmin, o.lmax) : 0;
		if(o.thin_ok && (e.kind == BPMK || e.kind == DRIFT || e.kind == XCORK || e.kind == YCORK) && sim::chance(1, 4))
			e.len = 0;
		e.s1 = e.s2 = e.s3 = e.mpt = 0;
		e.faces = 0;
		switch(e.kind)
		{
		case QUAD:
		case SKEWQ:
			e.s1 = sim::sreal(0.6);
			break;
		case SBEND:
			e.s1 = sim::real(0.001, 0.08);      // total bend angle
			e.s2 = sim::chance(1, 3) ? sim::sreal(0.2) : 0; // K1
			e.faces = (int) sim::draw(4);
			e.s3 = sim::sreal(0.05);
			break;
		case SEXT:
			e.s1 = sim::sreal(5);
			break;
		case OCT:
			e.s1 = sim::sreal(50);
			break;
		case SOL:
			e.s1 = sim::sreal(0.1);
			break;
		case XCORK:
		case YCORK:
			e.s1 = sim::sreal(1e-4);
			break;
		case TWRF:
		case SWRF:
			e.s1 = sim::real(1, 20);  // MV/m
			e.s2 = sim::sreal(1.2);
			break;
		case TRANSRF:
			e.s1 = sim::real(0.05, 1);
			e.s2 = sim::sreal(1.5);
			break;
		case BPMK:
			e.mpt = e.len > 0 && sim::chance(1, 2) ? e.len * sim::sreal(0.45) : 0;
			break;
		default:
			break;
		}
		e.ap = ApSpec();
		if(o.apert && (int) sim::draw(100) >= 100 - o.apert)
		{
			e.ap = gen_aperture(o.apsize);
			if(o.more_ap && sim::chance(2, 3))
				gen_aperture_more(e.ap, o.apsize, e.kind == COLL, e.len);
			else if(e.kind == COLL && sim::chance(2, 3))
				e.ap.kind = 5;
		}
		if(!o.simple_names && i > 0 && sim::chance(1, 6) && L.el.back().kind == e.kind)
			e.name = L.el.back().name;
		else
			e.name = sim::fmt("%c%d", 'A' + e.kind, i);
		L.el.push_back(e);
	}
	return L;
}
inline Aperture* make_aperture(const ApSpec& a, double len)
{
	switch(a.kind)
	{
	case 1:
		return new CircularAperture("CIRCLE", 0, a.a);
	case 2:
		return new RectangularAperture("RECTANGLE", 0, a.a, a.b);
	case 3:
		return new EllipticalAperture("ELLIPSE", 0, a.a, a.b);
	case 4:
		return new RectEllipseAperture("RECTELLIPSE", 0, a.a, a.b, a.c, a.d);
	case 5:
	{
		CollimatorAperture* c = new CollimatorAperture(2 * a.a, 2 * a.b, 0, len, 0, 0);
		c->SetExitWidth(2 * a.a);
		c->SetExitHeight(2 * a.b);
		return c;
	}
	case 6:
	{
		CollimatorAperture* c = new CollimatorAperture(2 * a.a, 2 * a.b, a.tilt, len, a.ox, a.oy);
		c->SetExitWidth(2 * a.a2);
		c->SetExitHeight(2 * a.b2);
		c->SetExitXOffset(a.ox2);
		c->SetExitYOffset(a.oy2);
		return c;
	}
	case 7:
		return new UnalignedCollimatorAperture(2 * a.a, 2 * a.b, a.tilt, len, a.ox, a.oy);
	case 8:
		return new OneSidedUnalignedCollimatorAperture(2 * a.a, 2 * a.b, a.tilt, len, a.ox, a.oy, a.side);
	case 9:
		return new OctagonalAperture("OCTAGON", 0, a.a, a.b, a.c, a.d);
	case 10:
	case 11:
	{
		DataTable dt;
		dt.AddColumn("APERTYPE", 's');
		for(const char* n : {"S", "APER_1", "APER_2", "APER_3", "APER_4"})
			dt.AddColumn(n, 'd');
		const std::string t = a.kind == 10 ? "CIRCLE" : "RECTELLIPSE";
		auto at = [&](double f) {
			auto l = [&](double u, double v) { return u + (v - u) * f; };
			dt.AddRow(t, len * f, l(a.a, a.a2), l(a.b, a.b2), l(a.c, a.c2), l(a.d, a.d2));
		};
		at(0);
		if(a.side)
			at(0.375);
		at(1);
		return InterpolatorFactory::GetInstance(dt);
	}
	}
	return nullptr;
}
inline AcceleratorComponent* make(const El& e, double p0)
{
	using namespace PhysicalUnits;
	const double brho = p0 / PhysicalConstants::SpeedOfLight / eV;
	AcceleratorComponent* c = nullptr;
	switch(e.kind)
	{
	case DRIFT:
		c = new Drift(e.name, e.len);
		break;
	case MARKER:
		c = new Marker(e.name);
		break;
	case QUAD:
		c = new Quadrupole(e.name, e.len, e.s1 * brho);
		break;
	case SKEWQ:
		c = new SkewQuadrupole(e.name, e.len, e.s1 * brho);
		break;
	case SEXT:
		c = new Sextupole(e.name, e.len, e.s1 * brho);
		break;
	case OCT:
		c = new Octupole(e.name, e.len, e.s1 * brho);
		break;
	case SBEND:
	{
		const double h = e.s1 / e.len;
		SectorBend* b = new SectorBend(e.name, e.len, h, brho * h);
		if(e.s2 != 0)
			b->SetB1(brho * e.s2);
		if(e.faces == 1)
			b->SetPoleFaceInfo(new SectorBend::PoleFace(e.s3));
		else if(e.faces == 2)
			b->SetPoleFaceInfo(new SectorBend::PoleFace(e.s3), new SectorBend::PoleFace(-e.s3));
		c = b;
		break;
	}
	case SOL:
		c = new Solenoid(e.name, e.len, e.s1 * brho);
		break;
	case BPMK:
		c = new BPM(e.name, e.len, e.mpt);
		break;
	case COLL:
		c = new Collimator(e.name, e.len);
		break;
	case XCORK:
		c = new XCor(e.name, e.len, e.s1 * brho);
		break;
	case YCORK:
		c = new YCor(e.name, e.len, e.s1 * brho);
		break;
	case TWRF:
		c = new TWRFStructure(e.name, e.len, 1.3e9, e.s1 * 1e-3 * (p0 < 5 ? 1 : 1), e.s2);
		break;
	case TRANSRF:
		c = new TransverseRFStructure(e.name, e.len, 1.3e9, e.s1 * 1e-3, e.s2);
		break;
	case SWRF:
		c = new SWRFStructure(e.name, 9, 1.3e9, e.s1 * 1e-3, e.s2);
		break;
	}
	if(e.ap.kind)
		c->SetAperture(make_aperture(e.ap, e.len));
	return c;
}
struct Built
{
	std::unique_ptr<AcceleratorModel> model;
	std::vector<AcceleratorComponent*> comp;
};
inline Built build(const Lattice& L)
{
	Built b;
	AcceleratorModelConstructor ctor;
	ctor.NewModel();
	for(auto& e : L.el)
	{
		AcceleratorComponent* c = make(e, L.p0);
		b.comp.push_back(c);
		ctor.AppendComponentFrame(new TComponentFrame<AcceleratorComponent>(*c));
	}
	b.model.reset(ctor.GetModel());
	return b;
}
inline void describe(const Lattice& L)
{
	sim::ev("lattice p0=%.17g n=%zu", L.p0, L.el.size());
	for(auto& e : L.el)
	{
		sim::ev("  %s %s len=%.17g s=%.9g,%.9g,%.9g mpt=%.9g faces=%d ap=%d(%.9g,%.9g,%.9g,%.9g)", e.name.c_str(), kname(e.kind),
			e.len, e.s1, e.s2, e.s3, e.mpt, e.faces, e.ap.kind, e.ap.a, e.ap.b, e.ap.c, e.ap.d);
		sim::mix((uint64_t) e.kind * 131 + (uint64_t) (e.len * 8) * 7 + e.ap.kind);
	}
}
// ---- bunches -------------------------------------------------------------
struct BeamSpec
{
	std::vector<PSvector> p;
};
inline BeamSpec gen_beam(int nmin, int nmax, double ax, double axp, double act, double adp)
{
	BeamSpec b;
	int n = (int) sim::range(nmin, nmax);
	int64_t id0 = sim::chance(1, 3) ? (int64_t) sim::draw(1000000) : 0;
	for(int i = 0; i < n; i++)
	{
		PSvector p(0);
		p.x() = sim::sreal(ax);
		p.xp() = sim::sreal(axp);
		p.y() = sim::sreal(ax);
		p.yp() = sim::sreal(axp);
		p.ct() = sim::sreal(act);
		p.dp() = sim::sreal(adp);
		p.id() = id0 + i;
		b.p.push_back(p);
	}
	return b;
}
template<class B> inline B* make_bunch(const BeamSpec& s, double p0, double q)
{
	B* b = new B(p0, q);
	for(auto& p : s.p)
		b->AddParticle(p);
	return b;
}
inline bool same_bits(const PSvector& a, const PSvector& b)
{
	for(int i = 0; i < 6; i++)
	{
		double u = a[i], v = b[i];
		if(std::memcmp(&u, &v, sizeof u))
			return false;
	}
	return a.id() == b.id();
}
// agreement to rounding: absolute floor plus relative part
inline bool close(double a, double b, double rel, double abs)
{
	if(std::isnan(a) || std::isnan(b))
		return std::isnan(a) && std::isnan(b);
	if(std::isinf(a) || std::isinf(b))
		return a == b;
	return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool close6(const PSvector& a, const PSvector& b, double rel, double abs)
{
	for(int i = 0; i < 6; i++)
		if(!close(a[i], b[i], rel, abs))
			return false;
	return true;
}
inline std::string show(const PSvector& p)
{
	return sim::fmt("(%.12g %.12g %.12g %.12g %.12g %.12g #%lld)", p[0], p[1], p[2], p[3], p[4], p[5], (long long) p.id());
}
template<class B> inline void log_bunch(const char* what, const B& b)
{
	std::vector<double> v;
	for(auto& p : b)
	{
		for(int i = 0; i < 6; i++)
			v.push_back(p[i]);
		v.push_back((double) p.id());
	}
	v.push_back(b.GetReferenceMomentum());
	v.push_back(b.GetReferenceTime());
	sim::evbits(what, v.data(), v.size());
}
}
#endif
