// C11: lattice descriptions (MAD TFS tables, XTFF tapes) turned into machines, intact and damaged.
#include "gen.h"
#include "BeamData.h"
#include "CrabMarker.h"
#include "HollowElectronLens.h"
#include "MADInterface.h"
#include "PatchFrame.h"
#include "SequenceFrame.h"
#include "XTFFInterface.h"
#include <cerrno>
#include <functional>
#include <sstream>
#include <tuple>
using namespace gen;
using namespace PhysicalConstants;
using namespace PhysicalUnits;

namespace
{
struct Item
{
	std::string type, name;
	double len;
	std::vector<double> v;
	double pos;
	double ax, ay; // aperture half widths, 0 none
	bool round;
};
struct Framed
{
	std::string type, name;
	std::vector<size_t> idx;
	bool operator<(const Framed& o) const
	{
		return std::tie(type, name, idx) < std::tie(o.type, o.name, o.idx);
	}
};
struct Expect
{
	std::vector<Item> item;
	std::vector<Framed> frame;
	double mom = 0;
	std::string refuse;
};
std::vector<double> values(AcceleratorComponent* c)
{
	if(SectorBend* b = dynamic_cast<SectorBend*>(c))
	{
		auto f = b->GetPoleFaceInfo();
		return {b->GetB0(), b->GetB1(), b->GetGeometry().GetCurvature(), b->GetGeometry().GetTilt(), f.entrance ? f.entrance->rot : 0,
				f.exit ? f.exit->rot : 0};
	}
	if(RectMultipole* m = dynamic_cast<RectMultipole*>(c))
	{
		// the derivative of the field, not its expansion coefficient
		const int n = dynamic_cast<Decapole*>(c) ? 24 : dynamic_cast<Octupole*>(c) ? 6
				: dynamic_cast<Sextupole*>(c) || dynamic_cast<SkewSextupole*>(c) ? 2 : 1;
		return {m->GetFieldStrength() * n};
	}
	if(Solenoid* s = dynamic_cast<Solenoid*>(c))
		return {s->GetBz()};
	if(TransverseRFStructure* r = dynamic_cast<TransverseRFStructure*>(c))
		return {r->GetAmplitude(), r->GetPhase(), r->GetFieldOrientation(), r->GetFrequency()};
	if(RFStructure* r = dynamic_cast<RFStructure*>(c))
		return {r->GetAmplitude(), r->GetPhase(), r->GetFrequency()};
	if(CrabMarker* m = dynamic_cast<CrabMarker*>(c))
		return {m->GetMuX(), m->GetMuY()};
	return {};
}
void check(AcceleratorModel* m, const Expect& X, const char* what, bool positions)
{
	std::vector<ComponentFrame*> cf;
	if(X.item.size())
	{
		auto bl = m->GetBeamline();
		cf.assign(bl.begin(), bl.end());
	}
	std::vector<AcceleratorComponent*> all;
	m->ExtractTypedElements(all, "*");
	size_t want = 0;
	for(auto& i : X.item)
		want += i.type != "PatchFrame";
	SIM_CHECK(all.size() == want, "lattice:element-count", "%s: the machine has %zu elements, the description %zu", what, all.size(), want);
	SIM_CHECK(cf.size() == X.item.size(), "lattice:element-count", "%s: the beamline has %zu places, the description %zu", what, cf.size(),
			X.item.size());
	double z = 0;
	for(size_t i = 0; i < cf.size(); i++)
	{
		const Item& e = X.item[i];
		if(e.type == "PatchFrame")
		{
			SIM_CHECK(!cf[i]->IsComponent(), "lattice:order", "%s: place %zu holds a component instead of rotation %s", what, i, e.name.c_str());
			SIM_CHECK(cf[i]->GetName() == e.name, "lattice:name", "%s: place %zu is %s, not %s", what, i, cf[i]->GetName().c_str(), e.name.c_str());
			const Transform3D* t = cf[i]->GetEntranceGeometryPatch();
			const Transform3D r = Transform3D::rotationZ(e.v[0]);
			Vector3D p(1, 2, 3);
			const Vector3D a = t ? (*t)(p) : p, b = r(p);
			SIM_CHECK(close(a.x, b.x, 1e-12, 1e-12) && close(a.y, b.y, 1e-12, 1e-12) && close(a.z, b.z, 1e-12, 1e-12), "lattice:rotation",
					"%s: rotation %s turns by another angle than %g", what, e.name.c_str(), e.v[0]);
			continue;
		}
		SIM_CHECK(cf[i]->IsComponent(), "lattice:order", "%s: place %zu is empty instead of %s", what, i, e.name.c_str());
		AcceleratorComponent& c = cf[i]->GetComponent();
		SIM_CHECK(c.GetName() == e.name, "lattice:name", "%s: element %zu is %s, not %s", what, i, c.GetName().c_str(), e.name.c_str());
		SIM_CHECK(c.GetType() == e.type, "lattice:type", "%s: element %s is a %s, not a %s", what, e.name.c_str(), c.GetType().c_str(),
				e.type.c_str());
		SIM_CHECK(close(c.GetLength(), e.len, 1e-12, 1e-12), "lattice:length", "%s: %s %s has length %.17g, described as %.17g", what,
				e.type.c_str(), e.name.c_str(), c.GetLength(), e.len);
		const auto v = values(&c);
		SIM_CHECK(v.size() == e.v.size(), "lattice:type", "%s: %s %s carries %zu strengths", what, e.type.c_str(), e.name.c_str(), v.size());
		for(size_t k = 0; k < v.size(); k++)
			SIM_CHECK(close(v[k], e.v[k], 1e-11, 1e-300), "lattice:strength", "%s: %s %s has strength [%zu] %.17g, described as %.17g", what,
					e.type.c_str(), e.name.c_str(), k, v[k], e.v[k]);
		if(positions)
			SIM_CHECK(close(c.GetComponentLatticePosition(), e.pos, 1e-11, 1e-11), "lattice:position", "%s: %s is at %.17g, described at %.17g",
					what, e.name.c_str(), c.GetComponentLatticePosition(), e.pos);
		Aperture* ap = c.GetAperture();
		SIM_CHECK((ap != nullptr) == (e.ax != 0), "lattice:aperture", "%s: %s %s an aperture", what, e.name.c_str(),
				ap ? "has" : "does not have");
		if(ap)
			for(int k = 0; k < 8; k++)
			{
				const double s = k & 1 ? 1.001 : 0.999;
				double x = k < 4 ? s * e.ax : 0, y = k < 4 ? 0 : s * e.ay;
				if(!e.round && k >= 4)
					x = 0.9 * e.ax;
				if(k & 2)
					x = -x, y = -y;
				SIM_CHECK(ap->CheckWithinApertureBoundaries(x, y, 0) == !(k & 1), "lattice:aperture", "%s: (%g, %g) is %s the aperture of %s (%g x %g)",
						what, x, y, k & 1 ? "inside" : "outside", e.name.c_str(), e.ax, e.ay);
			}
		z += c.GetLength();
	}
	double len = 0;
	for(auto& e : X.item)
		len += e.len;
	SIM_CHECK(close(z, len, 1e-11, 1e-11), "lattice:total-length", "%s: the machine is %.17g long, the description %.17g", what, z, len);
	std::vector<SequenceFrame*> fr;
	m->ExtractTypedElements(fr, "*");
	std::vector<Framed> got, exp = X.frame;
	for(auto* f : fr)
		if(f != &m->GetGlobalFrame())
		{
			Framed g{f->GetType(), f->GetName(), {}};
			f->GetBeamlineIndexes(g.idx);
			got.push_back(g);
		}
	std::sort(got.begin(), got.end());
	std::sort(exp.begin(), exp.end());
	SIM_CHECK(got.size() == exp.size(), "lattice:frames", "%s: the machine has %zu frames, the description %zu", what, got.size(), exp.size());
	for(size_t i = 0; i < got.size(); i++)
		SIM_CHECK(!(got[i] < exp[i]) && !(exp[i] < got[i]), "lattice:frames", "%s: frame %s %s holds %zu places, described %s %s with %zu",
				what, got[i].type.c_str(), got[i].name.c_str(), got[i].idx.size(), exp[i].type.c_str(), exp[i].name.c_str(), exp[i].idx.size());
}
// frames opened and closed by pairs of rows with the same name
struct Nest
{
	struct F
	{
		std::string key;
		size_t at;
		bool made;
	};
	std::vector<F> st;
	void row(const std::string& n, Expect& X, bool plain_too)
	{
		if(st.size() && st.back().key == n)
		{
			const F f = st.back();
			st.pop_back();
			if(f.made)
			{
				auto& idx = X.frame[f.at].idx;
				idx.clear();
				for(size_t i = start[f.at]; i < X.item.size(); i++)
					idx.push_back(i);
			}
			return;
		}
		const bool plain = n.size() < 2 || n[1] != '_';
		F f{n, X.frame.size(), !plain || plain_too};
		if(f.made)
		{
			std::string type = "SequenceFrame";
			if(!plain)
				switch(n[0])
				{
				case 'F':
					break;
				case 'S':
					type = "SimpleMount";
					break;
				case 'G':
					type = "GirderMount";
					break;
				case 'M':
					type = "MagnetMover";
					break;
				default:
					X.refuse = "unknown frame " + n;
				}
			X.frame.push_back({type, plain ? n : n.substr(2), {}});
			start.push_back(X.item.size());
		}
		st.push_back(f);
	}
	std::vector<size_t> start;
};

// ---- MAD TFS --------------------------------------------------------------
const char* COL[] = {"L", "ANGLE", "K0L", "K1L", "K2L", "K3L", "KS", "TILT", "E1", "E2", "HKICK", "VKICK", "FREQ", "LAG", "VOLT", "MUX",
					 "MUY", "BETX"};
enum { cL, cANGLE, cK0L, cK1L, cK2L, cK3L, cKS, cTILT, cE1, cE2, cHKICK, cVKICK, cFREQ, cLAG, cVOLT, cMUX, cMUY, cBETX, NC };
struct MRow
{
	std::string key, name;
	double c[NC];
};
struct MOpt
{
	double p0;
	bool honour, flat, sr, cell;
	std::set<std::string> drift, nozero;
};
struct Mad
{
	std::vector<MRow> row;
	std::vector<int> order; // columns, -1 NAME, -2 KEYWORD, -3 COMMENT
	bool angle;
};
MRow gen_row(int i, const std::string& key)
{
	MRow r;
	r.key = key;
	r.name = sim::chance(1, 4) ? sim::fmt("E.%d\"", i).substr(0, 3 + (i > 9) + (i > 99)) : sim::fmt("%c%d_%d", 'A' + (int) sim::draw(26), (int) sim::draw(9), i);
	std::fill(r.c, r.c + NC, 0.0);
	auto nz = [&](double a) { return sim::real(0.05, 1) * (sim::chance(1, 2) ? -a : a); };
	double len = awkward_length(0.05, 6);
	const bool zero_ok = key == "DRIFT" || key == "MARKER" || key == "MONITOR" || key == "HKICKER" || key == "VKICKER" || key == "INSTRUMENT" ||
			key == "RCOLLIMATOR" || key == "ECOLLIMATOR" || key == "COLLIMATOR" || key == "XCOR" || key == "YCOR" || key == "HEL" ||
			key == "CRABMARKER" || key == "TKICKER" || key == "HMONITOR" || key == "PLACEHOLDER" || key == "MATRIX";
	if(key == "MARKER" || (zero_ok && sim::chance(1, 4)))
		len = 0;
	r.c[cL] = len;
	if(key == "SBEND" || key == "RBEND")
	{
		r.c[cANGLE] = sim::chance(1, 12) ? 0 : nz(0.05);
		r.c[cK0L] = sim::chance(1, 2) ? r.c[cANGLE] : 0;
		r.c[cK1L] = r.c[cANGLE] == 0 || sim::chance(1, 2) ? 0 : nz(0.2);
		r.c[cTILT] = sim::chance(1, 2) ? 0 : nz(1.6);
		r.c[cE1] = sim::chance(1, 2) ? 0 : nz(0.03);
		r.c[cE2] = sim::chance(1, 2) ? 0 : nz(0.03);
	}
	if(key == "QUADRUPOLE" || key == "SKEWQUAD")
		r.c[cK1L] = nz(0.3);
	if(key == "SEXTUPOLE" || key == "SKEWSEXT")
		r.c[cK2L] = nz(2);
	if(key == "OCTUPOLE")
		r.c[cK3L] = nz(20);
	if(key == "SOLENOID")
		r.c[cKS] = nz(0.1);
	if(key == "HKICKER" || key == "TKICKER")
		r.c[cHKICK] = nz(1e-4);
	if(key == "VKICKER" || key == "TKICKER")
		r.c[cVKICK] = nz(1e-4);
	if(key == "RFCAVITY" || key == "LCAV")
	{
		r.c[cFREQ] = sim::real(100, 1300);
		const double half = SpeedOfLight / (r.c[cFREQ] * MHz) / 2;
		r.c[cL] = half * (double) sim::range(1, 9) * (1 + sim::sreal(4e-4));
		r.c[cLAG] = sim::sreal(1);
		r.c[cVOLT] = nz(5);
	}
	if(key == "CRABMARKER")
		r.c[cMUX] = nz(10), r.c[cMUY] = nz(10);
	if(key == "SROT")
		r.c[cL] = nz(1);
	if(key == "MONITOR" && sim::chance(1, 4))
		r.name = "WS" + r.name;
	r.c[cBETX] = sim::real(1, 100);
	return r;
}
Mad gen_mad(bool frames, bool angle)
{
	static const std::vector<std::string> keys = {"DRIFT", "QUADRUPOLE", "MARKER", "SBEND", "RBEND", "SEXTUPOLE", "OCTUPOLE", "SKEWQUAD",
												  "SKEWSEXT", "YCOR", "XCOR", "VKICKER", "HKICKER", "SOLENOID", "RFCAVITY", "LCAV", "CRABMARKER", "CRABRF",
												  "COLLIMATOR", "RCOLLIMATOR", "ECOLLIMATOR", "HEL", "MONITOR", "INSTRUMENT", "PLACEHOLDER", "VMONITOR",
												  "HMONITOR", "KICKER", "TKICKER", "MATRIX", "SROT"};
	Mad M;
	M.angle = angle || !sim::chance(1, 6);
	const int n = (int) sim::range(1, sim::tier_thorough() ? 40 : 16);
	std::vector<std::string> open;
	auto line = [&](const std::string& s) {
			MRow r;
			r.key = "LINE";
			r.name = s;
			std::fill(r.c, r.c + NC, 0.0);
			M.row.push_back(r);
		};
	for(int i = 0; i < n; i++)
	{
		if(frames && open.size() < 3 && sim::chance(1, 5))
		{
			open.push_back(sim::fmt("%c_%d", "FSGM"[sim::draw(4)], i));
			if(sim::chance(1, 4))
				open.back() = sim::fmt("LINE%d", i);
			line(open.back());
		}
		else if(open.size() && M.row.back().key != "LINE" && sim::chance(1, 4))
		{
			line(open.back());
			open.pop_back();
		}
		std::string k = sim::pick(keys);
		if(k == "RBEND" && !M.angle)
			k = "SBEND";
		M.row.push_back(gen_row(i, k));
		if(!M.angle && k == "SBEND")
			M.row.back().c[cK0L] = M.row.back().c[cANGLE];
	}
	while(open.size())
	{
		line(open.back());
		open.pop_back();
	}
	for(int i = -3; i < NC; i++)
		if(i != cANGLE || M.angle)
			M.order.push_back(i);
	for(size_t i = 1; i < M.order.size(); i++)
		std::swap(M.order[i], M.order[i - sim::draw(i + 1)]);
	return M;
}
MOpt gen_opt()
{
	MOpt o;
	o.p0 = sim::real(5, 50);
	o.honour = sim::chance(1, 2);
	o.flat = sim::chance(1, 4);
	o.sr = sim::chance(1, 3);
	o.cell = sim::chance(1, 4);
	static const std::vector<std::string> keys = {"QUADRUPOLE", "MARKER", "SBEND", "RBEND", "MONITOR", "HKICKER", "RFCAVITY", "LCAV",
												  "COLLIMATOR", "ECOLLIMATOR", "HEL", "CRABMARKER"};
	for(int k = (int) sim::range(0, 2); k > 0; k--)
		o.drift.insert(sim::pick(keys));
	for(int k = (int) sim::range(0, 2); k > 0; k--)
		o.nozero.insert(sim::pick(keys));
	return o;
}
// text and where each row of the table ends
std::string write(const Mad& M, std::vector<size_t>* ends = nullptr, size_t* body = nullptr)
{
	std::string s = "@ NAME             %05s \"TWISS\"\n@ PC               %le 450.5\n*";
	for(int c : M.order)
		s += c == -1 ? " NAME" : c == -2 ? " KEYWORD" : c == -3 ? " COMMENTS" : std::string(" ") + COL[c];
	s += "\n$";
	for(int c : M.order)
		s += c < 0 ? " %s" : " %le";
	s += "\n";
	if(body)
		*body = s.size();
	for(auto& r : M.row)
	{
		for(int c : M.order)
			s += c == -1 ? " \"" + r.name + "\"" : c == -2 ? " \"" + r.key + "\"" : c == -3 ? " \"a comment\"" : sim::fmt(" %18.17g", r.c[c]);
		s += "\n";
		if(ends)
			ends->push_back(s.size());
	}
	return s;
}
void expect(const Mad& M, const MOpt& o, size_t rows, Expect& X, double& z)
{
	std::set<std::string> drift = {"INSTRUMENT", "PLACEHOLDER", "VMONITOR", "HMONITOR", "KICKER", "TKICKER", "MATRIX"}, nozero = {"RCOLLIMATOR"};
	drift.insert(o.drift.begin(), o.drift.end());
	nozero.insert(o.nozero.begin(), o.nozero.end());
	double p = X.mom;
	Nest nest;
	// frames already there
	nest.start.resize(X.frame.size(), 0);
	auto refuse = [&](const std::string& s) {
			if(X.refuse.empty())
				X.refuse = s;
		};
	for(size_t i = 0; i < rows; i++)
	{
		const MRow& r = M.row[i];
		double L = r.c[cL];
		if(L == 0 && nozero.count(r.key))
			continue;
		if(r.key == "LINE")
		{
			if(!o.flat)
				nest.row(r.name, X, o.honour);
			continue;
		}
		if(r.key == "SROT")
		{
			X.item.push_back({"PatchFrame", r.name, 0, {L}, 0, 0, 0, false});
			continue;
		}
		std::string k = r.key;
		const double brho = p / eV / SpeedOfLight;
		auto add = [&](const std::string& type, const std::string& name, double len, std::vector<double> v) {
				X.item.push_back({type, name, len, v, z, 0, 0, false});
				z += len;
			};
		auto per = [&](double a) {
				if(a != 0 && L == 0)
					refuse("zero length " + r.name);
				return a == 0 ? 0 : brho * a / L;
			};
		if(drift.count(k))
		{
			if(L != 0)
				add("Drift", r.name, L, {});
			continue;
		}
		if(k == "DRIFT")
		{
			if(L != 0)
				add("Drift", r.name, L, {});
		}
		else if(k == "SBEND" || k == "RBEND")
		{
			const double a = M.angle ? r.c[cANGLE] : r.c[cK0L];
			const double h = a == 0 ? 0 : a / L;
			if(h == 0 && r.c[cK1L] != 0)
				refuse("gradient without bending in " + r.name);
			add("SectorBend", r.name, L, {per(a), per(r.c[cK1L]), h, r.c[cTILT], r.c[cE1], r.c[cE2]});
			if(o.sr && M.angle)
				p -= 8.85e-05 / twoPi * std::pow(p, 4) * h * h * L;
		}
		else if(k == "QUADRUPOLE")
			add("Quadrupole", r.name, L, {per(r.c[cK1L])});
		else if(k == "SKEWQUAD")
			add("SkewQuadrupole", r.name, L, {per(r.c[cK1L])});
		else if(k == "SEXTUPOLE")
			add("Sextupole", r.name, L, {per(r.c[cK2L])});
		else if(k == "SKEWSEXT")
			add("SkewSextupole", r.name, L, {per(r.c[cK2L])});
		else if(k == "OCTUPOLE")
			add("Octupole", r.name, L, {per(r.c[cK3L])});
		else if(k == "XCOR")
			add("XCor", r.name, L, {0});
		else if(k == "YCOR")
			add("YCor", r.name, L, {0});
		else if(k == "HKICKER")
			add("XCor", r.name, L, {-r.c[cHKICK] * (L > 0 ? brho / L : brho)});
		else if(k == "VKICKER")
			add("YCor", r.name, L, {r.c[cVKICK] * (L > 0 ? brho / L : brho)});
		else if(k == "SOLENOID")
			add("Solenoid", r.name, L, {per(r.c[cKS])});
		else if(k == "RFCAVITY" || k == "LCAV")
		{
			const double f = r.c[cFREQ] * MHz, half = SpeedOfLight / f / 2, n = std::round(L / half);
			const double phi = twoPi * (r.c[cLAG] - 0.25);
			if(o.cell)
			{
				if(!(half / L - 1 <= 0.001))
					refuse("cavity " + r.name);
				add("SWRFStructure", r.name, half, {r.c[cVOLT] * MV / half, phi, f});
				add("Drift", "Drift_" + r.name, L - half, {});
			}
			else
			{
				if(!(std::fabs(n * half / L - 1) <= 0.001))
					refuse("cavity " + r.name);
				add("SWRFStructure", r.name, n * half, {r.c[cVOLT] * MV / L, phi, f});
			}
		}
		else if(k == "CRABMARKER")
			add("CrabMarker", r.name, L, {r.c[cMUX], r.c[cMUY]});
		else if(k == "CRABRF")
			add("TransverseRFStructure", r.name, L, {0, 0, 0, 0});
		else if(k == "COLLIMATOR" || k == "RCOLLIMATOR" || k == "ECOLLIMATOR")
			add("Collimator", r.name, L, {});
		else if(k == "HEL")
			add("HollowElectronLens", r.name, L, {});
		else if(k == "MONITOR")
			add(r.name.substr(0, 2) == "WS" ? "RMSProfileMonitor" : "BPM", r.name, L, {});
		else if(k == "MARKER")
			add("Marker", r.name, 0, {});
		else if(L != 0)
			refuse("unknown type " + k);
	}
	if(nest.st.size())
		refuse("frame left open");
	X.mom = p;
}
void apply(MADInterface& I, const MOpt& o)
{
	I.HonourMadStructure(o.honour);
	I.ConstructFlatLattice(o.flat);
	I.ScaleForSynchRad(o.sr);
	I.SetSingleCellRF(o.cell);
	for(auto& d : o.drift)
		I.TreatTypeAsDrift(d);
	for(auto& d : o.nozero)
		I.IgnoreZeroLengthType(d);
}
// exceptions are how things are refused
bool refused(const std::function<void()>& f, std::string& why)
{
	try
	{
		f();
	}
	catch(std::exception& e)
	{
		why = e.what();
		return true;
	}
	return false;
}
void mix_rows(const Mad& M)
{
	for(auto& r : M.row)
		sim::mix(sim::hash_str(r.key) ^ (r.c[cL] == 0));
}
}

SCENARIO(mad_lattice)
{
	sim::context("lattice:mad");
	sim::heap_config(sim::heap_random());
	const MOpt o = gen_opt();
	Mad M = gen_mad(true, o.sr);
	if(sim::chance(1, 6))
		for(auto& r : M.row)
			if(r.key == "SBEND" || r.key == "RBEND")
				r.c[cANGLE] = r.c[cK0L] = 0;
	Expect X;
	double z = 0;
	X.mom = o.p0;
	expect(M, o, M.row.size(), X, z);
	const std::string text = write(M);
	sim::ev("%zu rows p0 %g honour %d flat %d sr %d cell %d angle %d", M.row.size(), o.p0, o.honour, o.flat, o.sr, o.cell, M.angle);
	for(auto& r : M.row)
		sim::ev("row %s %s L %.17g", r.key.c_str(), r.name.c_str(), r.c[cL]);
	mix_rows(M);
	if(M.row.size() > 2)
		sim::nontrivial();
	const std::string p = sim::path("lattice.tfs");
	sim::put_file(p, text);
	for(int pass = 0; pass < 2; pass++)
	{
		std::istringstream in(text);
		const bool file = sim::chance(1, 2);
		sim::DiskCfg d;
		if(file && sim::chance(1, 3))
		{
			d.short_io = (int) sim::range(1, 64);
			d.eintr_every = (int) sim::range(0, 5);
			sim::disk(d);
		}
		std::unique_ptr<MADInterface> I(file ? new MADInterface(p, o.p0) : new MADInterface(&in, o.p0));
		std::ostringstream log;
		I->SetLogFile(log);
		if(sim::chance(1, 4))
			I->SetLoggingOn();
		apply(*I, o);
		std::string why;
		std::unique_ptr<AcceleratorModel> m;
		const bool r = refused([&] { m.reset(I->ConstructModel()); }, why);
		sim::disk(sim::DiskCfg());
		if(X.refuse.size())
		{
			SIM_CHECK(r, "lattice:accepted", "a description with a fault (%s) was turned into a machine", X.refuse.c_str());
			sim::probe("refused");
			continue;
		}
		SIM_CHECK(!r, "lattice:refused", "a correct description was refused: %s", why.c_str());
		check(m.get(), X, pass ? "built again" : "built", true);
		SIM_CHECK(close(I->GetMomentum(), X.mom, 1e-12, 0), "lattice:momentum", "final momentum %.17g, described %.17g", I->GetMomentum(), X.mom);
		sim::steps(z);
		if(X.frame.size())
			sim::probe("framed");
		if(X.mom != o.p0)
			sim::probe("radiated");
	}
}

SCENARIO(mad_append)
{
	sim::context("lattice:append");
	sim::heap_config(sim::heap_random());
	// one machine from several files; two interfaces at work at the same time
	const int ni = (int) sim::range(1, 2);
	struct One
	{
		MOpt o;
		Expect X;
		double z = 0;
		std::unique_ptr<MADInterface> I;
		int left;
	};
	std::vector<One> W(ni);
	int id = 0;
	auto file = [&](const Mad& M) {
			const std::string p = sim::path(sim::fmt("part%d.tfs", id++));
			sim::put_file(p, write(M));
			return p;
		};
	const std::string empty = sim::path("first.tfs");
	sim::put_file(empty, write(gen_mad(false, true)));
	for(auto& w : W)
	{
		w.o = gen_opt();
		w.I.reset(new MADInterface(empty, w.o.p0));
		static std::ostringstream log;
		w.I->SetLogFile(log);
		apply(*w.I, w.o);
		w.left = (int) sim::range(1, 4);
	}
	for(;;)
	{
		std::vector<One*> todo;
		for(auto& w : W)
			if(w.left > 0)
				todo.push_back(&w);
		if(todo.empty())
			break;
		One& w = *sim::pick(todo);
		w.left--;
		const int what = (int) sim::draw(6);
		if(what == 0 && sim::chance(1, 2))
		{
			// a file that is not there
			std::string why;
			const bool r = refused([&] { w.I->AppendModel(sim::path("missing.tfs"), w.o.p0); }, why);
			SIM_CHECK(r, "lattice:accepted", "a missing file was accepted");
			sim::fault("missing-file");
			sim::ev("missing");
			continue;
		}
		if(what == 1 && w.X.item.size())
		{
			std::unique_ptr<AcceleratorModel> m(w.I->GetModel());
			check(m.get(), w.X, "appended", true);
			w.X = Expect();
			w.z = 0;
			sim::probe("taken");
			continue;
		}
		const Mad M = gen_mad(true, w.o.sr);
		mix_rows(M);
		const double pref = sim::real(5, 50);
		w.X.mom = pref;
		expect(M, w.o, M.row.size(), w.X, w.z);
		sim::ev("append %zu rows to %d at %g", M.row.size(), (int) (&w - &W[0]), pref);
		w.I->AppendModel(file(M), pref);
		SIM_CHECK(close(w.I->GetMomentum(), w.X.mom, 1e-12, 0), "lattice:momentum", "momentum %.17g, described %.17g", w.I->GetMomentum(),
				w.X.mom);
		sim::steps(w.z);
		sim::nontrivial();
	}
	for(auto& w : W)
		if(w.X.item.size())
		{
			std::unique_ptr<AcceleratorModel> m(w.I->GetModel());
			check(m.get(), w.X, "appended", true);
			if(sim::chance(1, 2))
			{
				// an interface can start again
				const Mad M = gen_mad(true, w.o.sr);
				w.X = Expect();
				w.z = 0;
				w.X.mom = w.o.p0;
				expect(M, w.o, M.row.size(), w.X, w.z);
				w.I->AppendModel(file(M), w.o.p0);
				if(w.X.item.size())
				{
					std::unique_ptr<AcceleratorModel> n(w.I->GetModel());
					check(n.get(), w.X, "started again", true);
				}
			}
		}
}

SCENARIO(mad_damage)
{
	sim::context("lattice:damage");
	sim::heap_config(sim::heap_random());
	const MOpt o = gen_opt();
	Mad M = gen_mad(true, o.sr);
	std::vector<size_t> ends;
	size_t body;
	std::string text = write(M, &ends, &body);
	const std::string p = sim::path("lattice.tfs");
	Expect X;
	double z = 0;
	X.mom = o.p0;
	sim::DiskCfg d;
	bool missing = false;
	const int what = (int) sim::draw(9);
	size_t rows = M.row.size();
	static const char* names[] = {"cut", "garbled-number", "unknown-type", "read-error", "missing-file", "missing-column", "bad-frame", "lost-word",
								  "cavity-length"};
	switch(what)
	{
	case 0: // cut anywhere
	{
		const size_t n = sim::chance(1, 4) ? ends[sim::draw(ends.size())] - sim::draw(2) : sim::draw(text.size());
		text.resize(n);
		rows = 0;
		// the rows that are there completely (the line end may be missing)
		for(size_t e : ends)
			rows += e <= n || (e - 1 == n && M.order.back() < 0);
		const bool at = n + 1 >= body && (n <= body || (rows && (ends[rows - 1] == n || ends[rows - 1] == n + 1)));
		// a cut between rows leaves a complete table, and the first blank of a row says nothing
		const size_t last = rows ? ends[rows - 1] : body;
		const bool blank = n > last && text.find_first_not_of(' ', last) == std::string::npos;
		if((!at && !blank) || n < body - 1)
			X.refuse = "cut";
		if(n == body - 1)
			X.refuse = "cut types"; // ends within a word
		sim::ev("cut to %zu of %zu, %zu rows", n, ends.back(), rows);
		break;
	}
	case 1: // a letter in a number
	{
		std::vector<size_t> at;
		bool quoted = false;
		for(size_t i = body; i < text.size(); i++)
		{
			quoted ^= text[i] == '"';
			if(!quoted && isdigit(text[i]))
				at.push_back(i);
		}
		const size_t i = at[sim::draw(at.size())];
		text[i] = "qG#,/"[sim::draw(5)];
		X.refuse = "garbled";
		sim::ev("garbled at %zu", i);
		break;
	}
	case 2: // a type nobody knows
	{
		MRow& r = M.row[sim::draw(rows)];
		r.key = sim::pick(std::vector<std::string>{"QUADRUPOLF", "MULTIPOLE", "DRIF", "", "SBEND2", "sbend"});
		text = write(M);
		sim::ev("%s is a %s", r.name.c_str(), r.key.c_str());
		break;
	}
	case 3: // the device fails
		d.read_budget = (int64_t) sim::draw(text.size());
		d.read_err = EIO;
		d.short_io = (int) sim::range(1, 256);
		X.refuse = "read error";
		sim::ev("read error after %lld", (long long) d.read_budget);
		break;
	case 4:
		missing = true;
		X.refuse = "missing";
		break;
	case 5: // a column everybody needs
	{
		const int c = (int) sim::draw(3);
		const char* a[] = {" NAME", " KEYWORD", " L"};
		const char* b[] = {" NAMF", " KEYWORX", " LL"};
		const size_t star = text.find("\n*");
		size_t i = text.find(std::string(a[c]) + " ", star);
		if(i == std::string::npos || i > body)
			i = text.find(std::string(a[c]) + "\n", star);
		text.replace(i, strlen(a[c]), b[c]);
		X.refuse = "missing column";
		break;
	}
	case 6: // frames that do not match
	{
		MRow r;
		r.key = "LINE";
		std::fill(r.c, r.c + NC, 0.0);
		r.name = sim::pick(std::vector<std::string>{"X_9", "G_odd", "F_odd", "ODD", "X", "_"});
		M.row.insert(M.row.begin() + sim::draw(M.row.size() + 1), r);
		if(r.name == "X_9" && sim::chance(1, 2))
			M.row.push_back(r);
		rows = M.row.size();
		text = write(M);
		sim::ev("line %s", r.name.c_str());
		break;
	}
	case 7: // a word lost or doubled
	{
		const size_t k = sim::draw(rows);
		const size_t a = k ? ends[k - 1] : body;
		std::string line = text.substr(a, ends[k] - a - 1);
		if(sim::chance(1, 2))
			line = line.substr(0, line.find_last_of(' '));
		else
			line += " 1";
		text = text.substr(0, a) + line + text.substr(ends[k] - 1);
		X.refuse = "wrong number of words";
		break;
	}
	default: // a cavity that does not fit its wavelength
	{
		MRow r = gen_row(999, "RFCAVITY");
		r.c[cL] *= 1 + sim::sreal(0.4);
		M.row.insert(M.row.begin() + sim::draw(M.row.size() + 1), r);
		rows = M.row.size();
		text = write(M);
	}
	}
	sim::fault(names[what]);
	sim::nontrivial();
	mix_rows(M);
	Expect Y;
	Y.mom = o.p0;
	expect(M, o, rows, Y, z);
	if(X.refuse.size())
		Y.refuse = X.refuse;
	if(!missing)
		sim::put_file(p, text);
	if(what == 3 && d.read_budget >= (int64_t) text.size())
		Y.refuse = "";
	sim::disk(d);
	std::string why;
	std::unique_ptr<AcceleratorModel> m;
	std::unique_ptr<MADInterface> I;
	static std::ostringstream log;
	const bool r = refused([&] {
				I.reset(new MADInterface(p, o.p0));
				I->SetLogFile(log);
				apply(*I, o);
				m.reset(I->ConstructModel());
			}, why);
	sim::disk(sim::DiskCfg());
	if(Y.refuse.size())
		SIM_CHECK(r, "lattice:accepted", "a damaged description (%s) was turned into a machine", Y.refuse.c_str());
	else
	{
		SIM_CHECK(!r, "lattice:refused", "a usable description was refused: %s", why.c_str());
		check(m.get(), Y, "built", true);
		SIM_CHECK(close(I->GetMomentum(), Y.mom, 1e-12, 0), "lattice:momentum", "final momentum %.17g, described %.17g", I->GetMomentum(), Y.mom);
		sim::probe("still-usable");
	}
	// the same interface reads a good file afterwards
	if(I && sim::chance(1, 2))
	{
		const Mad N = gen_mad(true, o.sr);
		sim::put_file(p, write(N));
		if(r)
		{
			// what is left of the refused one is dropped by taking a new one
			I.reset(new MADInterface(p, o.p0));
			I->SetLogFile(log);
			apply(*I, o);
		}
		Expect Z;
		double zz = r ? 0 : 0;
		Z.mom = o.p0;
		expect(N, o, N.row.size(), Z, zz);
		if(r)
			m.reset(I->ConstructModel());
		else
		{
			I->AppendModel(p, o.p0);
			m.reset(Z.item.size() ? I->GetModel() : nullptr);
		}
		if(m)
			check(m.get(), Z, "after damage", true);
	}
	sim::steps(z);
}

// ---- XTFF -------------------------------------------------------------------
namespace
{
struct XRow
{
	std::string key, label, type;
	std::string c[11]; // as printed
	double v[11];
};
struct XOpt
{
	double nb;
	bool girders, ap;
	std::set<std::string> drift;
};
struct Tape
{
	double p0, init[14];
	std::vector<XRow> row;
};
void put(XRow& r, int i, double v)
{
	r.c[i] = v == 0 && i && sim::chance(1, 3) ? "" : sim::fmt(i ? "%.9E" : "%.6f", v);
	r.v[i] = r.c[i].empty() ? 0 : strtod(r.c[i].c_str(), nullptr);
}
XRow gen_xrow(int i, const std::string& key, double p0)
{
	XRow r;
	r.key = key;
	r.label = sim::fmt("%c%d", 'A' + (int) sim::draw(26), i);
	r.type = sim::chance(1, 2) ? "" : "TYP";
	double v[11] = {};
	auto nz = [&](double a) { return sim::real(0.05, 1) * (sim::chance(1, 2) ? -a : a); };
	v[0] = awkward_length(0.05, 6);
	if(key == "MARK" || key == "SROT" || ((key == "MONI" || key == "HKIC" || key == "VKIC" || key == "WIRE" || key == "HMON" || key == "DRIF") && sim::chance(1, 4)))
		v[0] = 0;
	v[5] = p0;
	if(key == "SBEN" || key == "RBEN")
	{
		v[1] = sim::chance(1, 12) ? 0 : nz(0.1);
		v[2] = v[1] == 0 || sim::chance(1, 2) ? 0 : nz(0.2);
		v[6] = sim::chance(1, 2) ? 0 : nz(1.6);
		if(key == "SBEN")
			v[7] = sim::chance(1, 2) ? 0 : nz(0.03), v[8] = sim::chance(1, 2) ? 0 : nz(0.03);
	}
	if(key == "QUAD")
		v[2] = nz(0.5), v[6] = sim::chance(1, 3) ? 0.78539816 * (1 + sim::sreal(5e-4)) : 0;
	if(key == "SEXT")
		v[3] = nz(5), v[6] = sim::chance(1, 3) ? 0.52359878 * (1 + sim::sreal(5e-4)) : 0;
	if(key == "OCTU" || key == "DECA")
		v[7] = nz(50);
	if(key == "SOLE")
		v[7] = nz(0.2);
	if(key == "LCAV")
	{
		v[7] = sim::real(300, 3000);
		v[8] = sim::real(1, 20);
		v[9] = sim::sreal(0.5);
		v[10] = sim::chance(1, 2) ? 0 : sim::real(1e12, 1e14);
		if(sim::chance(1, 4))
			r.label = sim::fmt("CRAB%c%d", sim::chance(1, 2) ? 'H' : 'V', i);
	}
	if(key == "RCOL")
		v[6] = sim::real(1e-3, 2e-2), v[7] = sim::real(1e-3, 2e-2);
	if(key == "SROT")
		v[7] = nz(1);
	if(key == "ZZZZ")
		r.key = sim::pick(std::vector<std::string>{"ZZZZ", "ECOL", "INST", "GKIC"});
	if(key != "SBEN" && key != "RBEN" && sim::chance(1, 4))
		v[4] = sim::real(1e-3, 3e-2);
	if(key == "MARK" && sim::chance(1, 8))
		r.label = "VPIV";
	for(int k = 0; k < 11; k++)
		put(r, k, v[k]);
	return r;
}
Tape gen_tape()
{
	static const std::vector<std::string> keys = {"DRIF", "QUAD", "SBEN", "RBEN", "MARK", "SEXT", "OCTU", "DECA", "LCAV", "SOLE", "HKIC", "VKIC",
												  "MONI", "HMON", "VMON", "WIRE", "RCOL", "SROT", "ZZZZ"};
	Tape T;
	T.p0 = strtod(sim::fmt("%.9E", sim::real(1, 100)).c_str(), nullptr);
	for(double& d : T.init)
		d = sim::chance(1, 4) ? 0 : sim::sreal(30);
	const int n = (int) sim::range(1, sim::tier_thorough() ? 30 : 12);
	std::vector<std::string> open;
	auto mark = [&](const std::string& s) {
			XRow r = gen_xrow(0, "MARK", T.p0);
			r.label = s;
			put(r, 4, 0);
			T.row.push_back(r);
		};
	for(int i = 0; i < n; i++)
	{
		if(open.size() < 3 && sim::chance(1, 6))
		{
			open.push_back(sim::fmt("%c_%d", "FSGM"[sim::draw(4)], i));
			mark(open.back());
		}
		else if(open.size() && T.row.back().label != open.back() && sim::chance(1, 4))
		{
			mark(open.back());
			open.pop_back();
		}
		T.row.push_back(gen_xrow(i, sim::pick(keys), T.p0));
	}
	while(open.size())
	{
		mark(open.back());
		open.pop_back();
	}
	return T;
}
XOpt gen_xopt()
{
	XOpt o;
	o.nb = sim::chance(1, 2) ? 0 : sim::real(1e9, 2e10);
	o.girders = sim::chance(1, 2);
	o.ap = !sim::chance(1, 4);
	static const std::vector<std::string> keys = {"QUAD", "SBEN", "MONI", "LCAV", "HMON", "RCOL", "SOLE"};
	if(sim::chance(1, 3))
		o.drift.insert(sim::pick(keys));
	return o;
}
void element(std::string& s, const XRow& r)
{
	s += sim::fmt("%-4s%-16s%12s%16s%16s%16s%16s %-16s %16s\n", r.key.c_str(), r.label.c_str(), r.c[0].c_str(), r.c[1].c_str(), r.c[2].c_str(),
			r.c[3].c_str(), r.c[4].c_str(), r.type.c_str(), r.c[5].c_str());
	s += sim::fmt("%16s%16s%16s%16s%16s", r.c[6].c_str(), r.c[7].c_str(), r.c[8].c_str(), r.c[9].c_str(), r.c[10].c_str());
	s += sim::chance(1, 2) ? sim::fmt("  %-23s\n", "FDN") : std::string("\n");
}
struct Marks
{
	size_t body, last;        // the elements start here; the last of the skipped lines starts here
	std::vector<std::pair<size_t, size_t> > num; // numbers of the elements
};
std::string write(const Tape& T, int count = -1, Marks* k = nullptr)
{
	std::string s = sim::fmt("%-56s%9d  XTFF\n", "TWISS   8.51/15", count < 0 ? (int) T.row.size() + 1 : count) + "a title\n";
	XRow r;
	r.key = "";
	r.label = "INITIAL";
	for(int i = 0; i < 11; i++)
		put(r, i, i == 5 ? T.p0 : 0);
	element(s, r);
	// alpha beta mu D Dp
	s += sim::fmt(" %.17g %.17g %.17g %.17g %.17g\n", T.init[0], T.init[1], 0.25, T.init[2], T.init[3]);
	s += sim::fmt(" %.17g %.17g %.17g %.17g %.17g\n", T.init[4], T.init[5], 0.5, T.init[6], T.init[7]);
	s += sim::fmt(" %.17g %.17g %.17g %.17g %.17g\n", T.init[8], T.init[9], T.init[10], T.init[11], 0.0);
	if(k)
		k->body = s.size();
	double suml = 0;
	for(auto& e : T.row)
	{
		const size_t at = s.size();
		element(s, e);
		const size_t second = s.find('\n', at) + 1;
		if(k)
		{
			static const int col[11] = {20, 32, 48, 64, 80, 114, 0, 16, 32, 48, 64}, wid[11] = {12, 16, 16, 16, 16, 16, 16, 16, 16, 16, 16};
			for(int i = 0; i < 11; i++)
				k->num.push_back({(i < 6 ? at : second) + col[i], (size_t) wid[i]});
		}
		suml += e.v[0];
		s += sim::fmt(" %15.9E %15.9E %15.9E %15.9E %15.9E\n", 1.0, 2.0, 0.1, 0.0, 0.0);
		s += sim::fmt(" %15.9E %15.9E %15.9E %15.9E %15.9E\n", 1.0, 2.0, 0.1, 0.0, 0.0);
		if(k)
			k->last = s.size();
		s += sim::fmt(" %15.9E %15.9E %15.9E %15.9E %15.9E\n", 0.0, 0.0, 0.0, 0.0, suml);
	}
	return s;
}
void expect(const Tape& T, const XOpt& o, Expect& X)
{
	Nest nest;
	nest.start.resize(X.frame.size(), 0);
	auto refuse = [&](const std::string& s) {
			if(X.refuse.empty())
				X.refuse = s;
		};
	for(auto& r : T.row)
	{
		const double* v = r.v;
		const double L = v[0], brho = X.mom / eV / SpeedOfLight;
		std::string k = r.key;
		double ax = o.ap ? v[4] : 0, ay = ax;
		bool round = true;
		auto add = [&](const std::string& type, double len, std::vector<double> w) {
				X.item.push_back({type, r.label, len, w, 0, ax, ay, round});
			};
		auto per = [&](double a) {
				if(a != 0 && L == 0)
					refuse("zero length " + r.label);
				return a == 0 ? 0 : a / L;
			};
		auto flat = [&] {
				if(v[6] != 0)
					refuse("tilt of " + r.label);
			};
		if(o.drift.count(k))
			k = "DRIF";
		else if(k == "HMON" || k == "VMON")
			k = o.drift.count("MONI") ? "DRIF" : "MONI";
		if(k == "QUAD")
		{
			const bool skew = std::fabs(v[6] / 0.78539816 - 1) < 1e-3;
			if(!skew)
				flat();
			add(skew ? "SkewQuadrupole" : "Quadrupole", L, {brho * v[2]});
		}
		else if(k == "SEXT")
		{
			const bool skew = std::fabs(v[6] / 0.52359878 - 1) < 1e-3;
			if(!skew)
				flat();
			add(skew ? "SkewSextupole" : "Sextupole", L, {brho * v[3]});
		}
		else if(k == "OCTU")
			flat(), add("Octupole", L, {brho * v[7]});
		else if(k == "DECA")
			flat(), add("Decapole", L, {brho * v[7]});
		else if((k == "SBEN" || k == "RBEN") && v[1] == 0 && v[2] != 0)
			refuse("gradient without bending in " + r.label);
		else if(k == "SBEN")
			add("SectorBend", L, {brho * per(v[1]), brho * v[2], per(v[1]), v[6], v[7], v[8]});
		else if(k == "RBEN")
		{
			const double h = v[1] == 0 ? 0 : per(2 * std::sin(v[1] / 2));
			add("SectorBend", h == 0 ? L : v[1] / h, {brho * h, brho * v[2], h, v[6], v[1] / 2, v[1] / 2});
		}
		else if(k == "LCAV")
		{
			const double phi = twoPi * v[9];
			if(r.label.substr(0, 4) == "CRAB")
				add("TransverseRFStructure", L, {per(v[8] * MV), phi, r.label[4] == 'V' ? pi / 2 : 0, v[7] * MHz});
			else
			{
				add("TWRFStructure", L, {per(v[8] * MV), phi, v[7] * MHz});
				X.mom += (v[8] * MV * std::cos(phi) - v[10] * Volt * o.nb * ElectronCharge) / GeV;
			}
		}
		else if(k == "SOLE")
			add("Solenoid", L, {brho * v[7]});
		else if(k == "HKIC")
			add("XCor", L, {0});
		else if(k == "VKIC")
			add("YCor", L, {0});
		else if(k == "MONI")
			add("BPM", L, {});
		else if(k == "WIRE")
			add("RMSProfileMonitor", L, {});
		else if(k == "MARK")
		{
			if(o.girders && r.label.size() > 1 && r.label[1] == '_')
			{
				nest.row(r.label, X, false);
				continue;
			}
			if(r.label == "VPIV")
				X.item.push_back({"PatchFrame", "VPIV", 0, {0}, 0, 0, 0, false});
			add("Marker", 0, {});
		}
		else if(k == "SROT")
			X.item.push_back({"PatchFrame", r.label, 0, {v[7]}, 0, 0, 0, false});
		else
		{
			if(k == "RCOL" && ax == 0 && o.ap)
				ax = v[6], ay = v[7], round = false;
			add("Drift", L, {});
		}
	}
	if(nest.st.size())
		refuse("frame left open");
}
void check_beam(const BeamData* b, const Tape& T, double nb)
{
	const double got[12] = {b->alpha_x, b->beta_x, b->Dx, b->Dxp, b->alpha_y, b->beta_y, b->Dy, b->Dyp, b->x0, b->xp0, b->y0, b->yp0};
	for(int i = 0; i < 12; i++)
		SIM_CHECK(got[i] == T.init[i], "lattice:beam", "initial condition [%d] is %.17g, described as %.17g", i, got[i], T.init[i]);
	SIM_CHECK(b->charge == nb && b->p0 == T.p0, "lattice:beam", "beam of %g particles at %.17g GeV, described as %g at %.17g", b->charge,
			b->p0, nb, T.p0);
}
void set_up(XTFFInterface& I, const XOpt& o)
{
	I.IncludeApertures(o.ap);
	I.ConstructGirders(o.girders);
	for(auto& d : o.drift)
		I.TreatTypeAsDrift(d);
}
void mix_rows(const Tape& T)
{
	for(auto& r : T.row)
		sim::mix(sim::hash_str(r.key) ^ (r.v[0] == 0));
}
typedef std::pair<AcceleratorModel*, BeamData*> Parsed;
}

SCENARIO(xtff_lattice)
{
	sim::context("lattice:xtff");
	sim::heap_config(sim::heap_random());
	Tape T = gen_tape();
	if(sim::chance(1, 6))
		for(auto& r : T.row)
			if(r.key == "SBEN" || r.key == "RBEN")
				put(r, 1, 0);
	const XOpt o = gen_xopt();
	const bool own = sim::chance(1, 3);
	Expect X;
	X.mom = own ? sim::real(1, 100) : T.p0;
	const double p0 = X.mom;
	expect(T, o, X);
	sim::ev("%zu rows p0 %.17g nb %g girders %d apertures %d", T.row.size(), p0, o.nb, o.girders, o.ap);
	for(auto& r : T.row)
		sim::ev("row %s %s L %s", r.key.c_str(), r.label.c_str(), r.c[0].c_str());
	mix_rows(T);
	if(T.row.size() > 2)
		sim::nontrivial();
	const std::string p = sim::path("lattice.xtff");
	sim::put_file(p, write(T));
	for(int pass = 0; pass < 2; pass++)
	{
		sim::DiskCfg d;
		if(sim::chance(1, 4))
		{
			d.short_io = (int) sim::range(1, 64);
			d.eintr_every = (int) sim::range(0, 5);
			sim::disk(d);
		}
		std::ostringstream log;
		XTFFInterface I(p, o.nb, sim::chance(1, 2) ? &log : nullptr);
		set_up(I, o);
		Parsed r(nullptr, nullptr);
		std::string why;
		const bool no = refused([&] { r = own ? I.Parse(p0) : I.Parse(); }, why);
		std::unique_ptr<AcceleratorModel> m(r.first);
		std::unique_ptr<BeamData> b(r.second);
		sim::disk(sim::DiskCfg());
		if(X.refuse.size())
		{
			SIM_CHECK(no, "lattice:accepted", "a description with a fault (%s) was turned into a machine", X.refuse.c_str());
			sim::probe("refused");
			continue;
		}
		SIM_CHECK(!no, "lattice:refused", "a correct description was refused: %s", why.c_str());
		check(m.get(), X, pass ? "built again" : "built", false);
		check_beam(b.get(), T, o.nb);
		for(auto& i : X.item)
			sim::steps(i.len);
		if(X.frame.size())
			sim::probe("framed");
	}
}

SCENARIO(xtff_append)
{
	sim::context("lattice:xtff-append");
	sim::heap_config(sim::heap_random());
	struct One
	{
		XOpt o;
		Expect X;
		std::unique_ptr<XTFFInterface> I;
		std::unique_ptr<Tape> first;
		int left;
	};
	std::vector<One> W(sim::range(1, 2));
	int id = 0;
	for(auto& w : W)
	{
		w.o = gen_xopt();
		w.I.reset(new XTFFInterface(w.o.nb));
		set_up(*w.I, w.o);
		w.left = (int) sim::range(1, 5);
	}
	auto take = [&](One& w) {
			Parsed r = w.I->GetModel();
			std::unique_ptr<AcceleratorModel> m(r.first);
			std::unique_ptr<BeamData> b(r.second);
			check(m.get(), w.X, "appended", false);
			check_beam(b.get(), *w.first, w.o.nb);
			w.X = Expect();
			w.first.reset();
		};
	for(;;)
	{
		std::vector<One*> todo;
		for(auto& w : W)
			if(w.left > 0)
				todo.push_back(&w);
		if(todo.empty())
			break;
		One& w = *sim::pick(todo);
		w.left--;
		const int what = (int) sim::draw(6);
		if(what == 0)
		{
			std::string why;
			SIM_CHECK(refused([&] { w.I->AppendModel(sim::path("missing.xtff")); }, why), "lattice:accepted", "a missing file was accepted");
			sim::fault("missing-file");
			sim::ev("missing");
			continue;
		}
		if(what == 1)
		{
			std::string why;
			if(w.first)
				take(w), sim::probe("taken");
			else
			{
				Parsed r(nullptr, nullptr);
				SIM_CHECK(refused([&] { r = w.I->GetModel(); }, why) || !r.first, "lattice:accepted", "a machine came from nothing");
				sim::probe("nothing-yet");
			}
			continue;
		}
		const Tape T = gen_tape();
		mix_rows(T);
		if(!w.first)
		{
			w.first.reset(new Tape(T));
			w.X.mom = T.p0;
		}
		expect(T, w.o, w.X);
		const std::string p = sim::path(sim::fmt("part%d.xtff", id++));
		sim::put_file(p, write(T));
		sim::ev("append %zu rows to %d", T.row.size(), (int) (&w - &W[0]));
		w.I->AppendModel(p);
		sim::nontrivial();
		sim::steps((double) T.row.size());
	}
	for(auto& w : W)
		if(w.first)
			take(w);
}

SCENARIO(xtff_damage)
{
	sim::context("lattice:xtff-damage");
	sim::heap_config(sim::heap_random());
	Tape T = gen_tape();
	XOpt o = gen_xopt();
	Marks k;
	std::string text = write(T, -1, &k);
	bool must = true, may = false, missing = false;
	sim::DiskCfg d;
	static const char* names[] = {"cut", "garbled-number", "read-error", "missing-file", "wrong-count", "bad-frame", "tilted", "zero-length"};
	const int what = (int) sim::draw(8);
	switch(what)
	{
	case 0:
	{
		const size_t n = sim::chance(1, 4) ? k.last + sim::draw(text.size() - k.last) : sim::draw(text.size());
		text.resize(n);
		must = n <= k.last;
		may = true;
		sim::ev("cut to %zu, last line at %zu", n, k.last);
		break;
	}
	case 1:
	{
		std::vector<size_t> at;
		for(auto& f : k.num)
			for(size_t i = f.first; i < f.first + f.second && text[i] != '\n'; i++)
				if(isdigit(text[i]))
					at.push_back(i);
		const size_t i = at[sim::draw(at.size())];
		text[i] = "qG#,/"[sim::draw(5)];
		sim::ev("garbled at %zu", i);
		break;
	}
	case 2:
		d.read_budget = (int64_t) sim::draw(k.last);
		d.read_err = sim::chance(1, 2) ? EIO : 0;
		d.short_io = (int) sim::range(1, 256);
		sim::ev("read error after %lld", (long long) d.read_budget);
		break;
	case 3:
		missing = true;
		break;
	case 4:
		text = write(T, (int) T.row.size() + 2 + (int) sim::draw(3));
		break;
	case 5:
	{
		XRow r = gen_xrow(0, "MARK", T.p0);
		r.label = sim::pick(std::vector<std::string>{"X_9", "G_odd", "F_odd"});
		T.row.insert(T.row.begin() + sim::draw(T.row.size() + 1), r);
		if(r.label == "X_9")
			T.row.push_back(r);
		must = o.girders;
		text = write(T);
		break;
	}
	case 6:
	{
		XRow r = gen_xrow(999, sim::pick(std::vector<std::string>{"QUAD", "SEXT", "OCTU", "DECA"}), T.p0);
		put(r, 6, sim::real(0.01, 0.3));
		T.row.insert(T.row.begin() + sim::draw(T.row.size() + 1), r);
		must = !o.drift.count(r.key);
		text = write(T);
		break;
	}
	default:
	{
		XRow r = gen_xrow(999, sim::pick(std::vector<std::string>{"SBEN", "RBEN", "LCAV"}), T.p0);
		put(r, 0, 0);
		if(r.key != "LCAV" && r.v[1] == 0)
			put(r, 1, 0.01);
		T.row.insert(T.row.begin() + sim::draw(T.row.size() + 1), r);
		must = !o.drift.count(r.key);
		text = write(T);
	}
	}
	sim::fault(names[what]);
	sim::nontrivial();
	mix_rows(T);
	const std::string p = sim::path("lattice.xtff");
	if(!missing)
		sim::put_file(p, text);
	sim::disk(d);
	std::unique_ptr<XTFFInterface> I;
	Parsed r(nullptr, nullptr);
	std::string why;
	const bool append = sim::chance(1, 2);
	const bool no = refused([&] {
				if(append)
				{
					I.reset(new XTFFInterface(o.nb));
					set_up(*I, o);
					I->AppendModel(p);
					r = I->GetModel();
				}
				else
				{
					I.reset(new XTFFInterface(p, o.nb));
					set_up(*I, o);
					r = I->Parse();
				}
			}, why);
	sim::disk(sim::DiskCfg());
	std::unique_ptr<AcceleratorModel> m(r.first);
	std::unique_ptr<BeamData> b(r.second);
	if(must)
		SIM_CHECK(no, "lattice:accepted", "a damaged description (%s) was turned into a machine", names[what]);
	else
	{
		SIM_CHECK(may || !no, "lattice:refused", "a usable description was refused: %s", why.c_str());
		if(!no)
		{
			Expect X;
			X.mom = T.p0;
			expect(T, o, X);
			check(m.get(), X, "damaged where it does not matter", false);
			check_beam(b.get(), T, o.nb);
			sim::probe("still-usable");
		}
	}
	// a new interface is not affected by the refused one
	if(sim::chance(1, 2))
	{
		const Tape N = gen_tape();
		sim::put_file(p, write(N));
		XTFFInterface J(p, o.nb);
		set_up(J, o);
		Parsed q = J.Parse();
		std::unique_ptr<AcceleratorModel> m2(q.first);
		std::unique_ptr<BeamData> b2(q.second);
		Expect X;
		X.mom = N.p0;
		expect(N, o, X);
		check(m2.get(), X, "after damage", false);
	}
	sim::steps((double) T.row.size());
}

// one allocation fails while a description is turned into a machine (C21)
SCENARIO(lattice_memory)
{
	sim::context("lattice:memory");
	sim::heap_config(sim::heap_random());
	const bool mad = sim::chance(1, 2);
	const MOpt mo = gen_opt();
	const XOpt xo = gen_xopt();
	Mad M;
	Tape T;
	Expect X;
	double z = 0;
	std::string text;
	if(mad)
	{
		M = gen_mad(true, mo.sr);
		X.mom = mo.p0;
		expect(M, mo, M.row.size(), X, z);
		text = write(M);
		mix_rows(M);
	}
	else
	{
		T = gen_tape();
		X.mom = T.p0;
		expect(T, xo, X);
		text = write(T);
		mix_rows(T);
	}
	if(X.refuse.size())
		return;
	const std::string p = sim::path("lattice");
	sim::put_file(p, text);
	const bool file = sim::chance(1, 2);
	// what a caller holds on to until the machine is there
	auto make = [&](std::unique_ptr<AcceleratorModel>& m, std::unique_ptr<BeamData>& b)
		{
			if(mad)
			{
				std::istringstream in(text);
				std::unique_ptr<MADInterface> I(file ? new MADInterface(p, mo.p0) : new MADInterface(&in, mo.p0));
				apply(*I, mo);
				m.reset(I->ConstructModel());
			}
			else
			{
				XTFFInterface I(p, xo.nb, nullptr);
				set_up(I, xo);
				Parsed r = I.Parse();
				m.reset(r.first);
				b.reset(r.second);
			}
		};
	uint64_t n = sim::heap_count();
	{
		std::unique_ptr<AcceleratorModel> m;
		std::unique_ptr<BeamData> b;
		make(m, b);
		n = sim::heap_count() - n;
		check(m.get(), X, "built", mad);
	}
	const int tries = (int) sim::range(1, 5);
	for(int i = 0; i < tries; i++)
	{
		const uint64_t at = 1 + sim::draw(n);
		sim::ev("%s: allocation %llu of %llu fails", mad ? "MAD" : "XTFF", (unsigned long long) at, (unsigned long long) n);
		std::unique_ptr<AcceleratorModel> m;
		std::unique_ptr<BeamData> b;
		bool reported = false;
		sim::heap_fail_at(at);
		try
		{
			make(m, b);
		}
		catch(std::exception&)
		{
			reported = true;
		}
		if(sim::heap_fail_clear())
			sim::fault("allocation.failure");
		sim::mix(at);
		if(!reported)
			check(m.get(), X, "built without enough memory", mad);
		m.reset();
		b.reset();
		make(m, b);
		check(m.get(), X, "built after a failure", mad);
		sim::nontrivial();
	}
	sim::steps(z);
}
