// C26: apertures and collimator settings read from files and applied to machines.
#include "gen.h"
#include "ApertureConfiguration.h"
#include "CollimatorDatabase.h"
#include "CollimatorAperture.h"
#include "InterpolatedApertures.h"
#include "LatticeFunctions.h"
#include "MaterialData.h"
#include <cerrno>
#include <functional>
#include <set>
#include <sstream>
using namespace gen;

namespace
{
const char* TYPES[] = {"CIRCLE", "RECTANGLE", "ELLIPSE", "RECTELLIPSE", "OCTAGON"};
struct Row
{
	std::string type;
	double s, l, p[4];
	bool used() const
	{
		return p[0] != 0 || p[1] != 0 || p[2] != 0 || p[3] != 0;
	}
};
struct Point
{
	double s;
	int type;
	double p[4];
};
// each shape is star-shaped about the axis
bool in_shape(int type, const double* p, double x, double y)
{
	auto ell = [&](double h, double v) { return (x / h) * (x / h) + (y / v) * (y / v) < 1; };
	const double ax = std::fabs(x), ay = std::fabs(y);
	switch(type)
	{
	case 0:
		return ell(p[0], p[0]);
	case 1:
		return ax < p[0] && ay < p[1];
	case 2:
		return ell(p[0], p[1]);
	case 3:
		return ax < p[0] && ay < p[1] && ell(p[2], p[3]);
	default:
	{
		const double px = p[0], py = p[0] * std::tan(p[2]), qx = p[1] / std::tan(p[3]), qy = p[1];
		return ax < p[0] && ay < p[1] && (qx - px) * (ay - py) - (qy - py) * (ax - px) > 0;
	}
	}
}
void full(const Point& a, double* q)
{
	switch(a.type)
	{
	case 0:
		q[0] = q[1] = q[2] = q[3] = a.p[0];
		break;
	case 2:
		q[0] = q[2] = a.p[0];
		q[1] = q[3] = a.p[1];
		break;
	default:
		for(int i = 0; i < 4; i++)
			q[i] = a.p[i];
	}
}
enum Verdict { OUT, IN, OPEN };
Verdict scaled(double m, double x, double y, const std::function<bool(double, double)>& f)
{
	const bool lo = f(x * (1 - m), y * (1 - m)), hi = f(x * (1 + m), y * (1 + m));
	return lo == hi ? (lo ? IN : OUT) : OPEN;
}
// between two points of the profile, at the fraction t
Verdict between(const Point& a, const Point& b, double t, double x, double y, double m)
{
	auto lerp = [&](double u, double v) { return u + (v - u) * t; };
	if(a.type == b.type)
	{
		double p[4];
		for(int i = 0; i < 4; i++)
			p[i] = lerp(a.p[i], b.p[i]);
		return scaled(m, x, y, [&](double u, double v) { return in_shape(a.type, p, u, v); });
	}
	if(a.type == 1 || b.type == 1)
	{
		// how a rectangle turns into a round shape is not laid down: within both, or beyond both boxes
		const Verdict va = scaled(m, x, y, [&](double u, double v) { return in_shape(a.type, a.p, u, v); });
		const Verdict vb = scaled(m, x, y, [&](double u, double v) { return in_shape(b.type, b.p, u, v); });
		if(va == IN && vb == IN)
			return IN;
		double qa[4], qb[4];
		full(a, qa);
		full(b, qb);
		const double w = std::max(qa[0], qb[0]), h = std::max(qa[1], qb[1]);
		return std::fabs(x) > w * (1 + m) || std::fabs(y) > h * (1 + m) ? OUT : OPEN;
	}
	double qa[4], qb[4], p[4];
	full(a, qa);
	full(b, qb);
	for(int i = 0; i < 4; i++)
		p[i] = lerp(qa[i], qb[i]);
	return scaled(m, x, y, [&](double u, double v) { return in_shape(3, p, u, v); });
}

struct Item
{
	int kind;
	double len, pos;
	std::string name;
	bool preset;
	MaterialProperties* material = nullptr;
};
struct Machine
{
	std::unique_ptr<AcceleratorModel> model;
	std::vector<AcceleratorComponent*> comp;
	std::vector<Aperture*> before;
	std::vector<std::unique_ptr<Aperture> > own;
};
Machine build(const std::vector<Item>& items)
{
	Machine M;
	AcceleratorModelConstructor ctor;
	for(auto& it : items)
	{
		El e = El();
		e.kind = it.kind;
		e.len = it.len;
		e.name = it.name;
		if(it.kind == SBEND)
			e.s1 = 0.01;
		if(it.kind == QUAD)
			e.s1 = 0.1;
		AcceleratorComponent* c = it.material ? new Collimator(it.name, it.len, it.material, 100) : gen::make(e, 100);
		c->SetComponentLatticePosition(it.pos);
		Aperture* a = nullptr;
		if(it.preset)
		{
			a = new CircularAperture(0.017);
			c->SetAperture(a);
		}
		M.before.push_back(a);
		M.comp.push_back(c);
		ctor.AppendComponent(*c);
	}
	M.model.reset(ctor.GetModel());
	return M;
}
std::vector<Item> gen_items(bool pre)
{
	std::vector<Item> v;
	const int n = (int) sim::range(1, 9);
	double pos = 0;
	static const int ks[] = {DRIFT, DRIFT, DRIFT, QUAD, SBEND, MARKER, COLL, SOL, BPMK};
	for(int i = 0; i < n; i++)
	{
		Item e;
		e.kind = ks[sim::draw(9)];
		e.len = e.kind == MARKER || (e.kind == DRIFT && sim::chance(1, 12)) ? 0 : (double) sim::range(1, 160) / 64;
		if(e.kind == BPMK && sim::chance(1, 2))
			e.len = 0;
		e.pos = pos;
		e.name = sim::fmt("%c%d", 'A' + e.kind, sim::chance(1, 6) ? 0 : i);
		e.preset = pre && sim::chance(1, 7);
		pos += e.len;
		v.push_back(e);
	}
	return v;
}
void gen_shape(Row& r, int flavour)
{
	const int t = flavour >= 0 && sim::chance(4, 5) ? flavour : (int) sim::draw(5);
	r.type = TYPES[t];
	auto size = [&]() { return sim::chance(1, 3) ? 0.02 : sim::real(0.004, 0.05); };
	r.p[0] = size();
	r.p[1] = t == 0 ? 0 : size();
	r.p[2] = r.p[3] = 0;
	if(t == 3)
	{
		r.p[2] = size();
		r.p[3] = size();
	}
	if(t == 4)
	{
		// the two corners of the cut lie on the sides
		const double diag = std::atan2(r.p[1], r.p[0]);
		r.p[2] = diag * sim::real(0.2, 0.9);
		r.p[3] = diag + (M_PI / 2 - diag) * sim::real(0.1, 0.8);
	}
}
std::vector<Row> gen_rows(const std::vector<Item>& items, bool jitter)
{
	double end = 0;
	std::set<double> cuts;
	for(auto& e : items)
	{
		cuts.insert(e.pos);
		end = e.pos + e.len;
		cuts.insert(end);
	}
	const int more = (int) sim::draw(6);
	for(int i = 0; i < more && end > 0; i++)
		cuts.insert((double) sim::range(0, (int64_t) (end * 64)) / 64);
	std::vector<double> c;
	for(double u : cuts)
	{
		double e = jitter && sim::chance(1, 2) && u > 0 && u < end ? sim::real(1e-9, 9e-8) * (sim::chance(1, 2) ? 1 : -1) : 0;
		c.push_back(u + e);
	}
	const int dense = (int) sim::range(0, 3);
	const int flavour = sim::chance(2, 3) ? (int) sim::draw(5) : -1;
	const bool same = sim::chance(1, 5);
	std::vector<Row> rows;
	Row keep;
	gen_shape(keep, flavour);
	auto put = [&](double s, double l) {
			Row r;
			r.s = s;
			r.l = l;
			if((int) sim::draw(4) < dense + 1)
			{
				if(same && sim::chance(4, 5))
				{
					r.type = keep.type;
					std::copy(keep.p, keep.p + 4, r.p);
				}
				else
					gen_shape(r, flavour);
			}
			else
			{
				r.type = sim::chance(1, 2) ? "NONE" : "CIRCLE";
				r.p[0] = r.p[1] = r.p[2] = r.p[3] = 0;
			}
			rows.push_back(r);
		};
	for(size_t i = 0; i < c.size(); i++)
	{
		if(i > 0 && sim::chance(4, 5))
			put(c[i], c[i] - c[i - 1]);
		while(sim::chance(1, 4))
			put(c[i], 0);
	}
	return rows;
}
std::string write(const std::vector<Row>& rows, bool type_last, const std::vector<std::string>& drop = std::vector<std::string>())
{
	std::vector<std::string> cols = {"KEYWORD", "NAME", "S", "L", "APER_1", "APER_2", "APER_3", "APER_4", "APERTYPE"};
	const size_t n = cols.size() - (type_last ? 1 : 0);
	if(sim::chance(1, 2))
		for(size_t i = n - 1; i > 0; i--)
			std::swap(cols[i], cols[sim::draw(i + 1)]);
	for(auto& d : drop)
		cols.erase(std::find(cols.begin(), cols.end(), d));
	std::string t = "@ NAME %05s \"TWISS\"\n@ LENGTH %le 12.5\n*";
	for(auto& c : cols)
		t += " " + c;
	t += "\n$";
	for(auto& c : cols)
		t += c == "KEYWORD" || c == "NAME" || c == "APERTYPE" ? " %s" : " %le";
	t += "\n";
	size_t k = 0;
	for(auto& r : rows)
	{
		for(auto& c : cols)
		{
			if(c == "KEYWORD")
				t += r.l > 0 ? " \"DRIFT\"" : " \"MARKER\"";
			else if(c == "NAME")
				t += sim::fmt(" \"R%zu\"", k);
			else if(c == "APERTYPE")
				t += " \"" + r.type + "\"";
			else
				t += sim::fmt(" %.17g", c == "S" ? r.s : c == "L" ? r.l : r.p[c[5] - '1']);
		}
		t += "\n";
		k++;
	}
	return t;
}
std::vector<Point> points(const std::vector<Row>& rows)
{
	std::vector<Point> v;
	for(auto& r : rows)
		if(r.used())
		{
			Point p;
			p.type = (int) (std::find(TYPES, TYPES + 5, r.type) - TYPES);
			std::copy(r.p, r.p + 4, p.p);
			p.s = r.s - r.l;
			v.push_back(p);
			p.s = r.s;
			v.push_back(p);
		}
	return v;
}
struct Expect
{
	std::vector<Point> pts;
	double ring;
	bool jitter;
};
// what the profile says at the place z of a drift
Verdict profile(const Expect& X, double z, double x, double y)
{
	const double m = X.jitter ? 2e-3 : 1e-9, near = X.jitter ? 1e-6 : 1e-12;
	std::vector<Point> q;
	Point w = X.pts.back();
	w.s -= X.ring;
	q.push_back(w);
	q.insert(q.end(), X.pts.begin(), X.pts.end());
	w = X.pts.front();
	w.s += X.ring;
	q.push_back(w);
	bool any = false;
	Verdict v = OPEN;
	auto join = [&](Verdict u) {
			v = any && u != v ? OPEN : u;
			any = true;
		};
	for(size_t i = 0; i + 1 < q.size(); i++)
	{
		const Point& a = q[i], & b = q[i + 1];
		if(b.s - a.s <= near)
		{
			if(std::fabs(z - a.s) <= near)
			{
				join(between(a, a, 0, x, y, m));
				join(between(b, b, 0, x, y, m));
			}
		}
		else if(z >= a.s - near && z <= b.s + near)
			join(between(a, b, std::min(1.0, std::max(0.0, (z - a.s) / (b.s - a.s))), x, y, m));
	}
	return any ? v : OPEN;
}
Verdict fixed_at(const Expect& X, double pos, double x, double y)
{
	const double m = 1e-9;
	bool any = false;
	Verdict v = OPEN;
	auto join = [&](const Point& p) {
			Verdict u = between(p, p, 0, x, y, m);
			v = any && u != v ? OPEN : u;
			any = true;
		};
	bool found = false;
	for(auto& p : X.pts)
	{
		if(p.s >= pos && !found)
		{
			found = true;
			join(p);
		}
		else if(X.jitter && std::fabs(p.s - pos) < 1e-6)
			join(p);
	}
	if(!found)
	{
		// beyond the last entry: the last one, or the first one of the next turn
		join(X.pts.back());
		join(X.pts.front());
	}
	return v;
}
// a mixture of an octagon and a round shape in one drift cannot be interpolated (1: may be one, 2: is one)
int incompatible(const Expect& X, const std::vector<Item>& items)
{
	int worst = 0;
	for(auto& e : items)
	{
		if(e.kind != DRIFT || e.len == 0 || e.preset)
			continue;
		const double near = 2e-6;
		std::vector<Point> q;
		Point w = X.pts.back();
		w.s -= X.ring;
		q.push_back(w);
		q.insert(q.end(), X.pts.begin(), X.pts.end());
		w = X.pts.front();
		w.s += X.ring;
		q.push_back(w);
		std::set<int> may, must;
		for(size_t i = 0; i < q.size(); i++)
		{
			const bool within = q[i].s >= e.pos - near && q[i].s <= e.pos + e.len + near;
			const bool before = q[i].s < e.pos && i + 1 < q.size() && q[i + 1].s >= e.pos - near;
			const bool after = q[i].s > e.pos + e.len && i > 0 && q[i - 1].s <= e.pos + e.len + near;
			if(within || before || after)
				may.insert(q[i].type == 4);
			if(i + 1 < q.size() && std::min(q[i + 1].s, e.pos + e.len) - std::max(q[i].s, e.pos) > 2 * near)
			{
				must.insert(q[i].type == 4);
				must.insert(q[i + 1].type == 4);
			}
		}
		worst = std::max(worst, must.size() > 1 ? 2 : may.size() > 1 ? 1 : 0);
	}
	return worst;
}
void judge(const Expect& X, const std::vector<Item>& items, const Machine& M, const char* when)
{
	std::set<const void*> seen;
	for(size_t k = 0; k < items.size(); k++)
	{
		const Item& e = items[k];
		Aperture* a = M.comp[k]->GetAperture();
		SIM_CHECK(M.comp[k]->GetLength() == e.len && M.comp[k]->GetComponentLatticePosition() == e.pos && M.comp[k]->GetName() == e.name, "settings:element",
			"%s: element %zu (%s) changed", when, k, e.name.c_str());
		if(e.preset || e.len == 0 || X.pts.empty())
		{
			SIM_CHECK(a == M.before[k], "settings:other", "%s: element %zu (%s, length %g) is not to be set, but its aperture changed", when, k, e.name.c_str(), e.len);
			continue;
		}
		SIM_CHECK(a != nullptr, "settings:missing", "%s: element %zu (%s) at %g got no aperture", when, k, e.name.c_str(), e.pos);
		SIM_CHECK(seen.insert(a).second, "settings:shared", "%s: element %zu (%s) shares its aperture with another", when, k, e.name.c_str());
		const int tries = sim::tier_thorough() ? 24 : 12;
		for(int i = 0; i < tries; i++)
		{
			double z = 0;
			switch(sim::draw(5))
			{
			case 0:
				break;
			case 1:
				z = e.len;
				break;
			case 2:
			{
				// at one of the points
				const double s = X.pts[sim::draw(X.pts.size())].s - e.pos;
				z = std::min(e.len, std::max(0.0, s));
				break;
			}
			default:
				z = e.len * sim::real(0, 1);
			}
			const double ang = sim::chance(1, 8) ? (double) sim::draw(4) * M_PI / 2 : sim::real(0, 2 * M_PI);
			const double r = sim::real(0, 0.06);
			const double x = r * std::cos(ang), y = r * std::sin(ang);
			const Verdict v = e.kind == DRIFT ? profile(X, e.pos + z, x, y) : fixed_at(X, e.pos, x, y);
			if(v == OPEN)
			{
				sim::probe("undecided");
				continue;
			}
			sim::probe(e.kind == DRIFT ? "drift" : "element");
			const bool got = a->CheckWithinApertureBoundaries(x, y, z);
			SIM_CHECK(got == (v == IN), "settings:shape", "%s: element %zu (%s at %g, length %g) at %g: (%g, %g) is %s the stated aperture, but taken to be %s", when, k,
				e.name.c_str(), e.pos, e.len, z, x, y, v == IN ? "inside" : "outside", got ? "inside" : "outside");
		}
	}
}
void log_rows(const std::vector<Item>& items, const std::vector<Row>& rows)
{
	for(auto& e : items)
		sim::ev("element %s kind %d at %.9g length %.9g%s", e.name.c_str(), e.kind, e.pos, e.len, e.preset ? " with an aperture" : "");
	for(auto& r : rows)
		sim::mix((uint64_t) (r.s * 64) * 8 + (r.used() ? r.type[0] % 8 : 7)), sim::ev("row S %.17g L %.17g %s %.6g %.6g %.6g %.6g", r.s, r.l, r.type.c_str(), r.p[0], r.p[1], r.p[2], r.p[3]);
}
void gentle()
{
	sim::DiskCfg d;
	if(sim::chance(1, 2))
		d.short_io = (int) sim::range(1, 300);
	if(sim::chance(1, 3))
		d.eintr_every = (int) sim::range(2, 5);
	sim::disk(d);
}
}

SCENARIO(apertures)
{
	sim::context("apertures");
	sim::heap_config(sim::heap_random());
	std::vector<Item> items = gen_items(true);
	Expect X;
	X.jitter = sim::chance(1, 4);
	std::vector<Row> rows = gen_rows(items, X.jitter);
	X.pts = points(rows);
	X.ring = items.back().pos + items.back().len;
	log_rows(items, rows);
	const std::string f = sim::path("aperture.tfs");
	sim::put_file(f, write(rows, sim::chance(1, 2)));
	gentle();
	const int machines = (int) sim::range(1, 2);
	std::vector<Machine> Ms;
	for(int i = 0; i < machines; i++)
		Ms.push_back(build(items));
	const int bad = X.pts.empty() ? 0 : incompatible(X, items);
	bool refused = false;
	std::unique_ptr<ApertureConfiguration> conf;
	std::ostringstream log;
	try
	{
		conf.reset(new ApertureConfiguration(f));
		if(sim::chance(1, 3))
			conf->SetLogFile(log);
		for(int i = 0; i < machines; i++)
		{
			conf->ConfigureElementApertures(Ms[i].model.get());
			sim::steps(items.size());
			judge(X, items, Ms[i], i ? "second machine" : "machine");
		}
	}
	catch(std::exception& e)
	{
		sim::ev("refused: %s", e.what());
		refused = true;
	}
	SIM_CHECK(!refused || bad || X.pts.empty(), "settings:refused", "a correct aperture file is refused");
	SIM_CHECK(refused || bad < 2, "settings:accepted", "an octagon is turned into a round shape within a drift, and nothing said");
	if(!X.pts.empty())
		sim::nontrivial();
	if(!refused)
	{
		// again: every element has its aperture now
		for(auto& M : Ms)
		{
			std::vector<Aperture*> was;
			for(auto c : M.comp)
				was.push_back(c->GetAperture());
			conf->ConfigureElementApertures(M.model.get());
			for(size_t k = 0; k < was.size(); k++)
				SIM_CHECK(M.comp[k]->GetAperture() == was[k], "settings:again", "configuring again replaced the aperture of element %zu", k);
		}
		if(sim::chance(1, 2))
		{
			conf->DeleteAllApertures(Ms[0].model.get());
			for(auto c : Ms[0].comp)
				SIM_CHECK(c->GetAperture() == nullptr, "settings:delete", "%s keeps an aperture", c->GetName().c_str());
			if(machines > 1)
				judge(X, items, Ms[1], "the other machine");
		}
	}
	sim::mix(rows.size() * 1000 + items.size() * 10 + (bad ? 1 : 0));
	sim::done();
}

SCENARIO(aperture_damage)
{
	sim::context("aperture-damage");
	sim::heap_config(sim::heap_random());
	std::vector<Item> items = gen_items(false);
	Expect X;
	X.jitter = false;
	std::vector<Row> rows;
	do
		rows = gen_rows(items, false);
	while(rows.empty());
	const int kind = (int) sim::draw(6);
	X.ring = items.back().pos + items.back().len;
	const std::string f = sim::path("aperture.tfs");
	bool must = false;
	std::string text;
	sim::DiskCfg d;
	if(sim::chance(1, 2))
		d.short_io = (int) sim::range(1, 300);
	if(kind == 2)
	{
		Row& r = rows[sim::draw(rows.size())];
		if(!r.used())
			gen_shape(r, -1);
		static const char* odd[] = {"CIRCL", "circle", "RACETRACK", "NONE", "HEXAGON", "CIRCLE2"};
		r.type = odd[sim::draw(6)];
		must = true;
		sim::fault("settings.unknown-shape");
	}
	log_rows(items, rows);
	if(kind == 3)
	{
		static const char* cs[] = {"S", "L", "APER_1", "APER_2", "APER_3", "APER_4", "APERTYPE"};
		text = write(rows, false, {cs[sim::draw(7)]});
		for(auto& r : rows)
			must = must || r.used();
		sim::fault("settings.missing-column");
	}
	else
		text = write(rows, true);
	size_t at = sim::chance(1, 2) ? sim::draw(text.size()) : text.size() - 1 - sim::draw(std::min(text.size(), (size_t) 200));
	if(kind == 0)
	{
		text.resize(at);
		sim::fault("file.truncated");
	}
	if(kind == 4)
	{
		d.read_budget = (int64_t) at;
		d.read_err = EIO;
		must = true;
	}
	if(kind == 5)
	{
		size_t b = text.find("\n$");
		b = text.find('\n', b + 1) + 1;
		const size_t k = b + sim::draw(text.size() - b);
		if(text[k] != '\n' && text[k] != ' ' && text[k] != '"')
			text[k] = "xX@,;_"[sim::draw(6)];
		sim::ev("byte %zu garbled", k);
		sim::fault("file.garbled");
	}
	if(kind != 1)
		sim::put_file(f, text);
	else
	{
		must = true;
		sim::fault("file.missing");
	}
	sim::disk(d);
	sim::ev("damage %d at %zu", kind, at);
	Machine M = build(items);
	bool refused = false, loaded = false;
	try
	{
		ApertureConfiguration conf(f);
		loaded = true;
		conf.ConfigureElementApertures(M.model.get());
	}
	catch(std::exception& e)
	{
		refused = true;
		sim::ev("refused: %s", e.what());
	}
	SIM_CHECK(refused || !must, "settings:hidden-damage", "an aperture file with damage of kind %d was accepted", kind);
	if(refused && !loaded)
		for(size_t k = 0; k < items.size(); k++)
			SIM_CHECK(M.comp[k]->GetAperture() == M.before[k], "settings:partial", "a refused file changed element %zu", k);
	if(!refused && kind == 0)
	{
		// whole rows only
		std::istringstream is(text);
		std::string line;
		size_t n = 0, want = 0;
		while(std::getline(is, line))
			n += line.size() && line[0] == ' ' && line.find_first_not_of(' ') != std::string::npos;
		want = n;
		X.pts = points(std::vector<Row>(rows.begin(), rows.begin() + want));
		if(text.size() && text.back() != '\n' && n > 0)
			judge(X, items, M, "cut short within a row");
		else
			judge(X, items, M, "cut short after a row");
	}
	if(!refused && kind == 5)
	{
		// at most a name or keyword was hit, or a row without an aperture
		X.pts = points(rows);
		judge(X, items, M, "garbled name");
	}
	sim::nontrivial();
	sim::mix(kind * 10 + refused + rows.size() * 100);
	sim::done();
}

namespace
{
struct Setting
{
	std::string name, material;
	double v[8]; // gap form: x gap, y gap, tilt, x offset, y offset, jaw tilts, length; sigma form: x, y, tilt
};
std::string write(const std::vector<Setting>& s, bool sigma)
{
	std::string t;
	const char* sep = sim::chance(1, 2) ? "\t" : "  ";
	for(auto& r : s)
	{
		t += r.name;
		for(int i = 0; i < (sigma ? 3 : 8); i++)
			t += sep + sim::fmt(sim::chance(1, 4) ? "%.16E" : "%.17g", r.v[i]);
		t += sep + r.material + "\n";
	}
	return t;
}
bool near(double a, double b)
{
	return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-15;
}
struct Jaws
{
	double w, h, tilt, x, y, w2, h2, x2, y2;
	bool flat;
};
void judge(const Collimator* c, const Jaws& j, double len, const char* what)
{
	const CollimatorAperture* a = dynamic_cast<const CollimatorAperture*>(const_cast<Collimator*>(c)->GetAperture());
	SIM_CHECK(a != nullptr, "settings:missing", "%s: %s has no jaws", what, c->GetName().c_str());
	ApSpec s = ApSpec();
	s.kind = j.flat ? 7 : 6;
	s.a = j.w / 2;
	s.b = j.h / 2;
	s.a2 = j.w2 / 2;
	s.b2 = j.h2 / 2;
	s.ox = j.x;
	s.oy = j.y;
	s.ox2 = j.x2;
	s.oy2 = j.y2;
	s.tilt = j.tilt;
	for(int i = 0; i < 16; i++)
	{
		// around the jaws, in their own axes
		const double z = sim::draw(3) == 0 ? 0 : sim::draw(3) == 0 ? len : len * sim::real(0, 1);
		const double f = j.flat ? 0 : z / len;
		double u = (j.w + (j.w2 - j.w) * f) / 2 * sim::sreal(1.3), v = (j.h + (j.h2 - j.h) * f) / 2 * sim::sreal(1.3);
		const double x = j.x + (j.flat ? 0 : (j.x2 - j.x) * f) + u * std::cos(j.tilt) - v * std::sin(j.tilt);
		const double y = j.y + (j.flat ? 0 : (j.y2 - j.y) * f) + u * std::sin(j.tilt) + v * std::cos(j.tilt);
		ApSpec lo = s, hi = s;
		const double m = 1e-9;
		for(double* q : {&lo.a, &lo.b, &lo.a2, &lo.b2})
			*q *= 1 - m;
		for(double* q : {&hi.a, &hi.b, &hi.a2, &hi.b2})
			*q *= 1 + m;
		const bool in = inside(lo, x, y, z, len), out = !inside(hi, x, y, z, len);
		if(in == out)
			continue;
		const bool got = a->CheckWithinApertureBoundaries(x, y, z);
		SIM_CHECK(got == in, "settings:jaws", "%s: %s at %g of %g: (%g, %g) is %s the stated jaws (%g x %g at %g, %g tilt %g), but taken to be %s", what,
			c->GetName().c_str(), z, len, x, y, in ? "between" : "outside", j.w, j.h, j.x, j.y, j.tilt, got ? "between" : "outside");
		sim::probe("jaws");
	}
}
const char* MATERIALS[] = {"C", "W", "Cu", "Al", "Be", "AC150K", "Glidcop", "IT180", "Pb"};
}

SCENARIO(collimator_gaps)
{
	sim::context("collimator-gaps");
	sim::heap_config(sim::heap_random());
	std::vector<Item> items = gen_items(true);
	for(auto& e : items)
	{
		if(sim::chance(1, 2))
		{
			e.kind = COLL;
			if(e.len == 0)
				e.len = 0.5;
		}
		e.name = sim::fmt("T%d", (int) sim::draw(8));
	}
	StandardMaterialData mats;
	for(auto& e : items)
		if(e.kind == COLL && sim::chance(1, 3))
			e.material = mats.property["Cu"];
	Machine M = build(items);
	std::vector<Setting> set;
	std::set<std::string> used;
	const int n = (int) sim::range(0, 8);
	for(int i = 0; i < n; i++)
	{
		Setting s;
		s.name = sim::fmt("T%d", (int) sim::draw(10));
		if(!used.insert(s.name).second)
			continue;
		s.material = MATERIALS[sim::draw(9)];
		s.v[0] = sim::real(1e-3, 3e-2);
		s.v[1] = sim::chance(1, 3) ? 99.9 : sim::real(1e-3, 3e-2);
		s.v[2] = sim::chance(1, 2) ? 0 : sim::sreal(3.2);
		s.v[3] = sim::chance(1, 2) ? 0 : sim::sreal(2e-3);
		s.v[4] = sim::chance(1, 2) ? 0 : sim::sreal(2e-3);
		s.v[5] = s.v[6] = 0;
		s.v[7] = sim::real(0.1, 2);
		set.push_back(s);
		sim::mix(s.name[s.name.size() - 1] * 256 + s.material[0]), sim::ev("setting %s %s %.6g %.6g tilt %.6g at %.6g %.6g", s.name.c_str(), s.material.c_str(), s.v[0], s.v[1], s.v[2], s.v[3], s.v[4]);
	}
	for(auto& e : items)
		sim::ev("element %s kind %d at %.9g length %.9g%s", e.name.c_str(), e.kind, e.pos, e.len, e.preset ? " with an aperture" : "");
	std::string text = write(set, false);
	const std::string f = sim::path("collimators.dat");
	const int kind = sim::chance(1, 2) ? 0 : (int) sim::range(1, 6);
	bool must = false, cut = false;
	sim::DiskCfg d;
	if(sim::chance(1, 2))
		d.short_io = (int) sim::range(1, 40);
	size_t keep = set.size();
	if(kind && text.size())
	{
		const size_t at = sim::draw(text.size());
		if(kind == 1)
		{
			// complete rows before the cut; the material of the last one may have lost letters
			text.resize(at);
			sim::fault("file.truncated");
			std::istringstream is(text);
			std::vector<std::string> tok;
			std::string w;
			while(is >> w)
				tok.push_back(w);
			keep = tok.size() / 10;
			must = tok.size() % 10 != 0;
			if(!must && keep > 0 && tok.back() != set[keep - 1].material)
			{
				must = mats.property.find(tok.back()) == mats.property.end();
				set[keep - 1].material = tok.back();
			}
			cut = true;
		}
		if(kind == 2)
		{
			d.read_budget = (int64_t) at;
			d.read_err = EIO;
			must = true;
		}
		if(kind == 3)
		{
			sim::fault("file.missing");
			must = true;
		}
		if(kind == 4)
		{
			set[sim::draw(set.size())].material = "Unobtainium";
			text = write(set, false);
			sim::fault("settings.unknown-material");
			must = true;
		}
		if(kind == 5)
		{
			// a letter within a number
			size_t k = at;
			while(k < text.size() && !(isdigit((unsigned char) text[k]) && k > 0 && text[k - 1] != 'T'))
				k++;
			std::istringstream is(text.substr(0, k));
			std::string w;
			size_t ntok = 0;
			while(is >> w)
				ntok++;
			const bool in_word = k > 0 && k < text.size() && !isspace((unsigned char) text[k - 1]);
			const size_t field = (in_word ? ntok - 1 : ntok) % 10;
			if(k < text.size() && field >= 1 && field <= 8)
			{
				text[k] = "xq,_"[sim::draw(4)];
				must = true;
				sim::fault("file.garbled");
			}
		}
		if(kind == 6)
		{
			// a word more in the middle
			size_t k = text.find('\n', at);
			if(k != std::string::npos)
			{
				text.insert(k, " extra");
				must = true;
				sim::fault("file.garbled");
			}
		}
	}
	if(!(kind == 3 && must))
		sim::put_file(f, text);
	sim::disk(d);
	sim::ev("kind %d, %zu rows", kind, keep);
	bool refused = false;
	std::unique_ptr<CollimatorDatabase> db;
	try
	{
		db.reset(new CollimatorDatabase(f, &mats, false));
		db->ConfigureCollimators(M.model.get());
	}
	catch(std::exception& e)
	{
		refused = true;
		sim::ev("refused: %s", e.what());
	}
	SIM_CHECK(refused || !must, "settings:hidden-damage", "collimator settings with damage of kind %d were accepted", kind);
	SIM_CHECK(!refused || must, "settings:refused", "correct collimator settings are refused");
	for(size_t k = 0; k < items.size(); k++)
	{
		const Item& e = items[k];
		const Setting* s = nullptr;
		if(!refused && e.kind == COLL)
			for(size_t i = 0; i < keep; i++)
				if(set[i].name == e.name)
					s = &set[i];
		if(!s)
		{
			SIM_CHECK(M.comp[k]->GetAperture() == M.before[k], "settings:other", "element %zu (%s) is not to be set, but its aperture changed", k, e.name.c_str());
			if(e.kind == COLL)
				SIM_CHECK(static_cast<Collimator*>(M.comp[k])->GetMaterialProperties() == e.material, "settings:other", "element %zu (%s) has another material", k, e.name.c_str());
			continue;
		}
		sim::nontrivial();
		sim::steps(1);
		Collimator* c = static_cast<Collimator*>(M.comp[k]);
		SIM_CHECK(c->GetMaterialProperties() == mats.property[s->material], "settings:material", "element %zu (%s) is not of %s", k, e.name.c_str(), s->material.c_str());
		Jaws j = {s->v[0], s->v[1], s->v[2], s->v[3], s->v[4], s->v[0], s->v[1], s->v[3], s->v[4], false};
		judge(c, j, e.len, "gaps");
		for(size_t i = 0; i < k; i++)
			SIM_CHECK(M.comp[i]->GetAperture() != c->GetAperture(), "settings:shared", "two collimators share their jaws");
	}
	if(kind)
		sim::nontrivial();
	(void) cut;
	sim::mix(kind * 100 + keep * 1000 + items.size() + refused);
	sim::done();
}

SCENARIO(collimator_sigmas)
{
	sim::context("collimator-sigmas");
	sim::heap_config(sim::heap_random());
	// a stable periodic line: focusing and defocusing quadrupoles with collimators, markers and kickers between them
	std::vector<Item> items;
	AcceleratorModelConstructor ctor;
	const double p0 = 100;
	const double brho = p0 / PhysicalUnits::eV / PhysicalConstants::SpeedOfLight;
	double pos = 0;
	std::vector<AcceleratorComponent*> comp;
	auto put = [&](AcceleratorComponent* c, int kind) {
			Item e;
			e.kind = kind;
			e.len = c->GetLength();
			e.pos = pos;
			e.name = c->GetName();
			e.preset = false;
			c->SetComponentLatticePosition(pos);
			pos += e.len;
			items.push_back(e);
			comp.push_back(c);
			ctor.AppendComponent(*c);
			sim::ev("element %s kind %d at %.9g length %.9g", e.name.c_str(), kind, e.pos, e.len);
		};
	const int cells = (int) sim::range(1, 3);
	static const char* special[] = {"TCDQA.A4R6.B1", "TCDQA.B4R6.B1", "TCDQA.C4R6.B1"};
	for(int i = 0; i < cells; i++)
		for(int half = 0; half < 2; half++)
		{
			put(new Quadrupole(half ? "QD" : "QF", 0.5, (half ? -0.4 : 0.4) * brho), QUAD);
			const int n = (int) sim::range(0, 3);
			double used = 0;
			for(int k = 0; k < n; k++)
			{
				while(sim::chance(1, 3))
					put(new Marker(sim::fmt("M%zu", items.size())), MARKER);
				const double gap = (double) sim::range(0, 32) / 64;
				if(gap > 0)
					put(new Drift(sim::fmt("D%zu", items.size()), gap), DRIFT);
				const double len = (double) sim::range(1, 40) / 64;
				std::string name = sim::chance(1, 10) ? special[sim::draw(3)] : sim::fmt("T%d", (int) sim::draw(8));
				put(new Collimator(name, len), COLL);
				used += gap + len;
				if(sim::chance(1, 3))
					put(new XCor(sim::fmt("X%zu", items.size()), 0, sim::sreal(2e-5) * brho), XCORK);
				if(sim::chance(1, 4))
					put(new YCor(sim::fmt("Y%zu", items.size()), 0, sim::sreal(2e-5) * brho), YCORK);
			}
			put(new Drift(sim::fmt("D%zu", items.size()), 4 - used), DRIFT);
			put(new SectorBend("B", 1, 0.05, 0.05 * brho), SBEND);
		}
	std::unique_ptr<AcceleratorModel> model(ctor.GetModel());
	StandardMaterialData mats;
	std::vector<Setting> set;
	std::set<std::string> named;
	const int n = (int) sim::range(1, 8);
	for(int i = 0; i < n; i++)
	{
		Setting s;
		s.name = sim::chance(1, 8) ? special[sim::draw(3)] : sim::fmt("T%d", (int) sim::draw(9));
		if(!named.insert(s.name).second)
			continue;
		s.material = MATERIALS[sim::draw(9)];
		s.v[0] = sim::real(3, 30);
		s.v[1] = sim::chance(1, 2) ? 99 : sim::real(3, 30);
		s.v[2] = sim::chance(1, 3) ? 0 : sim::sreal(3.2);
		set.push_back(s);
		sim::mix(s.name[s.name.size() - 1] * 256 + s.material[0]), sim::ev("setting %s %s %.6g %.6g tilt %.6g", s.name.c_str(), s.material.c_str(), s.v[0], s.v[1], s.v[2]);
	}
	const std::string f = sim::path("collimators.dat");
	sim::put_file(f, write(set, true));
	gentle();
	LatticeFunctionTable twiss(model.get(), p0);
	twiss.RemoveAllFunctions();
	twiss.SetForceLongitudinalStability(true);
	twiss.AddFunction(1, 0, 0);
	twiss.AddFunction(3, 0, 0);
	twiss.AddFunction(1, 1, 1);
	twiss.AddFunction(3, 3, 2);
	twiss.Calculate();
	const double ex = sim::real(1e-10, 5e-9), ey = sim::chance(1, 2) ? ex : sim::real(1e-10, 5e-9);
	const bool taper = sim::chance(1, 2);
	CollimatorDatabase db(f, &mats, true);
	db.MatchBeamEnvelope(taper);
	std::string primary;
	double impact = 0;
	if(sim::chance(1, 3))
	{
		primary = set[sim::draw(set.size())].name;
		impact = sim::real(1e-7, 1e-5);
		db.SelectImpactFactor(primary, impact);
	}
	std::ostringstream log, errlog;
	if(sim::chance(1, 3))
	{
		db.SetLogFile(log);
		db.EnableLogging(true);
	}
	const double sigma = db.ConfigureCollimators(model.get(), ex, ey, &twiss);
	double want = 1;
	std::set<double> wants;
	for(size_t k = 0; k < items.size(); k++)
	{
		const Item& e = items[k];
		const Setting* s = nullptr;
		if(e.kind == COLL)
			for(auto& t : set)
				if(t.name == e.name)
					s = &t;
		if(!s)
		{
			SIM_CHECK(comp[k]->GetAperture() == nullptr, "settings:other", "element %zu (%s) is not to be set, but has an aperture now", k, e.name.c_str());
			continue;
		}
		Collimator* c = static_cast<Collimator*>(comp[k]);
		sim::nontrivial();
		sim::steps(1);
		// element k's entrance is row k of the table, its exit row k + 1
		SIM_CHECK(std::fabs(twiss.Value(0, 0, 0, k) - e.pos) < 1e-9, "harness:twiss", "row %zu of the optics is at %g, not %g", k, twiss.Value(0, 0, 0, k), e.pos);
		auto sig = [&](size_t row) {
				const double cs = std::cos(s->v[2]), sn = std::sin(s->v[2]);
				return std::sqrt(twiss.Value(1, 1, 1, row) * ex * cs * cs + twiss.Value(3, 3, 2, row) * ey * sn * sn);
			};
		const double s1 = sig(k), s2 = sig(k + 1);
		Jaws j = {2 * s->v[0] * s1, 2 * s->v[1] * s1, s->v[2], twiss.Value(1, 0, 0, k), twiss.Value(3, 0, 0, k), 2 * s->v[0] * s2, 2 * s->v[1] * s2,
			      twiss.Value(1, 0, 0, k + 1), twiss.Value(3, 0, 0, k + 1), false};
		if(e.name == primary)
			wants.insert(s->v[0] + impact / s1);
		SIM_CHECK(c->GetMaterialProperties() == mats.property[s->material], "settings:material", "element %zu (%s) is not of %s", k, e.name.c_str(), s->material.c_str());
		const bool one = e.name.compare(0, 5, "TCDQA") == 0;
		if(!taper)
		{
			// flat jaws that leave the envelope free at both ends
			const double x1 = std::max(j.x + j.w / 2, j.x2 + j.w2 / 2), x2 = std::min(j.x - j.w / 2, j.x2 - j.w2 / 2);
			const double y1 = std::max(j.y + j.h / 2, j.y2 + j.h2 / 2), y2 = std::min(j.y - j.h / 2, j.y2 - j.h2 / 2);
			j.w = j.w2 = x1 - x2;
			j.h = j.h2 = y1 - y2;
			j.x = j.x2 = (x1 + x2) / 2;
			j.y = j.y2 = (y1 + y2) / 2;
			j.flat = true;
			SIM_CHECK((dynamic_cast<OneSidedUnalignedCollimatorAperture*>(c->GetAperture()) != nullptr) == one, "settings:jaws", "%s has the wrong kind of jaws", e.name.c_str());
			if(one)
			{
				const CollimatorAperture* a = dynamic_cast<CollimatorAperture*>(c->GetAperture());
				SIM_CHECK(near(a->GetFullEntranceWidth(), j.w) && near(a->GetFullEntranceHeight(), j.h) && near(a->GetEntranceXOffset(), j.x)
					&& near(a->GetEntranceYOffset(), j.y) && near(a->GetCollimatorTilt(), j.tilt), "settings:jaws", "%s has the wrong jaws", e.name.c_str());
				continue;
			}
		}
		judge(c, j, e.len, taper ? "sigmas" : "sigmas, flat");
	}
	(void) want;
	if(wants.empty())
		SIM_CHECK(sigma == 1, "settings:impact", "the impact sigma is %g, but no primary collimator was set", sigma);
	else
	{
		bool ok = false;
		for(double w : wants)
			ok = ok || near(w, sigma);
		SIM_CHECK(ok, "settings:impact", "the impact sigma is %.9g, expected %.9g", sigma, *wants.begin());
	}
	sim::mix(items.size() * 16 + set.size() * 2 + taper);
	sim::done();
}

// one allocation fails while apertures are read and set (C21)
SCENARIO(settings_memory)
{
	sim::context("settings:memory");
	sim::heap_config(sim::heap_random());
	std::vector<Item> items = gen_items(true);
	Expect X;
	X.jitter = false;
	std::vector<Row> rows = gen_rows(items, false);
	X.pts = points(rows);
	X.ring = items.back().pos + items.back().len;
	if(X.pts.empty() || incompatible(X, items))
		return;
	const std::string f = sim::path("aperture.tfs");
	sim::put_file(f, write(rows, sim::chance(1, 2)));
	uint64_t n = 0;
	auto all = [&](Machine& M, const char* what)
		{
			ApertureConfiguration conf(f);
			conf.ConfigureElementApertures(M.model.get());
			n = sim::heap_count() - n;
			sim::heap_fail_clear();
			judge(X, items, M, what);
		};
	{
		Machine M = build(items);
		n = sim::heap_count();
		all(M, "with enough memory");
	}
	const uint64_t total = n;
	for(int i = (int) sim::range(1, 5); i > 0; i--)
	{
		const uint64_t at = 1 + sim::draw(total);
		sim::ev("allocation %llu of %llu fails", (unsigned long long) at, (unsigned long long) total);
		sim::mix(at);
		sim::fault("allocation.failure");
		Machine M = build(items);
		sim::heap_fail_at(at);
		bool failed = false;
		try
		{
			all(M, "without enough memory");
		}
		catch(std::exception& e)
		{
			sim::heap_fail_clear();
			failed = true;
		}
		// the same machine: what is there stays, what is missing is set
		if(failed && sim::chance(1, 2))
			all(M, "tried again after a failure");
		Machine M2 = build(items);
		all(M2, "after a failure");
		sim::nontrivial();
	}
	sim::steps(items.size());
}
