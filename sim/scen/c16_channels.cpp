// C16: control channels and feedback.
// channels: a drawn machine, channels found by pattern and kept while properties are read, written
// and incremented through them, one by one or in groups, and directly; after every operation every
// property of every element is compared with a list of what it must be.
// feedback: a loop on real monitor and corrector channels, with gain, set points, delay and
// response drawn and changed as it runs, against an independent solution of the same equations.
#include "gen.h"
#include "BPMChannel.h"
#include "Channels.h"
#include "ChannelServer.h"
#include "CorrectorWinding.h"
#include "Klystron.h"
#include "LinearFBSystem.h"
#include "MagnetMover.h"
#include "RWChannelState.h"
#include "SequenceFrame.h"
#include <deque>
#include <functional>
#include <set>
using namespace gen;

namespace
{
bool near(double a, double b, double scale)
{
	return std::isfinite(a) && std::fabs(a - b) <= 1e-9 * scale + 1e-300;
}
bool glob(const char* p, const char* s)
{
	if(!*p)
		return !*s;
	if(*p == '*')
	{
		for(;; s++)
		{
			if(glob(p + 1, s))
				return true;
			if(!*s)
				return false;
		}
	}
	return *p == *s && glob(p + 1, s + 1);
}
struct Prop
{
	std::string key;
	std::function<double()> get;
	std::function<void(double)> set;
	std::vector<int> linked;            // other properties of the same hardware: re-read, not judged
	bool ro = false;
	double val = 0;                     // what it must be
};
struct Elem
{
	std::string type, name;
	ModelElement* e = nullptr;
	int place = -1;                     // in the beam line
	int magnet = -1;                    // of a winding
	std::vector<int> props;
};
struct World
{
	std::vector<Elem> el;
	std::vector<Prop> pr;
	std::unique_ptr<AcceleratorModel> model;
	int ncomp = 0;
	int prop(int e, const char* key, std::function<double()> g, std::function<void(double)> s, bool ro = false)
	{
		Prop p;
		p.key = key;
		p.get = g;
		p.set = s;
		p.ro = ro;
		pr.push_back(p);
		el[e].props.push_back((int) pr.size() - 1);
		return (int) pr.size() - 1;
	}
	template<class T> void rf(int e, T* c)
	{
		prop(e, "E", [c] {return c->GetAmplitude();}, [c](double v) {c->SetAmplitude(v);});
		prop(e, "Phi", [c] {return c->GetPhase();}, [c](double v) {c->SetPhase(v);});
		const int a = prop(e, "Lambda", [c] {return c->GetWavelength();}, [c](double v) {c->SetWavelength(v);});
		const int b = prop(e, "K", [c] {return c->GetK();}, [c](double v) {c->SetK(v);});
		pr[a].linked = {b};
		pr[b].linked = {a};
	}
	template<class T> void mag(int e, T* c, const char* key)
	{
		prop(e, key, [c] {return c->GetFieldStrength();}, [c](double v) {c->SetFieldStrength(v);});
	}
};
struct Spec
{
	int kind;
	std::string name;
	double len, a, b;
	int extra;                          // winding, or mover around the next elements
};
const char* const TYPES[] = {"Drift", "Solenoid", "Quadrupole", "Sextupole", "Octupole", "SkewQuadrupole", "SkewSextupole", "XCor", "YCor", "SectorBend", "TWRFStructure", "SWRFStructure",
							 "TransverseRFStructure", "BPM", "Marker"};
void build_world(World& w, const std::vector<Spec>& sp)
{
	AcceleratorModelConstructor mc;
	mc.NewModel();
	bool open = false;
	MagnetMover* mv = nullptr;
	std::vector<std::pair<int, RectMultipole*> > wind;
	auto add = [&](const char* type, const std::string& name, ModelElement* e)
	{
		Elem x;
		x.type = type;
		x.name = name;
		x.e = e;
		w.el.push_back(x);
		return (int) w.el.size() - 1;
	};
	for(auto& s : sp)
	{
		if(s.kind == 15)
		{
			if(open)
			{
				mc.EndFrame();
				open = false;
			}
			else
			{
				mv = new MagnetMover(s.name);
				mc.NewFrame(mv);
				open = true;
				const int e = add("MagnetMover", s.name, mv);
				MagnetMover* m = mv;
				w.prop(e, "X", [m] {return m->GetX();}, [m](double v) {m->SetX(v);});
				w.prop(e, "Y", [m] {return m->GetY();}, [m](double v) {m->SetY(v);});
				w.prop(e, "Roll", [m] {return m->GetRoll();}, [m](double v) {m->SetRoll(v);});
				// a frame needs something in it
				mc.AppendComponent(new Drift("IN", 0.1));
				w.el[add("Drift", "IN", nullptr)].place = w.ncomp++;
			}
			continue;
		}
		AcceleratorComponent* c = nullptr;
		const int e = add(TYPES[s.kind], s.name, nullptr);
		RectMultipole* rm = nullptr;
		switch(s.kind)
		{
		case 0:
			c = new Drift(s.name, s.len);
			break;
		case 1:
		{
			Solenoid* q = new Solenoid(s.name, s.len, s.a);
			w.prop(e, "Bz", [q] {return q->GetBz();}, [q](double v) {q->SetBz(v);});
			c = q;
			break;
		}
		case 2:
		{
			Quadrupole* q = new Quadrupole(s.name, s.len, s.a);
			w.mag(e, q, "B1");
			c = rm = q;
			break;
		}
		case 3:
		{
			Sextupole* q = new Sextupole(s.name, s.len, s.a);
			w.mag(e, q, "B2");
			c = rm = q;
			break;
		}
		case 4:
		{
			Octupole* q = new Octupole(s.name, s.len, s.a);
			w.mag(e, q, "B3");
			c = q;
			break;
		}
		case 5:
		{
			SkewQuadrupole* q = new SkewQuadrupole(s.name, s.len, s.a);
			w.mag(e, q, "B1");
			c = rm = q;
			break;
		}
		case 6:
		{
			SkewSextupole* q = new SkewSextupole(s.name, s.len, s.a);
			w.mag(e, q, "B2");
			c = q;
			break;
		}
		case 7:
		{
			XCor* q = new XCor(s.name, s.len, s.a);
			w.mag(e, q, "B0");
			c = q;
			break;
		}
		case 8:
		{
			YCor* q = new YCor(s.name, s.len, s.a);
			w.mag(e, q, "B0");
			c = q;
			break;
		}
		case 9:
		{
			SectorBend* q = new SectorBend(s.name, s.len, 0.01, s.a);
			q->SetB1(s.b);
			const int p0 = w.prop(e, "B0", [q] {return q->GetB0();}, [q](double v) {q->SetB0(v);});
			const int p1 = w.prop(e, "B1", [q] {return q->GetB1();}, [q](double v) {q->SetB1(v);});
			w.pr[p0].linked = {p1};      // the gradient is part of the same field and scales with it
			c = q;
			break;
		}
		case 10:
		{
			TWRFStructure* q = new TWRFStructure(s.name, s.len, 1.3e9, s.a, s.b);
			w.rf(e, q);
			c = q;
			break;
		}
		case 11:
		{
			SWRFStructure* q = new SWRFStructure(s.name, 3, 1.3e9, s.a, s.b);
			w.rf(e, q);
			c = q;
			break;
		}
		case 12:
		{
			TransverseRFStructure* q = new TransverseRFStructure(s.name, s.len, 1.3e9, s.a, s.b, 0.1);
			w.rf(e, q);
			w.prop(e, "ROLL", [q] {return q->GetFieldOrientation();}, [q](double v) {q->SetFieldOrientation(v);});
			c = q;
			break;
		}
		case 13:
		{
			// nothing is read out here: the values stay 0
			w.prop(e, "X", [] {return 0.0;}, [](double) {}, true);
			w.prop(e, "Y", [] {return 0.0;}, [](double) {}, true);
			c = new BPM(s.name);
			break;
		}
		default:
			c = new Marker(s.name);
			break;
		}
		w.el[e].e = c;
		w.el[e].place = w.ncomp++;
		mc.AppendComponent(*c);
		if(rm && s.extra)
			wind.push_back({e, rm});
	}
	if(open)
		mc.EndFrame();
	for(auto& x : wind)
	{
		CorrectorWinding* cw = new CorrectorWinding(*x.second);
		mc.AddModelElement(cw);
		const int e = add("CorrectorWinding", w.el[x.first].name, cw);
		w.el[e].magnet = x.first;
		const int a = w.prop(e, "X", [cw] {return cw->GetBy();}, [cw](double v) {cw->SetBy(v);});
		const int b = w.prop(e, "Y", [cw] {return cw->GetBx();}, [cw](double v) {cw->SetBx(v);});
		// the windings are kept relative to the main field
		for(int p : w.el[x.first].props)
			w.pr[p].linked = {a, b};
	}
	w.model.reset(mc.GetModel());
	for(auto& p : w.pr)
		p.val = p.get();
}
void check_all(World& w, const char* after)
{
	for(size_t e = 0; e < w.el.size(); e++)
		for(int p : w.el[e].props)
		{
			const double v = w.pr[p].get();
			SIM_CHECK(near(v, w.pr[p].val, std::fabs(w.pr[p].val) + 1e-6), "channel:property", "after %s: %s.%s.%s is %.17g, should be %.17g", after, w.el[e].type.c_str(),
				w.el[e].name.c_str(), w.pr[p].key.c_str(), v, w.pr[p].val);
		}
}
double value_for(const World& w, int p)
{
	const std::string& k = w.pr[p].key;
	if(k == "Lambda" || k == "K")
		return sim::real(0.1, 10);
	if(k == "Roll" || k == "ROLL" || k == "Phi")
		return sim::sreal(3);
	const double v = sim::real(0.01, 2);      // main fields of zero have no windings
	return sim::chance(1, 2) ? v : -v;
}
void written(World& w, int p, double v)
{
	w.pr[p].val = v;
	for(int l : w.pr[p].linked)
		w.pr[l].val = w.pr[l].get();
}
std::string pattern(const std::vector<std::string>& of)
{
	const std::string s = sim::pick(of);
	switch(sim::draw(5))
	{
	case 0:
		return "*";
	case 1:
		return s.substr(0, 1) + "*";
	case 2:
		return s.size() > 1 ? "*" + s.substr(s.size() - 1) : s;
	default:
		return s;
	}
}
struct Held
{
	std::vector<std::pair<int, int> > what;       // element, property
	std::unique_ptr<ROChannelArray> ro;
	std::unique_ptr<RWChannelArray> rw;
	std::unique_ptr<RWChannelState> state;
	std::vector<double> cached;
};
}
SCENARIO(channels)
{
	sim::context("channels");
	sim::heap_config(sim::heap_random());
	const std::vector<std::string> names = {"A", "B", "AB", "Q1", "Q.1", "MQ.12L1.B1", "Q10"};
	std::vector<Spec> sp;
	const int n = (int) sim::range(1, sim::chance(1, 8) ? 40 : 10);
	for(int i = 0; i < n; i++)
	{
		Spec s;
		s.kind = (int) sim::draw(16);
		s.name = sim::pick(names);
		s.len = sim::real(0.1, 2);
		s.a = sim::real(0.01, 2);
		s.b = sim::sreal(1);
		s.extra = sim::chance(1, 2);
		sp.push_back(s);
		sim::ev("element %s %s length %.9g strength %.9g %.9g%s", s.kind == 15 ? "mover" : TYPES[s.kind], s.name.c_str(), s.len, s.a, s.b, s.extra ? " winding" : "");
	}
	World w, twin;
	build_world(w, sp);
	build_world(twin, sp);
	std::vector<std::string> types, keys = {"B0", "B1", "X", "Y", "E", "Phi", "K", "Roll", "Bz"};
	for(auto& e : w.el)
		types.push_back(e.type);
	const int nops = (int) sim::range(2, 20);
	std::vector<Held> held;
	auto beamline = [&](World& x, int a, int b) {return x.model->GetBeamline(a, b);};
	int found = 0, writes = 0;
	for(int k = 0; k < nops; k++)
	{
		const int op = (int) sim::draw(12);
		if(op < 4 || held.empty())
		{
			const std::string tp = pattern(types), ip = pattern(names), kp = pattern(keys);
			const std::string id = tp + "." + ip + "." + kp, eid = tp + "." + ip;
			const bool rw = sim::chance(1, 2), line = sim::chance(1, 2) && w.ncomp;
			int a = 0, b = w.ncomp - 1;
			if(line && sim::chance(1, 2))
			{
				a = (int) sim::draw(w.ncomp);
				b = a + (int) sim::draw(w.ncomp - a);
			}
			sim::ev("find %s %s%s", rw ? "rw" : "ro", id.c_str(), line ? sim::fmt(" in %d..%d", a, b).c_str() : "");
			// ---- what it names
			std::vector<std::pair<int, int> > want;
			for(size_t e = 0; e < w.el.size(); e++)
			{
				if(line && (w.el[e].place < a || w.el[e].place > b))
					continue;
				if(!glob(eid.c_str(), (w.el[e].type + "." + w.el[e].name).c_str()))
					continue;
				for(int p : w.el[e].props)
					if(glob(kp.c_str(), w.pr[p].key.c_str()) && !(rw && w.pr[p].ro))
						want.push_back({(int) e, p});
			}
			Held h;
			std::vector<std::string> ids[2];
			size_t cnt = 0;
			for(int t = 0; t < 2; t++)
			{
				World& x = t ? twin : w;
				std::vector<ROChannel*> ro;
				std::vector<RWChannel*> rv;
				size_t c;
				if(rw)
				{
					if(line)
					{
						AcceleratorModel::Beamline bl = beamline(x, a, b);
						c = x.model->GetRWChannels(bl, id, rv);
					}
					else
						c = x.model->GetRWChannels(id, rv);
					for(RWChannel* ch : rv)
					{
						SIM_CHECK(ch, "channel:null", "a null channel for %s", id.c_str());
						ids[t].push_back(ch->GetID());
					}
				}
				else
				{
					if(line)
					{
						AcceleratorModel::Beamline bl = beamline(x, a, b);
						c = x.model->GetROChannels(bl, id, ro);
					}
					else
						c = x.model->GetROChannels(id, ro);
					for(ROChannel* ch : ro)
					{
						SIM_CHECK(ch, "channel:null", "a null channel for %s", id.c_str());
						ids[t].push_back(ch->GetID());
					}
				}
				SIM_CHECK(c == ids[t].size(), "channel:count", "%zu channels reported, %zu given", c, ids[t].size());
				if(t)
				{
					for(auto* z : ro)
						delete z;
					for(auto* z : rv)
						delete z;
				}
				else if(rw)
					h.rw.reset(new RWChannelArray(rv));
				else
					h.ro.reset(new ROChannelArray(ro));
				cnt = c;
			}
			SIM_CHECK(ids[0] == ids[1], "channel:order", "the same machine built twice gives the channels of %s in another order", id.c_str());
			// ---- which property each one is: named by its id, in beam line order where there is one
			auto cid = [&](const std::pair<int, int>& x) {return w.el[x.first].type + "." + w.el[x.first].name + "." + w.pr[x.second].key;};
			std::multiset<std::string> g(ids[0].begin(), ids[0].end()), wa;
			for(auto& x : want)
				wa.insert(cid(x));
			SIM_CHECK(g == wa, cnt < want.size() ? "channel:missing" : "channel:extra", "%zu channels for %s (first %s), should be %zu (first %s)", cnt, id.c_str(),
				ids[0].empty() ? "-" : ids[0][0].c_str(), want.size(), want.empty() ? "-" : cid(want[0]).c_str());
			// several elements may share a name: which of them a channel belongs to is found by
			// moving each property in turn
			ROChannelArray& arr = h.rw ? *h.rw : *h.ro;
			std::vector<bool> used(want.size());
			for(size_t i = 0; i < arr.Size(); i++)
			{
				int hit = -1;
				for(size_t j = 0; j < want.size() && hit < 0; j++)
				{
					if(used[j] || cid(want[j]) != ids[0][i])
						continue;
					Prop& p = w.pr[want[j].second];
					if(p.ro)
					{
						hit = (int) j;
						break;
					}
					const double v = p.get(), x = v + 0.125;
					const double before = arr.Read(i);
					p.set(x);
					const double y = p.get(), after = arr.Read(i);
					p.set(v);
					if(near(before, v, std::fabs(v) + 1e-6) && near(after, y, std::fabs(y) + 1e-6))
						hit = (int) j;
				}
				SIM_CHECK(hit >= 0, "channel:element", "channel %zu of %s (%s) does not read any of the elements it names", i, id.c_str(), ids[0][i].c_str());
				used[hit] = true;
				h.what.push_back(want[hit]);
				if(line && i)
					SIM_CHECK(h.what[i - 1].first <= h.what[i].first, "channel:order", "channels of a beam line are not in its order");
			}
			for(auto& p : w.pr)
				p.val = p.get();       // moving a property back may have changed the last bits
			found += (int) cnt;
			if(cnt)
			{
				if(held.size() < 4)
					held.push_back(std::move(h));
				else
					held[sim::draw(4)] = std::move(h);
			}
		}
		else
		{
			Held& h = held[sim::draw(held.size())];
			const size_t i = sim::draw(h.what.size());
			const int p = h.what[i].second;
			RWChannelArray* A = h.rw.get();
			if(op < 6)
			{
				// a property is set directly
				const int q = (int) sim::draw(w.pr.size());
				if(!w.pr[q].ro)
				{
					const double v = value_for(w, q);
					sim::ev("set %s directly to %.9g", w.pr[q].key.c_str(), v);
					w.pr[q].set(v);
					written(w, q, v);
				}
			}
			else if(op == 6 && A)
			{
				const double v = value_for(w, p);
				sim::ev("write %zu %.9g", i, v);
				A->Write(i, v);
				written(w, p, v);
				writes++;
			}
			else if(op == 7 && A)
			{
				const double v = sim::real(0, 0.2);
				const double was = w.pr[p].val;
				if(w.pr[p].key == "Roll" || (w.pr[p].linked.size() && std::fabs(was + v) < 1e-3))
					continue;
				sim::ev("increment %zu %.9g", i, v);
				if(sim::chance(1, 2))
					A->Increment(i, v);
				else
				{
					const double r = static_cast<RWChannel&>((*A)[i]).Increment(v);
					SIM_CHECK(near(r, was + v, std::fabs(was) + v), "channel:increment", "Increment of %.17g by %.17g returned %.17g", was, v, r);
				}
				written(w, p, was + v);
				writes++;
			}
			else if(op == 8 && A)
			{
				// the group in one go: like one by one
				RealVector v(A->Size());
				const int form = (int) sim::draw(3);
				bool roll = false;
				for(auto& x : h.what)
					roll = roll || w.pr[x.second].key == "Roll" || w.pr[x.second].key == "ROLL";
				const double same = sim::real(0.1, 2);
				for(size_t j = 0; j < A->Size(); j++)
					v[j] = form == 1 ? same : value_for(w, h.what[j].second);
				sim::ev("write all, form %d", form);
				if(form == 0)
					A->WriteAll(v);
				else if(form == 1)
					A->WriteAll(same);
				else
					*A = v;
				// later channels overwrite what they share with earlier ones
				for(size_t j = 0; j < A->Size(); j++)
				{
					w.pr[h.what[j].second].val = v[j];
				}
				for(size_t j = 0; j < A->Size(); j++)
					for(int l : w.pr[h.what[j].second].linked)
					{
						// written itself after its partner: stays
						bool later = false;
						for(size_t m = j + 1; m < A->Size(); m++)
							later = later || h.what[m].second == l;
						if(!later)
							w.pr[l].val = w.pr[l].get();
					}
				writes++;
			}
			else if(op == 9 && A)
			{
				bool ok = true;
				for(auto& x : h.what)
					ok = ok && w.pr[x.second].linked.empty() && w.pr[x.second].key != "Roll";
				if(!ok)
					continue;
				const int form = (int) sim::draw(2);
				RealVector v(A->Size());
				const double same = sim::real(-0.1, 0.1);
				for(size_t j = 0; j < A->Size(); j++)
					v[j] = form ? same : sim::real(-0.1, 0.1);
				sim::ev("increment all, form %d", form);
				if(form)
					A->IncrementAll(same);
				else
					A->IncrementAll(v);
				for(size_t j = 0; j < A->Size(); j++)
					w.pr[h.what[j].second].val += v[j];
				writes++;
			}
			else
			{
				ROChannelArray& R = h.rw ? *h.rw : *h.ro;
				RealVector v(R.Size());
				R.ReadAll(v);
				const RealVector u = R;
				for(size_t j = 0; j < R.Size(); j++)
				{
					const double want = w.pr[h.what[j].second].val;
					SIM_CHECK(near(v[j], want, std::fabs(want) + 1e-6) && v[j] == R.Read(j) && u[j] == v[j] && R[j].Read() == v[j], "channel:read",
						"channel %zu (%s) reads %.17g in the group and %.17g alone, should be %.17g", j, R[j].GetID().c_str(), v[j], R.Read(j), want);
				}
				sim::ev("read all %zu", R.Size());
			}
		}
		check_all(w, sim::fmt("operation %d", k).c_str());
		sim::probe(sim::fmt("op.%d", op).c_str());
		sim::steps(1);
	}
	for(auto& p : w.pr)
		sim::mix(sim::hash_bytes(&p.val, sizeof p.val));
	if(found && writes)
		sim::nontrivial();
	// the channels are destroyed with or after the machine
	if(sim::chance(1, 2))
		held.clear();
	sim::done();
}

// ---- several cavities on one klystron
SCENARIO(klystron)
{
	sim::context("klystron");
	sim::heap_config(sim::heap_random());
	const int n = (int) sim::range(1, 5);
	const bool balanced = sim::chance(1, 2);
	std::vector<std::unique_ptr<RFStructure> > cav;
	std::vector<RFStructure*> cv;
	std::vector<double> v(n), ph(n), len(n);
	for(int i = 0; i < n; i++)
	{
		const double f = 1.3e9, e0 = sim::real(0.01, 1), phi = sim::sreal(1);
		len[i] = sim::real(0.3, 2);
		if(sim::chance(1, 3))
			cav.emplace_back(new SWRFStructure("C", 9, f, e0, phi));
		else
			cav.emplace_back(new TWRFStructure("C", len[i], f, e0, phi));
		len[i] = cav.back()->GetLength();
		v[i] = e0 * len[i];
		ph[i] = phi;
		cv.push_back(cav.back().get());
		sim::ev("cavity length %.9g voltage %.9g phase %.9g", len[i], v[i], phi);
	}
	Complex z0 = 0;
	for(int i = 0; i < n; i++)
		z0 += std::polar(v[i], ph[i]);
	double V = std::abs(z0), P = std::arg(z0);
	Klystron ks("K", cv, balanced ? Klystron::balanced : Klystron::vector_sum);
	std::unique_ptr<Klystron> other;
	std::vector<Complex> rel(n);
	for(int i = 0; i < n; i++)
		rel[i] = balanced ? Complex(1.0 / n) : std::polar(v[i], ph[i]) / z0;
	if(std::abs(z0) < 1e-2)
		sim::done();
	const int ops = (int) sim::range(1, 12);
	for(int k = 0; k < ops; k++)
	{
		Klystron* kp = other && sim::chance(1, 2) ? other.get() : &ks;
		if(sim::chance(1, 8))
		{
			// another mode needs its own set of ratios; a copy drives the same cavities
			sim::ev("copy");
			other.reset(ks.Copy());
			kp = other.get();
		}
		if(other)
			kp = &ks;                  // the copy is only there to be harmless
		const int op = (int) sim::draw(3);
		const double nv = sim::real(0.1, 5), np = sim::sreal(3);
		if(op == 0)
		{
			sim::ev("voltage %.9g", nv);
			kp->SetVoltage(V = nv);
		}
		else if(op == 1)
		{
			sim::ev("phase %.9g", np);
			kp->SetPhase(P = np);
		}
		else
		{
			sim::ev("phasor %.9g %.9g", nv, np);
			kp->SetVoltagePhasor(std::polar(V = nv, P = np));
		}
		const Complex z = std::polar(V, P);
		SIM_CHECK(near(kp->GetVoltage(), V, V) && std::abs(kp->GetVoltagePhasor() - z) < 1e-9 * V, "klystron:value", "the klystron reports %.17g at %.17g, was set to %.17g at %.17g",
			kp->GetVoltage(), kp->GetPhase(), V, P);
		for(int i = 0; i < n; i++)
		{
			const Complex c = cav[i]->GetVoltagePhasor(), want = z * rel[i];
			SIM_CHECK(std::abs(c - want) < 1e-9 * V, "klystron:cavity", "cavity %d of %d (%s) is at %.9g%+.9gi, should be %.9g%+.9gi", i, n, balanced ? "balanced" : "vector sum", c.real(),
				c.imag(), want.real(), want.imag());
		}
		sim::mix(sim::hash_bytes(&V, 8) ^ sim::hash_bytes(&P, 8));
		sim::steps(1);
	}
	if(ops > 1)
		sim::nontrivial();
	sim::done();
}

namespace
{
typedef std::vector<std::vector<long double> > Mat;
// minimum-norm least-squares solution by Jacobi diagonalisation of M^T M
std::vector<long double> solve(const Mat& M, int r, int c, const std::vector<long double>& b, long double thr, bool& clear)
{
	Mat A(c, std::vector<long double>(c)), V(c, std::vector<long double>(c));
	for(int i = 0; i < c; i++)
	{
		V[i][i] = 1;
		for(int j = 0; j < c; j++)
			for(int k = 0; k < r; k++)
				A[i][j] += M[k][i] * M[k][j];
	}
	for(int sweep = 0; sweep < 60; sweep++)
		for(int p = 0; p < c; p++)
			for(int q = p + 1; q < c; q++)
			{
				if(A[p][q] == 0)
					continue;
				const long double th = (A[q][q] - A[p][p]) / (2 * A[p][q]);
				const long double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
				const long double cs = 1 / std::sqrt(t * t + 1), sn = t * cs;
				for(int k = 0; k < c; k++)
				{
					const long double x = A[k][p], y = A[k][q];
					A[k][p] = cs * x - sn * y;
					A[k][q] = sn * x + cs * y;
				}
				for(int k = 0; k < c; k++)
				{
					const long double x = A[p][k], y = A[q][k];
					A[p][k] = cs * x - sn * y;
					A[q][k] = sn * x + cs * y;
				}
				for(int k = 0; k < c; k++)
				{
					const long double x = V[k][p], y = V[k][q];
					V[k][p] = cs * x - sn * y;
					V[k][q] = sn * x + cs * y;
				}
			}
	long double mx = 0;
	for(int i = 0; i < c; i++)
		mx = std::max(mx, A[i][i]);
	std::vector<long double> x(c);
	clear = mx > 0;
	for(int i = 0; i < c; i++)
	{
		// singular values are clearly above or below the threshold, or the case is not judged
		const long double s2 = std::max((long double) 0, A[i][i]) / (mx > 0 ? mx : 1);
		if(s2 > 1e-4L)
		{
			long double d = 0;
			for(int k = 0; k < r; k++)
			{
				long double mv = 0;
				for(int j = 0; j < c; j++)
					mv += M[k][j] * V[j][i];
				d += mv * b[k];
			}
			d /= A[i][i];
			for(int j = 0; j < c; j++)
				x[j] += V[j][i] * d;
		}
		else if(s2 > 1e-16L)
			clear = false;
	}
	(void) thr;
	return x;
}
struct Sig: public BPM::Buffer
{
	double x = 0, y = 0;
	void Record(const BPM&, const BPM::Data& d) override
	{
		x = d.x.value;
		y = d.y.value;
	}
};
}
SCENARIO(feedback)
{
	sim::context("feedback");
	sim::heap_config(sim::heap_random());
	const int ns = (int) sim::range(1, 5), na = (int) sim::range(1, 5);
	// ---- correctors and monitors in a beam line, interleaved
	AcceleratorModelConstructor mc;
	mc.NewModel();
	std::vector<BPM*> bpm;
	std::vector<AcceleratorComponent*> cor;
	std::vector<char> plane(ns), kind(na);
	const double p0 = 5, brho = p0 / PhysicalConstants::SpeedOfLight / PhysicalUnits::eV;
	std::vector<Sig> direct(ns);
	std::vector<double> act(na), off(ns, 0.0);
	for(int left_s = ns, left_a = na; left_s + left_a > 0;)
	{
		mc.AppendComponent(*new Drift("D", sim::real(0.1, 3)));
		const bool c = left_a && (!left_s || sim::chance(1, 2));
		if(c)
		{
			const int i = (int) cor.size();
			kind[i] = sim::chance(1, 2) ? 'X' : 'Y';
			act[i] = sim::chance(1, 4) ? 0 : brho * sim::sreal(1e-3);
			AcceleratorComponent* k = kind[i] == 'X' ? (AcceleratorComponent*) new XCor("C", 0.2, act[i]) : new YCor("C", 0.2, act[i]);
			cor.push_back(k);
			mc.AppendComponent(*k);
			left_a--;
		}
		else
		{
			const int i = (int) bpm.size();
			plane[i] = sim::chance(1, 2) ? 'X' : 'Y';
			BPM* b = new BPM("P");
			b->AddBuffer(&direct[i]);
			bpm.push_back(b);
			mc.AppendComponent(*b);
			left_s--;
		}
	}
	std::unique_ptr<AcceleratorModel> model(mc.GetModel());
	AcceleratorModel::Beamline bl = model->GetBeamline();
	std::vector<ROChannel*> sigs;
	std::vector<RWChannel*> acts;
	{
		std::vector<ROChannel*> x, y;
		model->GetROChannels(bl, "BPM.*.X", x);
		model->GetROChannels(bl, "BPM.*.Y", y);
		SIM_CHECK(x.size() == (size_t) ns && y.size() == (size_t) ns, "channel:missing", "%zu and %zu channels of %d monitors", x.size(), y.size(), ns);
		for(int i = 0; i < ns; i++)
		{
			sigs.push_back(plane[i] == 'X' ? x[i] : y[i]);
			delete (plane[i] == 'X' ? y[i] : x[i]);
			if(sim::chance(1, 3))
				static_cast<BPMChannel*>(sigs[i])->SetBPMOffset(off[i] = sim::sreal(1e-3));
		}
		model->GetRWChannels(bl, "*.C.B0", acts);
		SIM_CHECK(acts.size() == (size_t) na, "channel:missing", "%zu channels of %d correctors", acts.size(), na);
	}
	auto aval = [&](int i) {return kind[i] == 'X' ? static_cast<XCor*>(cor[i])->GetFieldStrength() : static_cast<YCor*>(cor[i])->GetFieldStrength();};
	auto sval = [&](int i) {return (plane[i] == 'X' ? direct[i].x : direct[i].y) + off[i];};
	Mat M;
	bool clear = true;
	auto draw_matrix = [&](RealMatrix& R)
	{
		const int how = (int) sim::draw(4);
		const double sc = sim::pick(std::vector<double>{1, 1, 1e-6, 1e3, 1e-14});
		M.assign(ns, std::vector<long double>(na));
		bool any = false;
		for(int i = 0; i < ns; i++)
			for(int j = 0; j < na; j++)
			{
				double m = how < 2 ? sim::sreal(3) : (double) sim::range(0, 3) - 1;
				if(how == 3 && j && i < ns)
					m = (double) M[i][0] / sc;     // all correctors alike
				M[i][j] = (double) (m * sc);
				R(i, j) = (double) M[i][j];
				any = any || M[i][j] != 0;
			}
		if(!any)
		{
			M[0][0] = sc;
			R(0, 0) = sc;
		}
		std::string s;
		for(int i = 0; i < ns; i++)
			for(int j = 0; j < na; j++)
				s += sim::fmt(" %.9g", (double) M[i][j]);
		sim::ev("response %dx%d%s", ns, na, s.c_str());
	};
	RealMatrix R(ns, na);
	draw_matrix(R);
	std::unique_ptr<LinearFBSystem> fb;
	if(sim::chance(1, 2))
		fb.reset(new LinearFBSystem(sigs, acts, R));
	else
	{
		ROChannelArray sa(sigs);
		RWChannelArray aa(acts);
		fb.reset(new LinearFBSystem(sa, aa, R));
	}
	double gain = 1;
	std::vector<double> set(ns, 0.0), stored;
	std::deque<std::pair<std::vector<double>, double> > queue;     // settings, and what they were rounded from
	bool delayed = false;
	int prime = 0, pulses = 0;
	auto check = [&](const char* what)
	{
		for(int i = 0; i < na; i++)
		{
			const double v = aval(i);
			double sc = std::fabs(act[i]) + 1e-12;
			SIM_CHECK(near(v, act[i], sc), "feedback:actuator", "after %s: actuator %d is at %.17g, should be %.17g", what, i, v, act[i]);
			act[i] = v;
		}
	};
	auto track = [&]
	{
		BeamSpec s = gen_beam(1, 3, 2e-3, 1e-3, 1e-3, 1e-3);
		std::unique_ptr<ProtonBunch> b(make_bunch<ProtonBunch>(s, p0, 1e-9));
		ParticleTracker t(bl, b.get(), false);
		t.Track(b.get());
		sim::ev("pulse");
	};
	track();
	const int nops = (int) sim::range(2, 25);
	for(int k = 0; k < nops; k++)
	{
		const int op = (int) sim::draw(14);
		if(op < 6)
		{
			sim::ev("apply");
			std::vector<long double> d(ns);
			for(int i = 0; i < ns; i++)
				d[i] = (long double) sval(i) - set[i];
			bool clr;
			std::vector<long double> x = solve(M, ns, na, d, 1e-6L, clr);
			clear = clear && clr;
			if(!clear)
				sim::done();
			std::vector<double> nw(na);
			double big = 0;
			for(int i = 0; i < na; i++)
			{
				nw[i] = (double) (act[i] - gain * x[i]);
				big = std::max(big, (double) std::fabs(gain * x[i]));
			}
			for(int i = 0; i < na; i++)
				big = std::max(big, std::fabs(act[i]));
			// a signal that no actuator moves still enters the rounding
			long double mx = 0, dx = 0;
			for(int i = 0; i < ns; i++)
			{
				dx = std::max(dx, std::fabs(d[i]));
				for(int j = 0; j < na; j++)
					mx = std::max(mx, std::fabs(M[i][j]));
			}
			big = std::max(big, (double) std::fabs(gain * dx / mx));
			fb->Apply();
			std::vector<double> out = nw;
			if(delayed)
			{
				queue.push_back({nw, big});
				out = queue.front().first;
				big = std::max(big, queue.front().second);
				queue.pop_front();
			}
			for(int i = 0; i < na; i++)
			{
				const double v = aval(i);
				SIM_CHECK(std::isfinite(v) && std::fabs(v - out[i]) <= 1e-8 * (big + std::fabs(out[i])), "feedback:correction",
					"pulse %d: actuator %d is set to %.17g, the correction implies %.17g (gain %.9g, delay %zu, was %.17g)", pulses, i, v, out[i], gain, queue.size() + 1, act[i]);
			}
			for(int i = 0; i < na; i++)
				act[i] = aval(i);
			for(double v : act)
				if(std::fabs(v) > 1e100)
					sim::done();           // a response that small drives everything away
			if(prime)
				prime--;
			pulses++;
			if(sim::chance(3, 4))
				track();
		}
		else if(op == 6)
		{
			fb->SetGain(gain = sim::pick(std::vector<double>{0, 0.3, 1, -0.5, 0.01}));
			SIM_CHECK(fb->GetGain() == gain, "feedback:gain", "the gain reported is not the gain set");
			sim::ev("gain %.9g", gain);
		}
		else if(op == 7)
		{
			sim::ev("signals to set points");
			fb->SignalsToSetpoints();
			for(int i = 0; i < ns; i++)
				set[i] = sval(i);
		}
		else if(op == 8)
		{
			RealVector v(ns);
			for(int i = 0; i < ns; i++)
				v[i] = set[i] = sim::sreal(1e-3);
			sim::ev("set points");
			fb->SetSetpoints(v);
		}
		else if(op == 9)
		{
			sim::ev("store");
			fb->StoreActuators();
			stored = act;
		}
		else if(op == 10 && !stored.empty() && !prime)
		{
			sim::ev("restore");
			fb->RestoreActuators();
			act = stored;
			check("restoring");
		}
		else if(op == 11 && sim::chance(1, 2))
		{
			const int n = (int) sim::range(1, 4);
			sim::ev("delay %d", n);
			fb->SetPulseDelay(n);
			queue.clear();
			delayed = n > 1;
			for(int i = 1; i < n; i++)
				queue.push_back({act, 0.0});
			prime = n - 1;
		}
		else if(op == 12 && !prime)
		{
			const int i = (int) sim::draw(na);
			const double v = brho * sim::sreal(1e-3);
			sim::ev("actuator %d set to %.9g", i, v);
			if(kind[i] == 'X')
				static_cast<XCor*>(cor[i])->SetFieldStrength(v);
			else
				static_cast<YCor*>(cor[i])->SetFieldStrength(v);
			act[i] = v;
		}
		else if(op == 13)
		{
			if(sim::chance(1, 3))
			{
				draw_matrix(R);
				fb->SetResponseMatrix(R);
			}
			double a = 0, s = 0;
			for(int i = 0; i < na; i++)
				a += act[i] * act[i] / na;
			for(int i = 0; i < ns; i++)
				s += (sval(i) - set[i]) * (sval(i) - set[i]) / ns;
			SIM_CHECK(near(fb->GetActuatorRMS(), std::sqrt(a), std::sqrt(a)) && near(fb->GetSignalRMS(), std::sqrt(s), std::sqrt(s) + 1e-9), "feedback:rms",
				"actuator rms %.17g should be %.17g, signal rms %.17g should be %.17g", fb->GetActuatorRMS(), std::sqrt(a), fb->GetSignalRMS(), std::sqrt(s));
		}
		check("an operation on something else");
		sim::probe(sim::fmt("op.%d", op).c_str());
		sim::steps(1);
	}
	for(int i = 0; i < na; i++)
		sim::mix(sim::hash_bytes(&act[i], 8));
	if(pulses > 1)
		sim::nontrivial();
	fb.reset();
	for(int i = 0; i < ns; i++)
		bpm[i]->ClearAllBuffers();
	sim::done();
}
