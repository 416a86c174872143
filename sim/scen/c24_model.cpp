// C24: building a machine and asking it questions.  One or two machines are assembled from
// drawn construction calls, interleaved, and every query is compared with the list of
// elements kept beside them.
#include "frames.h"
#include "Klystron.h"
#include "MerlinException.h"
using namespace gen;

namespace
{
struct Call
{
	enum K { COMP, AGAIN, DRIFT, PATCH, OPEN, CLOSE, GROUP, COPY, EXTRA } k;
	int a;                       // COMP: element; AGAIN: earlier element; OPEN, GROUP: frame kind
	double v[6];
	std::string name;
	std::vector<Call> sub;       // GROUP
};
// what stands at one place of the beam line
struct Item
{
	std::string type, name;      // of the component; empty type: a patch
	double len;
	int same;                    // index of the component among the distinct ones, -1 for a patch
	ComponentFrame* cf;
	AcceleratorComponent* c;
};
struct Machine24
{
	Lattice L;
	std::vector<Call> calls;
	std::vector<Item> beam;
	std::vector<AcceleratorComponent*> comps;   // distinct, in the order they were added
	std::vector<ModelElement*> all;             // everything added, in order
	std::unique_ptr<AcceleratorModel> m;
	std::unique_ptr<AcceleratorModelConstructor> ctor;
	std::vector<SequenceFrame*> groups;
	std::vector<std::vector<Item> > gitems;
	size_t next = 0;
};
Call call(Call::K k, int a = 0)
{
	Call c;
	c.k = k;
	c.a = a;
	for(double& x : c.v)
		x = 0;
	return c;
}
std::vector<Call> gen_calls(const Lattice& L, size_t& i, size_t end, int depth, bool in_group, int& n)
{
	std::vector<Call> r;
	int open = 0, since = 0;
	while(i < end)
	{
		const uint64_t w = sim::draw(in_group ? 12 : 16);
		if(w < 6)
		{
			r.push_back(call(Call::COMP, (int) i++));
			since++;
		}
		else if(w == 6)
		{
			Call c = call(Call::PATCH);
			c.name = sim::fmt("P%d", n++);
			for(int k = 0; k < 6; k++)
				if(sim::chance(1, 3))
					c.v[k] = sim::sreal(1e-3);
			r.push_back(c);
			since++;
		}
		else if(w == 7 && i > 0)
		{
			r.push_back(call(Call::AGAIN, (int) sim::draw(i)));
			since++;
		}
		else if(w >= 8 && w <= 9 && depth < 3)
		{
			Call c = call(Call::GROUP, (int) sim::draw(in_group ? 3 : 6));
			c.name = sim::fmt("G%d", n++);
			const size_t to = i + 1 + sim::draw(std::min<uint64_t>(4, end - i));
			c.sub = gen_calls(L, i, std::min(to, end), depth + 1, true, n);
			r.push_back(c);
			since++;
		}
		else if(w == 12)
		{
			Call c = call(Call::OPEN, (int) sim::draw(6));
			c.name = sim::fmt("F%d", n++);
			r.push_back(c);
			open++;
			since = 0;
		}
		else if(w == 13 && open && since)
		{
			r.push_back(call(Call::CLOSE));
			open--;
		}
		else if(w == 14)
			r.push_back(sim::chance(1, 2) ? call(Call::DRIFT) : call(Call::EXTRA)), r.back().v[0] = sim::real(0.1, 2), since++;
		else if(w == 15)
			r.push_back(call(Call::COPY)), since++;
		else
			r.push_back(call(Call::COMP, (int) i++)), since++;
	}
	while(open-- > 0)
		r.push_back(call(Call::CLOSE));
	return r;
}
std::string show(const std::vector<Call>& v)
{
	std::string s;
	for(auto& c : v)
		switch(c.k)
		{
		case Call::COMP:
			s += sim::fmt("%d ", c.a);
			break;
		case Call::AGAIN:
			s += sim::fmt("=%d ", c.a);
			break;
		case Call::DRIFT:
			s += sim::fmt("drift ");
			break;
		case Call::PATCH:
			s += "[" + c.name + "] ";
			break;
		case Call::OPEN:
			s += sim::fmt("open%d(%s) ", c.a, c.name.c_str());
			break;
		case Call::CLOSE:
			s += "close ";
			break;
		case Call::GROUP:
			s += sim::fmt("%s%d{ %s} ", c.name.c_str(), c.a, show(c.sub).c_str());
			break;
		case Call::COPY:
			s += "copy ";
			break;
		case Call::EXTRA:
			s += "extra ";
			break;
		}
	return s;
}
void add_elem(Machine24& M, ModelElement* e)
{
	if(std::find(M.all.begin(), M.all.end(), e) == M.all.end())
		M.all.push_back(e);
}
Item item(Machine24& M, ComponentFrame* f, AcceleratorComponent* c)
{
	Item it;
	it.cf = f;
	it.c = c;
	it.len = c ? c->GetLength() : 0;
	it.type = c ? c->GetType() : "";
	it.name = c ? c->GetName() : f ? f->GetName() : "";
	it.same = -1;
	return it;
}
AcceleratorComponent* component(Machine24& M, const Call& c)
{
	if(c.k == Call::AGAIN && c.a < (int) M.comps.size() && M.comps[c.a])
		return M.comps[c.a];
	if(c.k == Call::AGAIN)
		return nullptr;
	AcceleratorComponent* r = make(M.L.el[c.a], M.L.p0);
	M.comps.push_back(r);
	return r;
}
PatchFrame* patch(const Call& c)
{
	GeometryPatch* g = new GeometryPatch;
	for(int k = 0; k < 6; k++)
		if(c.v[k] != 0)
			apply(g, k, c.v[k]);
	return new PatchFrame(g, c.name);
}
SequenceFrame* group(Machine24& M, const Call& g, std::vector<Item>& items, std::vector<ModelElement*>& elems)
{
	Op o{Op::OPEN, g.a, g.name, {0, 0, 0, 0, 0, 0}};
	SequenceFrame* f = make_frame(o);
	elems.push_back(f);
	for(auto& c : g.sub)
		switch(c.k)
		{
		case Call::PATCH:
		{
			PatchFrame* p = patch(c);
			f->AppendFrame(*p);
			elems.push_back(p);
			items.push_back(item(M, p, nullptr));
			break;
		}
		case Call::GROUP:
			f->AppendFrame(*group(M, c, items, elems));
			break;
		case Call::COMP:
		case Call::AGAIN:
		{
			AcceleratorComponent* a = component(M, c);
			if(!a)
				break;
			ComponentFrame* cf = frame_of(a);
			f->AppendFrame(*cf);
			elems.push_back(cf);
			elems.push_back(a);
			items.push_back(item(M, cf, a));
			break;
		}
		default:
			break;
		}
	return f;
}
struct Collect: public FrameTraverser
{
	std::vector<ComponentFrame*> cf;
	std::vector<LatticeFrame*> all;
	void ActOn(LatticeFrame* f) override
	{
		all.push_back(f);
		if(ComponentFrame* c = dynamic_cast<ComponentFrame*>(f))
			cf.push_back(c);
	}
};
void execute(Machine24& M, const Call& c)
{
	AcceleratorModelConstructor& k = *M.ctor;
	switch(c.k)
	{
	case Call::COMP:
	case Call::AGAIN:
	{
		AcceleratorComponent* a = component(M, c);
		if(!a)
			return;
		ComponentFrame* f = frame_of(a);
		k.AppendComponentFrame(f);
		add_elem(M, f);
		add_elem(M, a);
		M.beam.push_back(item(M, f, a));
		break;
	}
	case Call::DRIFT:
		k.AppendDrift(c.v[0]);
		M.beam.push_back(item(M, nullptr, nullptr));
		M.beam.back().type = "Drift";
		M.beam.back().name = "UNNAMED";
		M.beam.back().len = c.v[0];
		M.beam.back().same = -2;
		break;
	case Call::PATCH:
	{
		PatchFrame* p = patch(c);
		k.AppendComponentFrame(p);
		add_elem(M, p);
		M.beam.push_back(item(M, p, nullptr));
		break;
	}
	case Call::OPEN:
	{
		SequenceFrame* f = make_frame(Op{Op::OPEN, c.a, c.name, {0, 0, 0, 0, 0, 0}});
		k.NewFrame(f);
		add_elem(M, f);
		break;
	}
	case Call::CLOSE:
		k.EndFrame();
		break;
	case Call::EXTRA:
	{
		ModelElement* e = new Klystron(sim::fmt("K%zu", M.all.size()), std::vector<RFStructure*>());
		k.AddModelElement(e);
		add_elem(M, e);
		break;
	}
	case Call::GROUP:
	{
		std::vector<Item> items;
		std::vector<ModelElement*> elems;
		SequenceFrame* f = group(M, c, items, elems);
		k.AppendFrame(f);
		for(auto e : elems)
			add_elem(M, e);
		M.beam.insert(M.beam.end(), items.begin(), items.end());
		M.groups.push_back(f);
		M.gitems.push_back(items);
		break;
	}
	case Call::COPY:
	{
		if(M.groups.empty() || dynamic_cast<MagnetMover*>(M.groups.back()))   // magnet movers cannot be copied
			return;
		SequenceFrame* f = static_cast<SequenceFrame*>(M.groups.back()->Copy());
		k.AppendFrame(f);
		Collect col;
		f->Traverse(col);
		std::vector<Item> items = M.gitems.back();
		SIM_CHECK(col.cf.size() == items.size(), "copy:size", "the copy of %s has %zu component frames, the original %zu", f->GetName().c_str(), col.cf.size(),
			items.size());
		for(auto e : col.all)
			add_elem(M, e);
		for(size_t i = 0; i < items.size(); i++)
		{
			SIM_CHECK(col.cf[i] != items[i].cf, "copy:shared", "the copy of %s shares a frame with the original", f->GetName().c_str());
			items[i].cf = col.cf[i];
			M.beam.push_back(items[i]);
		}
		sim::probe("copied.group");
		break;
	}
	}
}
// the pattern language, written down again: alternatives by '|', '*' stands for anything
bool glob(const char* p, const char* s)
{
	if(!*p)
		return !*s;
	if(*p == '*')
		return glob(p + 1, s) || (*s && glob(p, s + 1));
	return *s && *p == *s && glob(p + 1, s + 1);
}
bool match(const std::string& pat, const std::string& s)
{
	size_t b = 0;
	for(;;)
	{
		const size_t e = pat.find('|', b);
		if(glob(pat.substr(b, e == std::string::npos ? e : e - b).c_str(), s.c_str()))
			return true;
		if(e == std::string::npos)
			return false;
		b = e + 1;
	}
}
std::string draw_pattern(const std::vector<std::string>& names)
{
	std::string s = names.empty() ? "X" : sim::pick(names);
	switch(sim::draw(8))
	{
	case 0:
		return s;
	case 1:
		return "*";
	case 2:
		return s.substr(0, 1 + sim::draw(s.size())) + "*";
	case 3:
		return "*" + s.substr(sim::draw(s.size()));
	case 4:
		return s + "|" + (names.empty() ? "Y" : sim::pick(names));
	case 5:
	{
		const size_t k = sim::draw(s.size());
		return s.substr(0, k) + "*" + s.substr(k + sim::draw(s.size() - k));
	}
	case 6:
		return "*" + s.substr(s.size() / 2, 1) + "*";
	default:
		return s.substr(0, 1) + "*" + s.substr(s.size() - 1);
	}
}
std::string id_of(const Item& it)
{
	return it.type.empty() ? "PatchFrame." + it.name : it.type + "." + it.name;
}
void check_beamline(Machine24& M, AcceleratorModel::Beamline bl, size_t n1, size_t n2, const char* what)
{
	SIM_CHECK(bl.first_index() == n1 && bl.last_index() == n2, "beamline:range", "%s: reports elements %zu to %zu, asked for %zu to %zu", what, bl.first_index(),
		bl.last_index(), n1, n2);
	size_t k = n1;
	for(auto i = bl.begin(); i != bl.end(); ++i, ++k)
	{
		SIM_CHECK(k <= n2, "beamline:content", "%s: has more than %zu elements", what, n2 - n1 + 1);
		SIM_CHECK(*i == M.beam[k].cf, "beamline:content", "%s: place %zu is not the element appended there (%s)", what, k, id_of(M.beam[k]).c_str());
	}
	SIM_CHECK(k == n2 + 1, "beamline:content", "%s: ends at %zu, not at %zu", what, k, n2);
}
template<class T> void check_typed(Machine24& M, const char* type, const std::vector<std::string>& names)
{
	const std::string pat = draw_pattern(names);
	std::vector<T*> got, want;
	M.m->ExtractTypedElements(got, pat);
	for(auto e : M.all)
		if(T* t = dynamic_cast<T*>(e))
			if(match(pat, e->GetName()))
				want.push_back(t);
	SIM_CHECK(got.size() == want.size(), "typed:count", "%zu elements of type %s match '%s', %zu were added", got.size(), type, pat.c_str(), want.size());
	std::set<T*> a(got.begin(), got.end()), b(want.begin(), want.end());
	SIM_CHECK(a == b, "typed:set", "the elements of type %s found by '%s' are not those added", type, pat.c_str());
	SIM_CHECK(got == want, "typed:order", "the elements of type %s found by '%s' are not in the order they were added", type, pat.c_str());
}
template<class T> void check_frames(Machine24& M, const char* type, const std::vector<std::string>& names)
{
	std::string pat = draw_pattern(names);
	if(sim::chance(1, 2))
		pat = std::string(type) + "." + pat;
	std::vector<TComponentFrame<T>*> got, want;
	M.m->ExtractTypedComponents(got, pat);
	for(auto& it : M.beam)
		if(auto* f = dynamic_cast<TComponentFrame<T>*>(it.cf))
			if(match(pat, f->GetName()))
				want.push_back(f);
	SIM_CHECK(got == want, "typed:frames", "the %s frames found by '%s' (%zu) are not those appended (%zu)", type, pat.c_str(), got.size(), want.size());
}
void questions(Machine24& M)
{
	AcceleratorModel& m = *M.m;
	const size_t n = M.beam.size();
	// the drifts made by the constructor itself are known by their place only
	{
		AcceleratorModel::Beamline bl = m.GetBeamline();
		size_t k = 0;
		for(auto i = bl.begin(); i != bl.end() && k < n; ++i, ++k)
			if(M.beam[k].same == -2)
			{
				SIM_CHECK((*i)->IsComponent() && dynamic_cast<Drift*>(&(*i)->GetComponent()), "beamline:drift", "place %zu should be a drift", k);
				M.beam[k].cf = *i;
				M.beam[k].c = &(*i)->GetComponent();
				M.beam[k].same = -3;
			}
	}
	// every element once, in order
	check_beamline(M, m.GetBeamline(), 0, n - 1, "the whole beam line");
	// positions and lengths
	double s = 0;
	for(size_t k = 0; k < n; k++)
	{
		Item& it = M.beam[k];
		const double tol = 1e-9;
		SIM_CHECK(close(it.cf->GetGeometryLength(), it.len, 0, tol), "place:length", "%s has length %.12g, appended with %.12g", id_of(it).c_str(),
			it.cf->GetGeometryLength(), it.len);
		AcceleratorGeometry::Extent e = it.cf->GetGeometryExtent();
		SIM_CHECK(close(e.first, s, 0, tol) && close(e.second, s + it.len, 0, tol), "place:position", "%s (place %zu) extends from %.12g to %.12g, it should from %.12g to %.12g",
			id_of(it).c_str(), k, e.first, e.second, s, s + it.len);
		SIM_CHECK(it.cf->GetBeamlineIndex() == k, "place:index", "%s at place %zu has beam line index %zu", id_of(it).c_str(), k, it.cf->GetBeamlineIndex());
		s += it.len;
	}
	SIM_CHECK(close(m.GetGlobalFrame().GetGeometryLength(), s, 0, 1e-9), "place:total", "the machine is %.12g long, its elements add up to %.12g",
		m.GetGlobalFrame().GetGeometryLength(), s);
	std::vector<std::string> names, ids;
	for(auto& it : M.beam)
	{
		names.push_back(it.name);
		ids.push_back(id_of(it));
	}
	const int nq = (int) sim::range(4, 16);
	for(int q = 0; q < nq; q++)
		switch(sim::draw(14))
		{
		case 0:
		{
			size_t a = sim::draw(n), b = sim::draw(n);
			if(sim::chance(1, 6))
			{
				// there is no such stretch
				(sim::chance(1, 2) ? a : b) = n + (sim::chance(1, 2) ? 0 : sim::draw(5));
				bool refused = false;
				try
				{
					m.GetBeamline(a, b);
				}
				catch(AcceleratorModel::BadRange&)
				{
					refused = true;
				}
				SIM_CHECK(refused, "stretch:invented", "a stretch from place %zu to %zu was found among %zu elements", a, b, n);
				break;
			}
			if(a > b)
				std::swap(a, b);
			check_beamline(M, m.GetBeamline(a, b), a, b, "stretch by numbers");
			break;
		}
		case 1:
		case 2:
		{
			const std::string p1 = draw_pattern(ids), p2 = draw_pattern(ids);
			const int n1 = (int) sim::range(1, 3), n2 = (int) sim::range(1, 3);
			long a = -1, b = -1;
			int c1 = 0, c2 = 0;
			for(size_t k = 0; k < n; k++)
			{
				if(match(p1, ids[k]) && ++c1 == n1)
					a = (long) k;
				if(match(p2, ids[k]) && ++c2 == n2)
					b = (long) k;
			}
			sim::ev("stretch from '%s' %d to '%s' %d: %ld %ld", p1.c_str(), n1, p2.c_str(), n2, a, b);
			try
			{
				AcceleratorModel::Beamline bl = m.GetBeamline(p1, p2, n1, n2);
				SIM_CHECK(a >= 0 && b >= 0, "stretch:invented", "a stretch from '%s' (%d) to '%s' (%d) was found, there is none", p1.c_str(), n1, p2.c_str(), n2);
				SIM_CHECK(bl.first_index() == (size_t) a && bl.last_index() == (size_t) b, "stretch:ends",
					"the stretch from '%s' (%d) to '%s' (%d) is %zu to %zu, should be %ld to %ld", p1.c_str(), n1, p2.c_str(), n2, bl.first_index(), bl.last_index(), a, b);
				if(a <= b)
					check_beamline(M, bl, (size_t) a, (size_t) b, "stretch by patterns");
				else
					SIM_CHECK(bl.IsReversed(), "stretch:reversed", "a stretch that runs backwards does not say so");
			}
			catch(AcceleratorModel::BadRange&)
			{
				SIM_CHECK(a < 0 || b < 0, "stretch:refused", "the stretch from '%s' (%d) to '%s' (%d), places %ld to %ld, was refused", p1.c_str(), n1, p2.c_str(), n2, a,
					b);
			}
			break;
		}
		case 3:
		{
			size_t k = sim::draw(n);
			AcceleratorModel::RingIterator r = m.GetRing((int) k);
			const int steps = (int) sim::range(1, 2 * (int64_t) n + 2);
			bool up = true;
			for(int i = 0; i < steps; i++)
			{
				SIM_CHECK(*r == M.beam[k].cf, "ring:content", "a ring started elsewhere has another element than %s at place %zu", ids[k].c_str(), k);
				if(sim::chance(1, 8))
					up = !up;
				if(up)
				{
					sim::chance(1, 2) ? (void) ++r : (void) r++;
					k = (k + 1) % n;
				}
				else
				{
					sim::chance(1, 2) ? (void) --r : (void) r--;
					k = (k + n - 1) % n;
				}
			}
			break;
		}
		case 4:
		{
			const std::string pat = draw_pattern(ids);
			std::vector<ComponentFrame*> got, want;
			const int c = m.ExtractComponents(pat, got);
			for(size_t k = 0; k < n; k++)
				if(match(pat, ids[k]))
					want.push_back(M.beam[k].cf);
			SIM_CHECK(c == (int) got.size() && got == want, "components", "%zu component frames match '%s', there are %zu", got.size(), pat.c_str(), want.size());
			break;
		}
		case 5:
		{
			const std::string pat = draw_pattern(ids);
			size_t a = 0, b = n - 1;
			if(sim::chance(1, 2))
			{
				a = sim::draw(n);
				b = a + sim::draw(n - a);
			}
			AcceleratorModel::Beamline bl = m.GetBeamline(a, b);
			std::vector<AcceleratorModel::Index> got, want;
			m.GetIndexes(bl, pat, got);
			for(size_t k = a; k <= b; k++)
				if(!M.beam[k].type.empty() && match(pat, ids[k]))
					want.push_back(k);
			SIM_CHECK(got == want, "indexes", "%zu places match '%s', there are %zu", got.size(), pat.c_str(), want.size());
			break;
		}
		case 6:
		{
			std::vector<std::string> every;
			for(auto e : M.all)
				every.push_back(e->GetQualifiedName());
			const std::string pat = draw_pattern(every);
			std::vector<ModelElement*> got, want;
			m.ExtractModelElements(pat, got);
			for(size_t i = 0; i < M.all.size(); i++)
				if(match(pat, every[i]))
					want.push_back(M.all[i]);
			// drifts made by the constructor are not in our list
			std::vector<ModelElement*> known;
			for(auto e : got)
				if(std::find(M.all.begin(), M.all.end(), e) != M.all.end())
					known.push_back(e);
				else
					SIM_CHECK(match(pat, e->GetQualifiedName()) && e->GetName().find("UNNAMED") != std::string::npos, "model:unknown",
						"'%s' found an element that was never added: %s", pat.c_str(), e->GetQualifiedName().c_str());
			std::set<ModelElement*> a(known.begin(), known.end()), b(want.begin(), want.end());
			SIM_CHECK(known.size() == a.size() && a == b, "model:set", "'%s' finds %zu model elements, %zu of those added match", pat.c_str(), known.size(), want.size());
			SIM_CHECK(known == want, "model:order", "the model elements found by '%s' are not in the order they were added", pat.c_str());
			break;
		}
		case 7:
			check_typed<Quadrupole>(M, "Quadrupole", names);
			break;
		case 8:
			check_typed<SectorBend>(M, "SectorBend", names);
			break;
		case 9:
			check_typed<RectMultipole>(M, "RectMultipole", names);
			break;
		case 10:
			check_typed<BPM>(M, "BPM", names);
			break;
		case 11:
			check_frames<SectorBend>(M, "SectorBend", names);
			break;
		case 12:
			check_typed<SupportStructure>(M, "SupportStructure", {"F0", "F1", "G0", "G1", "F10"});
			break;
		case 13:
		{
			AcceleratorModel::Beamline bl = m.GetReversedBeamline();
			SIM_CHECK(&bl.First() == M.beam[n - 1].cf && &bl.Last() == M.beam[0].cf && bl.first_index() == n - 1 && bl.last_index() == 0
				&& (n == 1 || bl.IsReversed()), "reversed", "the reversed beam line does not run from the last element to the first");
			break;
		}
		}
	// the search by place in the lattice, for elements whose positions are set
	if(sim::chance(1, 3))
	{
		std::set<AcceleratorComponent*> seen;
		std::vector<AcceleratorComponent*> order;
		double pos = 0;
		bool ok = true;
		for(auto& it : M.beam)
			if(it.c)
			{
				if(!seen.insert(it.c).second)
					ok = false;
				it.c->SetComponentLatticePosition(pos);
				order.push_back(it.c);
				pos += it.len;
			}
		if(ok && !order.empty())
		{
			const size_t k = sim::draw(order.size());
			size_t first = 0;
			while(order[first]->GetName() != order[k]->GetName())
				first++;
			const int got = m.FindElementLatticePosition(order[k]->GetName());
			// elements at the same position, some of no length, are in no particular order
			size_t lo = first, hi = first;
			while(lo > 0 && order[lo - 1]->GetComponentLatticePosition() == order[first]->GetComponentLatticePosition())
				lo--;
			while(hi + 1 < order.size() && order[hi + 1]->GetComponentLatticePosition() == order[first]->GetComponentLatticePosition())
				hi++;
			SIM_CHECK(got >= (int) lo && got <= (int) hi, "lattice-position", "element %s is number %zu (%zu to %zu) by position, reported as %d",
					order[k]->GetName().c_str(), first, lo, hi, got);
		}
	}
}
void install(Machine24& M)
{
	// a zero-length element put into a drift
	double total = 0;
	for(auto& it : M.beam)
		total += it.len;
	const double at = sim::chance(1, 6) ? total * 1.5 : total * sim::real(0, 1);
	double s = 0;
	size_t k = 0;
	for(; k < M.beam.size(); k++)
	{
		if(s + M.beam[k].len > at)
			break;
		s += M.beam[k].len;
	}
	const bool fits = k < M.beam.size() && M.beam[k].c && dynamic_cast<Drift*>(M.beam[k].c);
	if(fits && (at - s < 1e-6 || s + M.beam[k].len - at < 1e-6))
		return;
	BPM* b = new BPM("INSTALLED", 0);
	sim::ev("install at %.9g: place %zu%s", at, k, fits ? "" : ", not a drift");
	try
	{
		M.m->InstallModelElement(b, at);
		SIM_CHECK(fits, "install:accepted", "an element was installed at %.9g, where there is no drift", at);
	}
	catch(MerlinException&)
	{
		SIM_CHECK(!fits, "install:refused", "an element could not be installed in the drift at %.9g", at);
		delete b;
		return;
	}
	sim::probe("installed");
	// what the beam line must be now
	AcceleratorModel::Beamline bl = M.m->GetBeamline();
	std::vector<ComponentFrame*> now(bl.begin(), bl.end());
	SIM_CHECK(now.size() == M.beam.size() + 2, "install:count", "the beam line has %zu elements after installing one in a drift, it had %zu", now.size(), M.beam.size());
	const Item old = M.beam[k];
	Item d1 = old, me = old, d2 = old;
	d1.cf = now[k];
	me.cf = now[k + 1];
	d2.cf = now[k + 2];
	for(Item* it : {&d1, &me, &d2})
	{
		SIM_CHECK(it->cf->IsComponent(), "install:parts", "the installed stretch contains a frame without component");
		it->c = &it->cf->GetComponent();
		it->name = it->c->GetName();
		it->type = it->c->GetType();
		it->same = -1;
	}
	SIM_CHECK(me.c == b, "install:place", "the installed element is not between the halves of the drift");
	d1.len = at - s;
	me.len = 0;
	d2.len = s + old.len - at;
	SIM_CHECK(std::fabs(d1.c->GetComponentLatticePosition() - s) < 1e-9 && std::fabs(me.c->GetComponentLatticePosition() - at) < 1e-9 && std::fabs(d2.c->GetComponentLatticePosition() - at) < 1e-9,
		"install:position", "installed at %.12g in a drift from %.12g, the three parts say %.12g, %.12g and %.12g", at, s, d1.c->GetComponentLatticePosition(), me.c->GetComponentLatticePosition(),
		d2.c->GetComponentLatticePosition());
	SIM_CHECK(std::fabs(d1.c->GetLength() - d1.len) < 1e-9 && std::fabs(d2.c->GetLength() - d2.len) < 1e-9, "install:length", "the parts of the drift are %.12g and %.12g long instead of %.12g and %.12g",
		d1.c->GetLength(), d2.c->GetLength(), d1.len, d2.len);
	M.beam.erase(M.beam.begin() + (long) k);
	M.beam.insert(M.beam.begin() + (long) k, {d1, me, d2});
	bool elsewhere = false;
	for(auto& it : M.beam)
		elsewhere |= it.c == old.c;
	std::vector<ModelElement*> found, all;
	M.m->ExtractModelElements("*", all);
	M.m->ExtractModelElements("BPM.INSTALLED", found);
	SIM_CHECK(found.size() == 1 && found[0] == b, "install:element", "the installed element is found %zu times", found.size());
	std::vector<Drift*> dr;
	M.m->ExtractTypedElements(dr);
	std::set<Drift*> want;
	for(auto& it : M.beam)
		if(it.c)
			if(Drift* d = dynamic_cast<Drift*>(it.c))
				want.insert(d);
	std::set<Drift*> got(dr.begin(), dr.end());
	SIM_CHECK(got == want, "install:drifts", "after the installation %zu drifts are known, %zu are in the beam line", got.size(), want.size());
	// the rest of the questions by the new list
	M.all = all;
}
}
SCENARIO(model)
{
	sim::context("building and querying a machine");
	sim::heap_config(sim::heap_random());
	const int nm = (int) sim::range(1, 2);
	std::vector<Machine24> M(nm);
	for(int j = 0; j < nm; j++)
	{
		Opts o;
		o.nmin = 1;
		o.nmax = 10;
		o.kinds = {DRIFT, MARKER, QUAD, SBEND, SEXT, SOL, BPMK, COLL, XCORK, YCORK, SKEWQ, OCT};
		M[j].L = gen_lattice(o);
		for(size_t i = 1; i < M[j].L.el.size(); i++)
			if(sim::chance(1, 4))
				M[j].L.el[i].name = M[j].L.el[sim::draw(i)].name;
		describe(M[j].L);
		size_t i = 0;
		int n = 0;
		M[j].calls = gen_calls(M[j].L, i, M[j].L.el.size(), 0, false, n);
		sim::ev("machine %d: %s", j, show(M[j].calls).c_str());
		M[j].ctor.reset(new AcceleratorModelConstructor());
		if(sim::chance(1, 4))
		{
			// an abandoned attempt
			Drift* d = new Drift("ABANDONED", 1);
			M[j].ctor->AppendComponentFrame(frame_of(d));
			M[j].ctor->NewModel();
		}
	}
	// interleave the construction calls of the machines
	for(;;)
	{
		std::vector<int> left;
		for(int j = 0; j < nm; j++)
			if(M[j].next < M[j].calls.size())
				left.push_back(j);
		if(left.empty())
			break;
		Machine24& m = M[sim::pick(left)];
		execute(m, m.calls[m.next++]);
	}
	for(auto& m : M)
	{
		m.m.reset(m.ctor->GetModel());
		if(sim::chance(1, 2))
			m.ctor.reset();
	}
	for(auto& m : M)
		if(!m.beam.empty())
		{
			questions(m);
			if(sim::chance(1, 4))
			{
				install(m);
				questions(m);
			}
			sim::steps((double) m.beam.size());
			if(m.beam.size() > 1)
				sim::nontrivial();
			sim::mix(m.beam.size() * 31 + m.all.size());
		}
	// machines can be thrown away in any order
	if(nm == 2 && sim::chance(1, 2))
		M[0].m.reset();
	M.clear();
	sim::done();
}
