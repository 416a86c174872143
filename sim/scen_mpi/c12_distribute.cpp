// C12: a bunch spread over several nodes.  Every node is a fiber of this process and the
// simulated network delivers the messages; the particles of all nodes together are
// followed by name beside the code under test.
#include "gen.h"
#include "net.h"
#include <algorithm>
#include <map>
#include <numeric>
using namespace gen;

namespace
{
struct Cycle
{
	int root_op;            // what the root does with the whole bunch
	uint64_t root_seed;
	double amount;
	int local_op;           // what every node does with its share
	uint64_t local_seed;
	bool ref;
};
struct Plan
{
	int nodes;
	double p0, qmp;
	std::vector<PSvectorArray> start;   // what every node begins with
	std::vector<Cycle> cycle;
	bool begin_scatter;                 // the program begins by spreading the root's bunch
};
uint64_t scramble(uint64_t x)
{
	x ^= x >> 33;
	x *= 0xff51afd7ed558ccdULL;
	x ^= x >> 33;
	x *= 0xc4ceb9fe1a85ec53ULL;
	return x ^ (x >> 33);
}
bool goes(int64_t id, uint64_t seed)   // a third of the particles, by name
{
	return scramble((uint64_t) id * 977 + seed) % 3 == 0;
}
// the deterministic motion of one particle
void move(PSvector& p, uint64_t seed)
{
	const double a = 1e-3 * (double) (scramble(seed) % 1000);
	p.x() += a * p.xp();
	p.y() += a * p.yp();
	p.ct() += a * p.dp() * 1e-3;
}
typedef std::map<int64_t, PSvector> Book;
struct Totals
{
	double p0, ct, qmp;
};
void apply_root(ParticleBunch& b, const Cycle& c)
{
	switch(c.root_op)
	{
	case 1:
		b.SortByCT();
		break;
	case 2:
		b.AdjustRefMomentum(c.amount);
		break;
	case 3:
		b.SetMacroParticleCharge(b.GetTotalCharge() / (double) std::max<size_t>(b.size(), 1) * (1 + c.amount));
		break;
	case 4:
	{
		PSvectorArray keep;
		for(auto& p : b)
			if(!goes(p.id(), c.root_seed))
				keep.push_back(p);
		b.clear();
		for(auto& p : keep)
			b.push_back(p);
		break;
	}
	case 5:
		b.SetReferenceMomentum(b.GetReferenceMomentum() * (1 + c.amount));
		break;
	case 6:
		b.SetReferenceTime(b.GetReferenceTime() + c.amount);
		break;
	case 7:
		std::reverse(b.begin(), b.end());
		break;
	default:
		break;
	}
}
void apply_local(ParticleBunch& b, const Cycle& c)
{
	if(c.local_op & 1)
		for(auto& p : b)
			move(p, c.local_seed);
	if(c.local_op & 2)
	{
		auto p = b.begin();
		while(p != b.end())
			p = goes(p->id(), c.local_seed) ? b.erase(p) : p + 1;
	}
}
std::string node_list(const std::vector<PSvectorArray>& a)
{
	std::string s;
	for(auto& x : a)
		s += (s.empty() ? "" : "/") + std::to_string(x.size());
	return s;
}
// what all nodes hold together, compared with the book
void compare(const char* when, const std::vector<PSvectorArray>& share, const Book& book)
{
	std::map<int64_t, int> seen;
	for(size_t n = 0; n < share.size(); n++)
		for(auto& p : share[n])
		{
			auto i = book.find(p.id());
			if(i == book.end())
				sim::fail("nodes:unknown", "%s: node %zu holds a particle with identity %lld, which does not exist (shares %s)", when, n,
					(long long) p.id(), node_list(share).c_str());
			SIM_CHECK(++seen[p.id()] == 1, "nodes:twice", "%s: particle %lld is held more than once (shares %s, %zu particles exist)", when,
				(long long) p.id(), node_list(share).c_str(), book.size());
			SIM_CHECK(same_bits(p, i->second), "nodes:changed", "%s: particle %lld on node %zu is %s, should be %s", when, (long long) p.id(),
				n, show(p).c_str(), show(i->second).c_str());
		}
	for(auto& i : book)
		SIM_CHECK(seen.count(i.first), "nodes:lost", "%s: particle %lld is on no node (shares %s)", when, (long long) i.first,
			node_list(share).c_str());
}
}

SCENARIO(distribute)
{
	sim::heap_random();
	Plan plan;
	plan.nodes = (int) sim::range(1, 6);
	plan.p0 = sim::real(1, 7000);
	plan.qmp = sim::chance(1, 2) ? 1 : sim::real(1e-3, 1e10);
	plan.begin_scatter = sim::chance(1, 2);
	int64_t id = sim::range(0, 3);
	Book book;
	for(int n = 0; n < plan.nodes; n++)
	{
		PSvectorArray a;
		int m = plan.begin_scatter && n ? 0 : (int) sim::range(0, sim::chance(1, 3) ? 2 : 30);
		for(int i = 0; i < m; i++)
		{
			PSvector p(0);
			for(int k = 0; k < 6; k++)
				p[k] = sim::normal() * 1e-3;
			p.id() = id;
			id += 1 + (sim::chance(1, 5) ? (int64_t) sim::draw(1000000000000ULL) : 0);
			book[p.id()] = p;
			a.push_back(p);
		}
		plan.start.push_back(a);
	}
	int cycles = (int) sim::range(1, 4);
	for(int i = 0; i < cycles; i++)
	{
		Cycle c;
		c.root_op = (int) sim::draw(8);
		c.root_seed = sim::draw(1000000);
		c.amount = sim::sreal(1e-2);
		c.local_op = (int) sim::draw(4);
		c.local_seed = sim::draw(1000000);
		c.ref = sim::chance(1, 4);
		plan.cycle.push_back(c);
	}
	sim::ev("%d nodes, %zu particles (%s), %d cycles%s", plan.nodes, book.size(), node_list(plan.start).c_str(), cycles,
		plan.begin_scatter ? ", spread first" : "");

	// the harness watches every bunch; the watching points are those of the root
	std::vector<ParticleBunch*> bunch((size_t) plan.nodes, nullptr);
	std::vector<int> phase((size_t) plan.nodes, 0);
	std::vector<std::vector<PSvectorArray> > spread;     // after cycle c, per node
	spread.resize(plan.cycle.size() + 1, std::vector<PSvectorArray>((size_t) plan.nodes));
	std::vector<std::vector<PSvectorArray> > gathered(plan.cycle.size(), std::vector<PSvectorArray>((size_t) plan.nodes));
	std::vector<std::vector<Totals> > totals(plan.cycle.size() + 1, std::vector<Totals>((size_t) plan.nodes));
	std::vector<PSvectorArray> root_after(plan.cycle.size());
	std::vector<Totals> root_totals(plan.cycle.size()), root_before(plan.cycle.size());
	auto totals_of = [](ParticleBunch& b) {
			// the charge of one particle
			return Totals{b.GetReferenceMomentum(), b.GetReferenceTime(), b.size() ? b.GetTotalCharge() / (double) b.size() : -1};
		};
	net::Stats st;
	auto node = [&](int r) {
			ParticleBunch b(plan.p0, plan.qmp);
			for(auto& p : plan.start[(size_t) r])
				b.push_back(p);
			if(plan.begin_scatter)
				b.distribute();
			for(size_t c = 0; c <= plan.cycle.size(); c++)
			{
				spread[c][(size_t) r].assign(b.begin(), b.end());
				totals[c][(size_t) r] = totals_of(b);
				if(c == plan.cycle.size())
					break;
				const Cycle& cy = plan.cycle[c];
				if(c || plan.begin_scatter)
					apply_local(b, cy);
				b.gather();
				gathered[c][(size_t) r].assign(b.begin(), b.end());
				if(r == 0)
				{
					root_before[c] = totals_of(b);
					apply_root(b, cy);
				}
				if(cy.ref)
					b.SendReferenceMomentum();
				if(r == 0)
				{
					root_after[c].assign(b.begin(), b.end());
					root_totals[c] = totals_of(b);
				}
				b.distribute();
			}
			b.MPI_Finalize();
		};
	sim::context("nodes");
	st = net::run(plan.nodes, node);
	sim::context("");

	// afterwards: the whole history against the book
	double charge = plan.qmp, ref = plan.p0;
	for(size_t c = 0; c <= plan.cycle.size(); c++)
	{
		std::string when = c ? "after spreading " + std::to_string(c) : plan.begin_scatter ? std::string("after the first spreading") : std::string("at the start");
		compare(when.c_str(), spread[c], book);
		for(int n = 0; n < plan.nodes; n++)
		{
			const Totals& t = totals[c][(size_t) n];
			SIM_CHECK(t.p0 == ref, "nodes:reference", "%s: node %d has reference momentum %.17g, the root %.17g", when.c_str(), n, t.p0, ref);
			SIM_CHECK(t.qmp < 0 || std::fabs(t.qmp - charge) <= 1e-12 * std::fabs(charge), "nodes:charge",
				"%s: a particle of node %d carries %.17g, of the root %.17g", when.c_str(), n, t.qmp, charge);
			SIM_CHECK(t.ct == totals[c][0].ct, "nodes:time", "%s: node %d has reference time %.17g, the root %.17g", when.c_str(), n, t.ct,
				totals[c][0].ct);
			if(c || plan.begin_scatter)
			{
				// shares are even, what is left over stays on the root
				const size_t even = book.size() / (size_t) plan.nodes, got = spread[c][(size_t) n].size();
				SIM_CHECK(n ? got == even : got == book.size() - even * (size_t) (plan.nodes - 1), "nodes:uneven",
					"%s: node %d has %zu of %zu particles on %d nodes", when.c_str(), n, got, book.size(), plan.nodes);
			}
		}
		if(c == plan.cycle.size())
			break;
		const Cycle& cy = plan.cycle[c];
		if(c || plan.begin_scatter)
		{
			if(cy.local_op & 1)
				for(auto& i : book)
					move(i.second, cy.local_seed);
			if(cy.local_op & 2)
				for(auto i = book.begin(); i != book.end();)
					i = goes(i->first, cy.local_seed) ? book.erase(i) : std::next(i);
		}
		when = "after collecting " + std::to_string(c + 1);
		compare(when.c_str(), gathered[c], book);
		SIM_CHECK(gathered[c][0].size() == book.size(), "nodes:behind", "%s: the root holds %zu of %zu particles", when.c_str(),
			gathered[c][0].size(), book.size());
		SIM_CHECK(root_before[c].qmp < 0 || std::fabs(root_before[c].qmp - charge) <= 1e-12 * std::fabs(charge), "nodes:charge",
			"%s: a particle carries %.17g, before %.17g", when.c_str(), root_before[c].qmp, charge);
		// in the order of the nodes, whichever message came first
		PSvectorArray order;
		{
			std::vector<PSvectorArray> s = spread[c];
			std::map<int64_t, int> where;
			int k = 0;
			for(auto& a : s)
				for(auto& p : a)
					where[p.id()] = k++;
			for(size_t i = 1; i < gathered[c][0].size(); i++)
				SIM_CHECK(where[gathered[c][0][i - 1].id()] < where[gathered[c][0][i].id()], "nodes:order",
					"%s: particle %lld comes before %lld", when.c_str(), (long long) gathered[c][0][i - 1].id(),
					(long long) gathered[c][0][i].id());
		}
		// what the root did is taken over
		book.clear();
		for(auto& p : root_after[c])
			book[p.id()] = p;
		ref = root_totals[c].p0;
		if(root_totals[c].qmp >= 0)
			charge = root_totals[c].qmp;
		if(book.empty())
			charge = -1;
	}
	sim::steps(st.switches);
	if(plan.nodes > 1 && st.messages)
		sim::nontrivial();
	if(st.waited)
		sim::probe("node.waited");
	if(st.rendezvous)
		sim::probe("send.waited");
}
