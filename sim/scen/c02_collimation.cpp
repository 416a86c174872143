// C02/C03: collimation.  Conservation of particles (every one of them, by identity) and
// agreement between the loss records and the losses.
//
// Two observer processes frame the collimation process inside every step the scheduler
// takes: the one just before sees the particles the collimation is about to judge, the
// one just after sees what it left.  A chopping process moves step boundaries about.
#include "gen.h"
#include "CollimateParticleProcess.h"
#include "CollimateProtonProcess.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "ScatteringModelsMerlin.h"
#include "MaterialData.h"
#include "RandomNG.h"
#include <algorithm>
#include <list>
using namespace gen;

namespace
{
struct Rec
{
	AcceleratorComponent* comp;
	double pos;
	PSvector p;
	int turn;
	bool used;
};
struct Recorder: public CollimationOutput
{
	std::vector<Rec> r;
	void Dispose(AcceleratorComponent& c, double pos, Particle& p, int turn = 0) override
	{
		r.push_back(Rec{&c, pos, p, turn, false});
	}
};
struct St
{
	bool records;
	std::map<const AcceleratorComponent*, const El*> el;
	int mode;
	bool scatter;
	double bin, q;
	AcceleratorComponent* comp = nullptr;
	bool jaws = false;                 // scattering collimation applies here
	double s = 0;                      // observers' own position in the component
	double bin_start = 0, next_bin = 0;
	std::vector<PSvector> pre;         // before the collimation process of this step
	std::set<int64_t> alive, lost;     // by identity
	std::vector<int64_t> scattered;    // DoScatter calls of this step
	std::map<int64_t, bool> survived;
	Recorder* rec = nullptr;
	size_t nrec = 0;
	int turn = 1;
	int nlost = 0, nscat = 0, njudge = 0;
	bool own_list = false;
	std::list<size_t>* idx = nullptr;
	CollimateParticleProcess* coll = nullptr;
	std::map<size_t, int64_t> index_to_id;
	bool real_scatter = false;
	size_t n0 = 0;
};
St* S;

double expected_charge(const ParticleBunch& b)
{
	return S->q * (double) b.size();
}
typedef const AcceleratorComponent* Where;
bool within(Where c, double x, double y, double z)
{
	const El& e = *S->el[c];
	return inside(e.ap, x, y, z, e.len);
}
// is the particle so close to the edge that rounding decides?
bool marginal(Where a, double x, double y, double z)
{
	const double e = 1e-10;
	bool in = within(a, x, y, z);
	for(int i = -1; i <= 1; i++)
		for(int j = -1; j <= 1; j++)
			if(within(a, x + i * e, y + j * e, z) != in)
				return true;
	return false;
}
void account(const ParticleBunch& b, const char* where)
{
	std::set<int64_t> now;
	for(auto& p : b)
	{
		SIM_CHECK(now.insert((int64_t) p.id()).second, "duplicate", "%s: particle %lld is in the bunch twice", where,
			(long long) p.id());
		SIM_CHECK(S->alive.count((int64_t) p.id()), "invented", "%s: particle %lld is in the bunch but %s", where, (long long) p.id(),
			S->lost.count((int64_t) p.id()) ? "was already lost" : "was never put in");
	}
	std::vector<int64_t> gone;
	for(int64_t id : S->alive)
		if(!now.count(id))
			gone.push_back(id);
	for(int64_t id : gone)
	{
		S->alive.erase(id);
		S->lost.insert(id);
		S->nlost++;
	}
	const double q = b.GetTotalCharge();
	SIM_CHECK(close(q, expected_charge(b), 1e-9, 0), "charge", "%s: total charge %.17g for %zu particles of charge %.17g", where, q,
		b.size(), S->q);
	if(S->records)
	{
		// the losses of this step and the records of this step are the same particles
		std::multiset<int64_t> g(gone.begin(), gone.end());
		for(; S->nrec < S->rec->r.size(); S->nrec++)
		{
			Rec& r = S->rec->r[S->nrec];
			const int64_t id = (int64_t) r.p.id();
			auto it = g.find(id);
			SIM_CHECK(it != g.end(), "record:extra", "%s: a loss of particle %lld in %s is recorded, the particle %s", where,
				(long long) id, r.comp->GetName().c_str(), now.count(id) ? "is still in the bunch" : "was not lost here");
			g.erase(it);
			SIM_CHECK(r.comp == S->comp, "record:element", "%s: loss in %s is recorded in %s", where, S->comp->GetName().c_str(),
				r.comp->GetName().c_str());
			const double L = S->comp->GetLength();
			SIM_CHECK(r.pos >= -1e-9 && r.pos <= L + 1e-9, "record:position", "%s: loss of %lld in %s (length %.12g) recorded at %.12g inside it", where,
				(long long) id, S->comp->GetName().c_str(), L, r.pos);
			SIM_CHECK(r.pos <= S->s + 1e-9, "record:ahead", "%s: loss of %lld recorded at %.12g, the bunch has only reached %.12g", where,
				(long long) id, r.pos, S->s);
			SIM_CHECK(r.turn == S->turn, "record:turn", "%s: loss on passage %d recorded for turn %d", where, S->turn, r.turn);
			if(!S->jaws)
				SIM_CHECK(!within(S->comp, r.p.x(), r.p.y(), r.pos)
					|| marginal(S->comp, r.p.x(), r.p.y(), r.pos), "record:inside",
					"%s: the recorded coordinates %s are inside the aperture of %s", where, show(r.p).c_str(),
					S->comp->GetName().c_str());
			if(L == 0)
				sim::probe("loss.zero-length");
			sim::ev("loss %lld in %s at %.12g turn %d", (long long) id, S->comp->GetName().c_str(), r.pos, r.turn);
		}
		SIM_CHECK(g.empty(), "record:missing", "%s: particle %lld was lost in %s (position %.9g of %.9g) and there is no record of it", where,
			(long long) *g.begin(), S->comp ? S->comp->GetName().c_str() : "-", S->s, S->comp ? S->comp->GetLength() : 0.0);
	}
}
struct Before: public ParticleBunchProcess
{
	Before(int prio) : ParticleBunchProcess("SIM BEFORE", prio) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = true;
		S->comp = &c;
		S->s = 0;
		S->bin_start = 0;
		S->jaws = S->scatter && dynamic_cast<const CollimatorAperture*>(c.GetAperture()) != nullptr;
		S->next_bin = std::min(S->bin, c.GetLength());
	}
	void DoProcess(double ds) override
	{
		S->s += ds;
		S->pre.assign(currentBunch->begin(), currentBunch->end());
		S->scattered.clear();
		S->survived.clear();
	}
	double GetMaxAllowedStepSize() const override
	{
		return 1e30;
	}
};
bool at(double a)
{
	return std::fabs(S->s - a) <= 1e-12;
}
struct After: public ParticleBunchProcess
{
	bool centre_done = false, entrance_done = false, exit_done = false;
	After(int prio) : ParticleBunchProcess("SIM AFTER", prio) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = true;
		centre_done = entrance_done = exit_done = false;
	}
	double GetMaxAllowedStepSize() const override
	{
		return 1e30;
	}
	void DoProcess(double) override
	{
		const Aperture* ap = S->comp->GetAperture();
		const double L = S->comp->GetLength();
		const std::string where = sim::fmt("%s at %.9g of %.9g", S->comp->GetName().c_str(), S->s, L);
		std::map<int64_t, PSvector> pre;
		for(auto& p : S->pre)
			pre.insert({(int64_t) p.id(), p});
		// identity, order
		{
			size_t k = 0;
			for(auto& p : *currentBunch)
			{
				while(k < S->pre.size() && S->pre[k].id() != p.id())
					k++;
				SIM_CHECK(k < S->pre.size(), "invented", "%s: particle %lld came out of nowhere (or out of order)", where.c_str(), (long long) p.id());
				k++;
			}
		}
		std::set<int64_t> now;
		for(auto& p : *currentBunch)
			now.insert((int64_t) p.id());
		if(!ap || !S->jaws)
		{
			const bool centre = (S->mode & COLL_AT_CENTER) && at(L / 2);
			const bool judge = ap && (((S->mode & COLL_AT_ENTRANCE) && at(0)) || centre || ((S->mode & COLL_AT_EXIT) && at(L)));
			S->njudge += judge;
			for(auto& p : S->pre)
			{
				const int64_t id = (int64_t) p.id();
				const bool out = judge && !within(S->comp, p.x(), p.y(), S->s);
				if(!judge)
					SIM_CHECK(now.count(id), "lost:no-reason", "%s: particle %lld vanished where nothing collimates", where.c_str(), (long long) id);
				else if(!marginal(S->comp, p.x(), p.y(), S->s))
					SIM_CHECK(now.count(id) == !out, out ? "lost:kept" : "lost:no-reason", "%s: particle %s is %s the aperture and was %s", where.c_str(),
						show(p).c_str(), out ? "outside" : "inside", out ? "kept" : "removed");
			}
			for(auto& p : *currentBunch)
			{
				const PSvector& o = pre.find((int64_t) p.id())->second;
				SIM_CHECK(same_bits(p, o), "survivor:changed", "%s: surviving particle %s was %s before", where.c_str(), show(p).c_str(), show(o).c_str());
			}
		}
		else
		{
			const double rest = S->next_bin - S->s;
			const bool judge = std::fabs(rest) <= 1e-12 * (1 + L);
			const double b = S->s - S->bin_start;
			std::set<int64_t> called(S->scattered.begin(), S->scattered.end());
			SIM_CHECK(called.size() == S->scattered.size(), "scatter:twice", "%s: a particle was scattered twice in one step", where.c_str());
			if(!judge)
			{
				SIM_CHECK(called.empty(), "scatter:no-reason", "%s: particles interacted away from a bin boundary (bin from %.9g to %.9g)", where.c_str(),
					S->bin_start, S->next_bin);
				SIM_CHECK(now.size() == pre.size(), "lost:no-reason", "%s: particles vanished away from a bin boundary", where.c_str());
			}
			else
			{
				S->njudge++;
				for(auto& p : S->pre)
				{
					const int64_t id = (int64_t) p.id();
					const double x0 = p.x() - b * p.xp(), y0 = p.y() - b * p.yp();
					const bool out = !within(S->comp, x0, y0, S->s);
					if(marginal(S->comp, x0, y0, S->s))
						continue;
					if(!S->real_scatter)
					{
						SIM_CHECK((called.count(id) != 0) == out, out ? "scatter:missed" : "scatter:no-reason",
							"%s: particle %s at the start of the bin (%.9g, %.9g) is %s the jaw opening, interacted: %d", where.c_str(), show(p).c_str(), x0,
							y0, out ? "outside" : "inside", (int) called.count(id));
						const bool expect = !out || S->survived[id];
						SIM_CHECK((now.count(id) != 0) == expect, expect ? "lost:no-reason" : "lost:kept", "%s: particle %lld %s", where.c_str(),
							(long long) id, expect ? "should have survived" : "was absorbed and is still there");
					}
					else if(!out)
						SIM_CHECK(now.count(id), "lost:no-reason", "%s: particle %s inside the jaws vanished", where.c_str(), show(p).c_str());
				}
				for(auto& p : *currentBunch)
				{
					const PSvector& o = pre.find((int64_t) p.id())->second;
					const double x0 = o.x() - b * o.xp(), y0 = o.y() - b * o.yp();
					if(S->real_scatter && !within(S->comp, x0, y0, S->s))
						continue;
					SIM_CHECK(close6(p, o, 1e-12, 1e-15), "survivor:changed", "%s: surviving particle %s was %s before", where.c_str(), show(p).c_str(),
						show(o).c_str());
				}
				S->bin_start = S->s;
				S->next_bin = S->s + S->bin > L ? L : S->s + S->bin;
			}
		}
		account(*currentBunch, where.c_str());
		// the index list names the survivors
		if(S->idx)
		{
			SIM_CHECK(S->idx->size() == currentBunch->size(), "index:size", "%s: %zu indices for %zu particles", where.c_str(),
				S->idx->size(), currentBunch->size());
			auto i = S->idx->begin();
			for(auto& p : *currentBunch)
			{
				SIM_CHECK(S->index_to_id[*i] == (int64_t) p.id(), "index:wrong", "%s: index %zu stands next to particle %lld", where.c_str(), *i, (long long) p.id());
				++i;
			}
		}
	}
};
struct Chop: public ParticleBunchProcess
{
	std::vector<double> b;
	double s = 0;
	size_t k = 0;
	Chop(int prio) : ParticleBunchProcess("SIM CHOP", prio) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = true;
		s = 0;
		k = 0;
		b.clear();
		int n = (int) sim::draw(4);
		for(int i = 0; i < n; i++)
			b.push_back(c.GetLength() * sim::real(0, 1));
		std::sort(b.begin(), b.end());
		if(n)
			sim::fault("step.chopped", n);
	}
	void DoProcess(double ds) override
	{
		s += ds;
		while(k < b.size() && std::fabs(b[k] - s) <= 1e-12)
			k++;
	}
	double GetMaxAllowedStepSize() const override
	{
		return k < b.size() ? b[k] - s : 1e30;
	}
};
// rearranges the bunch within elements, as wake fields do
struct Sorter: public ParticleBunchProcess
{
	Sorter(int prio) : ParticleBunchProcess("SIM SORT", prio) {}
	void SetCurrentComponent(AcceleratorComponent&) override
	{
		active = true;
	}
	void DoProcess(double) override
	{
		switch(sim::draw(4))
		{
		case 0:
			currentBunch->SortByCT();
			break;
		case 1:
			std::reverse(currentBunch->begin(), currentBunch->end());
			break;
		default:
			return;
		}
		sim::fault("bunch.rearranged");
	}
	double GetMaxAllowedStepSize() const override
	{
		return 1e30;
	}
};
struct Scripted: public CollimateParticleProcess
{
	Scripted(int prio, int mode) : CollimateParticleProcess(prio, mode) {}
private:
	ScatterOutcome DoScatter(Particle& p) override
	{
		const int64_t id = (int64_t) p.id();
		S->scattered.push_back(id);
		S->nscat++;
		const double b = S->s - S->bin_start;
		if(sim::chance(1, 2))
		{
			S->survived[id] = true;
			p.x() += b * p.xp();
			p.y() += b * p.yp();
			sim::fault("scatter.survived");
			return ScatterOutcome::survived;
		}
		S->survived[id] = false;
		const double pos = S->bin_start + b * sim::real(0, 1);
		for(auto& o : CollimationOutputVector)
			o->Dispose(*currentComponent, pos, p, ColParProTurn);
		sim::fault("scatter.absorbed");
		return ScatterOutcome::absorbed;
	}
};
struct Counting: public CollimateParticleProcess
{
	Counting(int prio, int mode) : CollimateParticleProcess(prio, mode) {}
};
std::vector<std::vector<std::string> > table(const std::string& s)
{
	std::vector<std::vector<std::string> > t;
	std::istringstream is(s);
	std::string line;
	while(std::getline(is, line))
	{
		std::istringstream ls(line);
		std::vector<std::string> row;
		std::string w;
		while(ls >> w)
			row.push_back(w);
		t.push_back(row);
	}
	return t;
}
int column(const std::vector<std::string>& head, const char* n)
{
	for(size_t i = 0; i < head.size(); i++)
		if(head[i] == n || head[i] == std::string("#") + n)
			return (int) i;
	return -1;
}
void check_maps(LossMapCollimationOutput* maps[3], DetailedCollimationOutput* det, bool twice)
{
	const std::vector<Rec>& R = S->rec->r;
	for(int k = 0; k < 3; k++)
	{
		maps[k]->Finalise();
		if(twice)
			maps[k]->Finalise();
		double tot = 0;
		std::map<std::string, double> by_name, want_name;
		std::map<long, double> by_bin, want_bin;     // tencm: start of the bin in the lattice, in 0.1 mm
		std::map<long, double> by_pos, want_pos;     // precise: position in the lattice
		for(auto& o : maps[k]->OutputLosses)
		{
			tot += o.lost;
			by_name[o.ElementName] += o.lost;
			by_bin[lround((o.s + o.interval) * 1e4)] += o.lost;
			by_pos[lround(o.position * 1e9)] += o.lost;
		}
		std::map<std::string, std::set<AcceleratorComponent*> > users;
		for(auto& r : R)
		{
			want_name[r.comp->GetQualifiedName()]++;
			users[r.comp->GetQualifiedName()].insert(r.comp);
			double inter = 0;
			while(!(r.pos >= inter && r.pos < inter + 0.1))
				inter += 0.1;
			want_bin[lround((r.comp->GetComponentLatticePosition() + inter) * 1e4)]++;
			want_pos[lround((r.comp->GetComponentLatticePosition() + r.pos) * 1e9)]++;
		}
		static const char* names[] = {"nearest-element", "precise", "ten-centimetre"};
		SIM_CHECK(tot == (double) R.size(), "map:total", "the %s loss map counts %g losses, %zu particles were lost", names[k], tot, R.size());
		SIM_CHECK(by_name == want_name, "map:element", "the %s loss map disagrees with the losses per element", names[k]);
		if(k == 2)
			SIM_CHECK(by_bin == want_bin, "map:bin", "the ten-centimetre loss map puts losses in the wrong bins");
		if(k == 1)
			SIM_CHECK(by_pos == want_pos, "map:position", "the precise loss map puts losses at the wrong positions");
		std::ostringstream os;
		maps[k]->Output(&os);
		auto t = table(os.str());
		SIM_CHECK(!t.empty(), "map:print", "the %s loss map prints nothing", names[k]);
		const int c = column(t[0], "loss");
		double sum = 0;
		for(size_t i = 1; i < t.size(); i++)
		{
			SIM_CHECK(t[i].size() == t[0].size(), "map:print", "the %s loss map prints %zu fields under %zu headings", names[k], t[i].size(), t[0].size());
			sum += atof(t[i][c].c_str());
		}
		SIM_CHECK(sum == tot, "map:print", "the %s loss map prints %g losses of %g", names[k], sum, tot);
	}
	std::ostringstream os;
	det->Output(&os);
	auto t = table(os.str());
	SIM_CHECK(t.size() == R.size() + 1, "detail:rows", "the detailed output has %zu rows for %zu losses", t.size() - 1, R.size());
	for(size_t i = 1; i < t.size(); i++)
	{
		const Rec& r = R[i - 1];
		SIM_CHECK(t[i].size() == t[0].size(), "detail:columns", "the detailed output prints %zu fields under %zu headings", t[i].size(), t[0].size());
		const int cid = column(t[0], "id"), cp = column(t[0], "pos"), ct = column(t[0], "turn"), cx = column(t[0], "x");
		SIM_CHECK(cid >= 0 && atoll(t[i][cid].c_str()) == (long long) r.p.id(), "detail:id", "detailed output row %zu does not name particle %lld", i,
			(long long) r.p.id());
		SIM_CHECK(close(atof(t[i][cp].c_str()), r.pos, 1e-4, 1e-9), "detail:pos", "detailed output row %zu: position %s, lost at %g", i, t[i][cp].c_str(), r.pos);
		SIM_CHECK(close(atof(t[i][cx].c_str()), r.p.x(), 1e-4, 1e-12), "detail:x", "detailed output row %zu: x %s, lost at %g", i, t[i][cx].c_str(), r.p.x());
		SIM_CHECK(atoi(t[i][ct].c_str()) == r.turn, "detail:turn", "detailed output row %zu: turn %s, lost in turn %d", i, t[i][ct].c_str(), r.turn);
	}
}
void run(bool records)
{
	sim::heap_config(sim::heap_random());
	St st;
	S = &st;
	st.records = records;
	Opts o;
	o.kinds = {DRIFT, COLL, QUAD, MARKER, SBEND, SEXT, SOL, BPMK};
	o.nmax = 9;
	o.lmin = 0.05;
	o.lmax = 2;
	o.apert = 70;
	o.more_ap = true;
	o.apsize = sim::real(6e-3, 3e-3);
	Lattice L = gen_lattice(o);
	const bool same_names = sim::chance(1, 3);
	for(size_t i = 1; i < L.el.size(); i++)
		if(same_names && L.el[i].kind == L.el[0].kind && sim::chance(1, 2))
			L.el[i].name = L.el[0].name;
	BeamSpec beam = gen_beam(1, 40, 5e-3, sim::chance(1, 2) ? 5e-4 : 3e-3, 1e-3, 1e-3);
	describe(L);
	st.mode = (int) sim::range(1, 7);
	if(sim::chance(1, 2))
		st.mode = COLL_AT_EXIT;
	st.scatter = sim::chance(1, 2);
	static const double bins[] = {0.1, 0.05, 0.23, 1, 10, 0.1};
	st.bin = bins[sim::draw(6)];
	st.q = sim::chance(1, 2) ? 1.0 : sim::real(0.5, 3e4);
	st.turn = 1;
	static const double thr[] = {100, 1000, 50, 100, 20, 100};
	const double threshold = thr[sim::draw(6)];
	const int turns = (int) sim::range(1, 3);
	const bool chop = sim::chance(1, 2);
	const int proc = (int) sim::draw(3);   // 0 plain, 1 scripted interaction, 2 real scattering
	st.real_scatter = proc != 1;
	Built b = build(L);
	{
		// positions are set by the lattice readers; hand-made machines have none
		const bool positions = sim::chance(1, 2);
		double pos = 0;
		for(size_t i = 0; i < L.el.size(); i++)
		{
			st.el[b.comp[i]] = &L.el[i];
			if(positions)
				b.comp[i]->SetComponentLatticePosition(pos);
			pos += L.el[i].len;
		}
	}
	StandardMaterialData* mats = nullptr;
	if(proc == 2)
	{
		RandomNG::init((uint32_t) sim::draw(1u << 30));
		mats = new StandardMaterialData();
		mats->UseSixTrackValues();
		for(size_t i = 0; i < L.el.size(); i++)
			if(L.el[i].kind == COLL)
			{
				static const char* m[] = {"Cu", "C", "W", "Be", "Al"};
				static_cast<Collimator*>(b.comp[i])->SetMaterialProperties(mats->property[m[sim::draw(5)]]);
			}
	}
	std::unique_ptr<ProtonBunch> bunch0(make_bunch<ProtonBunch>(beam, L.p0, st.q));
	ParticleTracker tr(b.model->GetBeamline(), bunch0.get(), false);
	CollimateParticleProcess* c = nullptr;
	CollimateProtonProcess* cp = nullptr;
	if(proc == 0)
		c = new CollimateParticleProcess(5, st.mode);
	else if(proc == 1)
		c = new Scripted(5, st.mode);
	else
	{
		cp = new CollimateProtonProcess(5, st.mode);
		cp->SetScatteringModel(new ScatteringModelSixTrack);
		c = cp;
	}
	c->ScatterAtCollimator(st.scatter);
	c->SetOutputBinSize(st.bin);
	c->SetLossThreshold(threshold);
	st.coll = c;
	std::list<size_t> own;
	const int idx = (int) sim::draw(3);
	if(idx == 1)
		c->IndexParticles(true);
	else if(idx == 2)
	{
		if(sim::chance(1, 2))
			c->IndexParticles(true);
		c->IndexParticles(own);
	}
	Recorder rec;
	st.rec = &rec;
	LossMapCollimationOutput* maps[3] = {new LossMapCollimationOutput(nearestelement), new LossMapCollimationOutput(precise),
										 new LossMapCollimationOutput(tencm)};
	DetailedCollimationOutput det;
	det.AddIdentifier("*");
	c->SetCollimationOutput(&rec);
	for(auto m : maps)
		c->SetCollimationOutput(m);
	c->SetCollimationOutput(&det);
	tr.AddProcess(new Before(4));
	tr.AddProcess(c);
	tr.AddProcess(new After(6));
	if(chop)
		tr.AddProcess(new Chop(sim::chance(1, 2) ? 3 : 8));
	if(idx == 0 && sim::chance(1, 3))   // an index list follows positions in the bunch
		tr.AddProcess(new Sorter(sim::chance(1, 2) ? 2 : 7));
	for(size_t i = 0; i < beam.p.size(); i++)
	{
		st.alive.insert((int64_t) beam.p[i].id());
		st.index_to_id[i] = (int64_t) beam.p[i].id();
	}
	st.n0 = beam.p.size();
	if(idx)
		st.idx = idx == 2 ? &own : const_cast<std::list<size_t>*>(&c->GetIndexes());
	sim::ev("mode=%d scatter=%d bin=%g thr=%g turns=%d proc=%d n=%zu idx=%d chop=%d", st.mode, st.scatter, st.bin, threshold, turns,
		proc, st.n0, idx, chop);
	bool thrown = false;
	const bool stepwise = sim::chance(1, 3);
	for(int t = 0; t < turns; t++)
	{
		st.turn = t + 1;
		try
		{
			if(t > 0)
				tr.Continue();
			else if(stepwise)
			{
				tr.InitStepper();
				while(tr.StepComponent())
					;
			}
			else
				tr.Run();
		}
		catch(ExcessiveParticleLoss&)
		{
			thrown = true;
		}
		if(thrown)
		{
			account(tr.GetTrackedBunch(), "after the loss exception");
			SIM_CHECK(100.0 * st.nlost / st.n0 >= threshold * (1 - 1e-12), "threshold:early", "the loss exception came at %d of %zu lost, the limit is %g%%",
				st.nlost, st.n0, threshold);
			sim::probe("loss.threshold");
			break;
		}
		SIM_CHECK(100.0 * st.nlost / st.n0 < threshold || st.nlost == 0, "threshold:ignored", "%d of %zu lost, the limit is %g%%, and tracking went on", st.nlost,
			st.n0, threshold);
		sim::steps(L.length());
	}
	const ParticleBunch& fin = tr.GetTrackedBunch();
	log_bunch("final", fin);
	SIM_CHECK(fin.size() == st.alive.size() && st.alive.size() + st.lost.size() == st.n0, "sum", "survivors %zu + lost %zu != %zu", fin.size(), st.lost.size(), st.n0);
	if(st.nlost || st.nscat)
		sim::nontrivial();
	if(fin.size() == 0)
		sim::probe("bunch.empty");
	if(records)
	{
		check_maps(maps, &det, sim::chance(1, 4));
	}
	sim::ev("lost %d scattered %d judged %d thrown %d", st.nlost, st.nscat, st.njudge, thrown);
	sim::mix((uint64_t) st.nlost * 17 + st.mode * 1000 + st.scatter * 5 + proc);
	sim::done();
}
}
SCENARIO(collimate_conserve)
{
	run(false);
}
SCENARIO(collimate_record)
{
	run(true);
}
