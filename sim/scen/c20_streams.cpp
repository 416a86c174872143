// C20: a drawn history of seedings, resets and requests on the main stream and on named streams,
// with references to streams kept over all of it.  Afterwards every stretch of every stream is
// asked for again on its own, in another order and beside other use, and must give the same.
#include <algorithm>
#include <map>
#include <sstream>
#include "gen.h"
#include "RandomNG.h"
#include "ParticleDistributionGenerator.h"
double HBSpectrumGen(double uc);
double AWSpectrumGen(double uc);

namespace
{
struct Req
{
	int kind;
	double a, b, c;
	std::vector<double> out;
};
const char* const NAMES[] = {"alpha", "beta", "PhotonSpectrumGen", "", "alphb", "a rather long name for a stream", "beta ", "ALPHA"};
const int NN = 8;
double raw(std::mt19937_64& g) { return (double) (g() >> 11); }
// kinds 0-.. on the main stream
const int MAIN_KINDS = 11, LOCAL_KINDS = 4;
void ask_main(Req& r)
{
	switch(r.kind)
	{
	case 0:
		r.out = {RandomNG::normal(r.a, r.b)};
		break;
	case 1:
		r.out = {RandomNG::uniform(r.a, r.a + 1 + r.b)};
		break;
	case 2:
		r.out = {RandomNG::normal(r.a, r.b, r.c)};
		break;
	case 3:
		r.out = {RandomNG::poisson(r.b * 5)};
		break;
	case 4:
		r.out = {RandomNG::landau()};
		break;
	case 5:
		r.out = {raw(RandomNG::getGenerator())};
		break;
	case 6:
	{
		NormalParticleDistributionGenerator g;
		const PSvector p = g.GenerateFromDistribution();
		for(int i = 0; i < 6; i++)
			r.out.push_back(p[i]);
		break;
	}
	case 7:
	{
		UniformParticleDistributionGenerator g;
		const PSvector p = g.GenerateFromDistribution();
		for(int i = 0; i < 6; i++)
			r.out.push_back(p[i]);
		break;
	}
	case 8:
	{
		RingParticleDistributionGenerator g;
		const PSvector p = g.GenerateFromDistribution();
		for(int i = 0; i < 6; i++)
			r.out.push_back(p[i]);
		break;
	}
	case 9:
	{
		NormalParticleDistributionGenerator g(1 + r.b);
		const PSvector p = g.GenerateFromDistribution();
		for(int i = 0; i < 6; i++)
			r.out.push_back(p[i]);
		break;
	}
	case 10:
	{
		std::normal_distribution<> d(r.a, 1 + r.b);
		r.out = {d(RandomNG::getGenerator())};
		break;
	}
	}
}
std::mt19937_64& named(int name) { return RandomNG::getLocalGenerator(hash_string(NAMES[name])); }
void ask_local(Req& r, int name, std::mt19937_64& g)
{
	switch(r.kind)
	{
	case 0:
		r.out = {raw(g)};
		break;
	case 1:
		r.out = {std::uniform_real_distribution<>{r.a, r.a + 1 + r.b}(g)};
		break;
	case 2:
		r.out = {std::normal_distribution<>{r.a, 1 + r.b}(g)};
		break;
	case 3:
		if(name == 2)
			r.out = {HBSpectrumGen(1 + r.b), AWSpectrumGen(1 + r.b)};
		else
			r.out = {raw(g), raw(g), raw(g)};
		break;
	}
}
Req drawn_req(bool main)
{
	Req r;
	r.kind = (int) sim::draw(main ? MAIN_KINDS : LOCAL_KINDS);
	r.a = sim::sreal(2);
	r.b = sim::chance(1, 6) ? 0 : sim::real(0, 4);
	r.c = sim::chance(1, 3) ? 0 : sim::real(0.2, 5);
	return r;
}
struct Stretch
{
	std::vector<std::uint32_t> seed;
	int stream;                        // -1 the main stream, else a name
	std::vector<Req> req;
};
std::string show(const std::vector<double>& v)
{
	std::string s;
	for(double d : v)
		s += sim::fmt("%s%.17g", s.empty() ? "" : " ", d);
	return s;
}
bool same(const std::vector<double>& a, const std::vector<double>& b)
{
	return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size() * sizeof(double));
}
const char* label(int stream) { return stream < 0 ? "the main stream" : NAMES[stream]; }
}

SCENARIO(streams)
{
	sim::heap_config(sim::heap_random());
	sim::entropy(sim::draw(1u << 20) + 1);
	std::vector<Stretch> done;
	std::map<int, std::vector<Req> > now;
	std::map<int, std::mt19937_64*> kept;
	std::vector<std::uint32_t> seed;
	bool seeded = false;
	auto close_all = [&]() {
		for(auto& s : now)
			if(!s.second.empty())
				done.push_back(Stretch{seed, s.first, s.second});
		now.clear();
	};
	std::ostringstream warnings;
	std::streambuf* const cerr0 = std::cerr.rdbuf(warnings.rdbuf());
	struct Restore
	{
		std::streambuf* b;
		~Restore() { std::cerr.rdbuf(b); }
	} restore{cerr0};
	auto drawn_seed = [&]() {
		std::vector<std::uint32_t> s(1 + sim::draw(3));
		for(auto& x : s)
			x = sim::chance(1, 4) ? (std::uint32_t) sim::draw(4) : (std::uint32_t) sim::draw(1ull << 32);
		return s;
	};
	const int n = (int) sim::range(1, sim::tier_thorough() ? 120 : 50);
	for(int k = 0; k < n; k++)
	{
		const uint64_t op = sim::draw(16);
		sim::steps(1);
		if(!seeded && op < 12)
			warnings.str("");
		if(op < 6)
		{
			Req r = drawn_req(true);
			const uint64_t reads = sim::entropy_reads();
			ask_main(r);
			sim::mix(r.kind);
			// requests that need no randomness may leave the library unseeded
			if(!seeded && !RandomNG::getSeed().empty())
			{
				SIM_CHECK(!warnings.str().empty(), "streams:warning", "seeded automatically without a warning");
				SIM_CHECK(sim::entropy_reads() > reads, "streams:entropy", "seeded automatically without any entropy");
				seeded = true;
				seed = RandomNG::getSeed();
				sim::probe("used_before_seeding");
			}
			sim::ev("main %d: %s", r.kind, show(r.out).c_str());
			if(seeded)
				now[-1].push_back(r);
			else
				SIM_CHECK(r.out.size() == 1 && std::isfinite(r.out[0]), "streams:unseeded", "unseeded use gave %s", show(r.out).c_str());
		}
		else if(op < 12)
		{
			const int name = (int) sim::draw(NN);
			Req r = drawn_req(false);
			const uint64_t reads = sim::entropy_reads();
			if(sim::chance(1, 12))
			{
				// no memory when the stream is asked for; asked for again it is the same stream
				try
				{
					sim::heap_fail_at(1 + sim::draw(6));
					named(name);
				}
				catch(std::bad_alloc&)
				{
				}
				if(sim::heap_fail_clear())
					sim::fault("alloc_fail");
				if(seeded || RandomNG::getSeed().size() != 8)
					sim::ev("asked for %s with too little memory", NAMES[name]);
			}
			std::mt19937_64* g = kept.count(name) && sim::chance(1, 2) ? kept[name] : nullptr;
			if(!g)
			{
				g = &named(name);
				if(sim::chance(1, 2))
					kept[name] = g;
			}
			if(!seeded)
			{
				SIM_CHECK(!warnings.str().empty(), "streams:warning", "seeded automatically without a warning");
				SIM_CHECK(sim::entropy_reads() > reads, "streams:entropy", "seeded automatically without any entropy");
				seeded = true;
				seed = RandomNG::getSeed();
				SIM_CHECK(!seed.empty(), "streams:seed", "no seed after automatic seeding");
				sim::probe("local_before_seeding");
			}
			ask_local(r, name, *g);
			sim::mix(100 + 10 * name + r.kind);
			sim::ev("%s %d: %s", NAMES[name], r.kind, show(r.out).c_str());
			now[name].push_back(r);
		}
		else if(op == 12)
		{
			close_all();
			seed = drawn_seed();
			sim::ev("seeded with %zu numbers", seed.size());
			if(seed.size() == 1)
				sim::chance(1, 2) ? RandomNG::init(seed[0]) : RandomNG::reset(seed[0]);
			else
				sim::chance(1, 2) ? RandomNG::init(seed) : RandomNG::reset(seed);
			seeded = true;
			SIM_CHECK(RandomNG::getSeed() == seed, "streams:seed", "the seed is not the one given");
		}
		else if(op == 13 && seeded)
		{
			sim::ev("reset");
			close_all();
			RandomNG::reset();
			SIM_CHECK(RandomNG::getSeed() == seed, "streams:seed", "resetting changed the seed");
		}
		else if(op == 14 && seeded)
		{
			const int name = (int) sim::draw(NN);
			sim::ev("reset %s", NAMES[name]);
			RandomNG::resetLocalGenerator(hash_string(NAMES[name]));
			if(!now[name].empty())
				done.push_back(Stretch{seed, name, now[name]});
			now[name].clear();
		}
		else if(op == 15 && sim::chance(1, 2))
		{
			close_all();
			const uint64_t e = sim::draw(1000) + 5;
			sim::entropy(e);
			RandomNG::init();
			seed = RandomNG::getSeed();
			seeded = true;
			sim::ev("seeded automatically");
			sim::entropy(e);
			RandomNG::init();
			SIM_CHECK(RandomNG::getSeed() == seed, "streams:auto", "the same entropy gave another seed");
			sim::entropy(e + 1000);
			RandomNG::init();
			SIM_CHECK(RandomNG::getSeed() != seed, "streams:auto", "other entropy gave the same seed");
			RandomNG::init(seed);
		}
	}
	close_all();
	if(!done.empty())
		sim::nontrivial();
	// every stretch again, on its own, in another order, beside other use of other streams
	std::vector<size_t> order;
	for(size_t i = 0; i < done.size(); i++)
		order.insert(order.begin() + sim::draw(order.size() + 1), i);
	for(size_t i : order)
	{
		Stretch& s = done[i];
		if(sim::chance(1, 2))
			RandomNG::init(s.seed);
		else
		{
			RandomNG::init((uint32_t) sim::draw(100));
			(void) named((int) sim::draw(NN));
			RandomNG::reset(s.seed);
		}
		const int before = (int) sim::draw(4);
		for(int k = 0; k < before; k++)
		{
			const int o = (int) sim::draw(NN);
			if(o != s.stream)
				raw(named(o));
			if(s.stream >= 0)
				RandomNG::uniform(0, 1);
		}
		const bool beside = sim::chance(1, 2);
		for(size_t k = 0; k < s.req.size(); k++)
		{
			if(beside)
			{
				const int o = (int) sim::draw(NN);
				Req x = drawn_req(s.stream >= 0);
				if(s.stream >= 0)
					ask_main(x);
				else
					ask_local(x, o, named(o));
				if(o != s.stream)
					raw(named(o));
			}
			Req r = s.req[k];
			r.out.clear();
			if(s.stream < 0)
				ask_main(r);
			else
				ask_local(r, s.stream, named(s.stream));
			SIM_CHECK(same(r.out, s.req[k].out), "streams:again", "request %zu (kind %d) of %s gives %s, gave %s", k, r.kind, label(s.stream), show(r.out).c_str(),
				show(s.req[k].out).c_str());
			sim::steps(1);
		}
	}
	// no two streams are the same
	RandomNG::init(drawn_seed());
	std::map<double, std::string> first;
	first[raw(RandomNG::getGenerator())] = "the main stream";
	for(int i = 0; i < NN; i++)
	{
		const double v = raw(named(i));
		SIM_CHECK(!first.count(v), "streams:distinct", "'%s' starts like '%s'", NAMES[i], first[v].c_str());
		first[v] = NAMES[i];
	}
}
