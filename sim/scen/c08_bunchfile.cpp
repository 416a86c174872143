// C08/C09: bunches on disk.  C08 writes a bunch, reloads it and continues the simulation
// from the file; C09 damages the file or the device first.
#include "chop.h"
#include "gen.h"
#include "MonitorProcess.h"
#include "MuonBunch.h"
#include "SMPBunch.h"
#include "SliceMacroParticle.h"
#include <cerrno>
#include <fstream>
#include <iomanip>
#include <iterator>
#include <limits>
using namespace gen;

namespace
{
double awkward()
{
	switch(sim::draw(8))
	{
	case 0:
		return 0.0;
	case 1:
		return sim::sreal(1e-3);
	case 2:
		return sim::sreal(1) / 3;
	case 3:
		return -0.0;
	case 4:
		return std::ldexp(1 + sim::real(0, 1), (int) sim::range(0, 2000) - 1000) * (sim::chance(1, 2) ? -1 : 1);
	case 5:
		return std::ldexp((double) sim::draw(1u << 20), -1074);  // subnormal
	case 6:
		return std::nextafter((double) sim::range(1, 10), 0.0);
	default:
		return 1.7e308 *  // ten digits of the largest double would overflow
			    (sim::chance(1, 2) ? -1 : 1);
	}
}
BeamSpec any_beam(int nmin, int nmax, bool tame)
{
	BeamSpec b = gen_beam(nmin, nmax, 1e-3, 1e-4, 1e-3, 1e-3);
	if(!tame)
		for(auto& p : b.p)
			for(int i = 0; i < 6; i++)
				if(sim::chance(1, 3))
					p[i] = awkward();
	return b;
}
ParticleBunch* new_bunch(int type, double p0, double q)
{
	switch(type)
	{
	case 1:
		return new ProtonBunch(p0, q);
	case 2:
		return new ElectronBunch(p0, q);
	case 3:
		return new MuonBunch(p0, q);
	}
	return new ParticleBunch(p0, q);
}
// draws the state a user may have left a stream in
void stream_state(std::ostream& os)
{
	if(sim::chance(1, 3))
		os << std::setprecision((int) sim::range(1, 20));
	if(sim::chance(1, 4))
		os << (sim::chance(1, 2) ? std::fixed : std::scientific);
	if(sim::chance(1, 6))
		os << std::showpos;
	if(sim::chance(1, 6))
		os << std::uppercase;
	if(sim::chance(1, 6))
		os << std::left;
}
void gentle_disk()
{
	sim::DiskCfg d;
	if(sim::chance(1, 2))
		d.short_io = (int) sim::range(1, 600);
	if(sim::chance(1, 3))
		d.eintr_every = (int) sim::range(2, 5);
	sim::disk(d);
}
std::string text_of(const ParticleBunch& b, bool header = true)
{
	std::ostringstream os;
	b.Output(os, header);
	return os.str();
}
bool same_coords(const PSvector& a, const PSvector& b)
{
	PSvector c(b);
	c.id() = a.id();
	return same_bits(a, c);
}
// ten digits after the point, as operator<< prints
bool printed(double a, double b, int digits)
{
	char u[64], v[64];
	snprintf(u, sizeof u, "%.*e", digits, a);
	snprintf(v, sizeof v, "%.*e", digits, b);
	return !strcmp(u, v) || strtod(u, nullptr) == b;
}
}

SCENARIO(bunch_file)
{
	sim::context("file");
	sim::heap_config(sim::heap_random());
	const int what = (int) sim::draw(4);
	if(what == 0 || what == 1)
	{
		// Output / Input
		const int type = (int) sim::draw(4);
		const bool tame = sim::chance(1, 2);
		const double p0 = tame ? sim::real(0.1, 7000) : std::fabs(awkward()) + 1e-300;
		const double q = sim::chance(1, 2) ? 1.0 : sim::sreal(1e11) + 1e-9;
		BeamSpec s = any_beam(1, sim::chance(1, 20) ? 400 : 20, tame);
		std::unique_ptr<ParticleBunch> a(new_bunch(type, p0, q));
		for(auto& p : s.p)
			a->AddParticle(p);
		a->SetReferenceTime(tame ? sim::real(0, 1e5) : awkward());
		log_bunch("bunch", *a);
		gentle_disk();
		const std::string f = sim::path("bunch.txt");
		bool header = true;
		{
			std::ofstream os(f);
			stream_state(os);
			const auto prec = os.precision();
			const auto fl = os.flags();
			if(sim::chance(1, 2))
				a->Output(os);
			else
				a->Output(os, header = sim::chance(1, 2));
			SIM_CHECK(os.precision() == prec && os.flags() == fl, "file:stream-state", "writing a bunch left the stream with another format");
			SIM_CHECK(os.good(), "file:write", "the stream failed while writing a bunch");
		}
		const bool fresh = sim::chance(3, 4);
		std::unique_ptr<ParticleBunch> b(new_bunch(type, fresh ? 1.0 : p0, 1.0));
		{
			std::ifstream is(f);
			b->Input(q * (double) s.p.size(), is);
		}
		SIM_CHECK(b->size() == s.p.size(), "file:count", "wrote %zu particles, read %zu", s.p.size(), b->size());
		for(size_t i = 0; i < s.p.size(); i++)
			SIM_CHECK(same_coords(s.p[i], b->GetParticles()[i]), "file:coordinates", "particle %zu written %s read %s", i, show(s.p[i]).c_str(),
				show(b->GetParticles()[i]).c_str());
		SIM_CHECK(b->GetReferenceMomentum() == a->GetReferenceMomentum(), "file:reference", "reference momentum %.17g became %.17g",
			a->GetReferenceMomentum(), b->GetReferenceMomentum());
		SIM_CHECK(b->GetReferenceTime() == a->GetReferenceTime(), "file:reference", "reference time %.17g became %.17g", a->GetReferenceTime(),
			b->GetReferenceTime());
		SIM_CHECK(close(b->GetTotalCharge(), a->GetTotalCharge(), 1e-13, 0), "file:charge", "charge %.17g became %.17g", a->GetTotalCharge(),
			b->GetTotalCharge());
		SIM_CHECK(text_of(*a) == text_of(*b), "file:rewrite", "writing the reloaded bunch gives another file");
		sim::nontrivial();
		sim::mix(s.p.size() * 8 + (uint64_t) type);
	}
	else if(what == 2)
	{
		// a list of particles (operator<< and the stream constructor), or slices
		if(sim::chance(1, 2))
		{
			BeamSpec s = any_beam(1, 20, sim::chance(1, 2));
			for(auto& p : s.p)
				if(sim::chance(1, 3))
					p.id() = (int64_t) sim::draw(1ull << 40) * (sim::chance(1, 4) ? -1 : 1);
			const double p0 = sim::real(0.1, 7000);
			const double q = sim::sreal(1e11) + 1;
			gentle_disk();
			const std::string f = sim::path("particles.txt");
			{
				std::ofstream os(f);
				stream_state(os);
				std::unique_ptr<ParticleBunch> a(make_bunch<ParticleBunch>(s, p0, q));
				std::copy(a->begin(), a->end(), std::ostream_iterator<PSvector>(os));
			}
			std::ifstream is(f);
			std::unique_ptr<ParticleBunch> b;
			switch(sim::draw(4))
			{
			case 0:
				b.reset(new ParticleBunch(p0, q, is));
				break;
			case 1:
				b.reset(new ProtonBunch(p0, q, is));
				break;
			case 2:
				b.reset(new ElectronBunch(p0, q, is));
				break;
			case 3:
				b.reset(new MuonBunch(p0, q, is));
				break;
			}
			SIM_CHECK(b->size() == s.p.size(), "file:count", "wrote %zu particles, read %zu", s.p.size(), b->size());
			for(size_t i = 0; i < s.p.size(); i++)
			{
				const PSvector& v = b->GetParticles()[i];
				for(int k = 0; k < 6; k++)
					SIM_CHECK(printed(s.p[i][k], v[k], 10), "file:coordinates", "particle %zu coordinate %d written %.17g read %.17g", i, k, s.p[i][k], v[k]);
				SIM_CHECK(v.id() == s.p[i].id(), "file:identity", "particle %zu has identity %lld, written %lld", i, (long long) v.id(),
					(long long) s.p[i].id());
			}
			SIM_CHECK(b->GetReferenceMomentum() == p0 && close(b->GetTotalCharge(), q, 1e-12, 0), "file:charge", "momentum %.17g charge %.17g for %.17g %.17g",
				b->GetReferenceMomentum(), b->GetTotalCharge(), p0, q);
		}
		else
		{
			using namespace SMPTracking;
			const double p0 = sim::range(1, 1000), ct0 = sim::range(0, 1000);
			SMPBunch a(p0, 1);
			a.SetReferenceTime(ct0);
			const int n = (int) sim::range(1, 12);
			double qt = 0;
			for(int i = 0; i < n; i++)
			{
				PSmoments S;
				S.zero();
				for(int k = 0; k < 4; k++)
				{
					S[k] = sim::sreal(1e-3);
					S(k, k) = sim::real(1e-12, 1e-6);
					for(int j = 0; j < k; j++)
						S(k, j) = sim::sreal(1e-9);
				}
				SliceMacroParticle m(S, 1e-3 * i, sim::sreal(1e-3), sim::real(1, 1e9));
				qt += m.Q();
				a.AddParticle(m);
			}
			gentle_disk();
			const std::string f = sim::path("slices.txt");
			{
				std::ofstream os(f);
				a.Output(os);
			}
			SMPBunch b(f);
			SIM_CHECK(b.Size() == a.Size(), "file:count", "wrote %zu slices, read %zu", a.Size(), b.Size());
			SIM_CHECK(b.GetReferenceMomentum() == p0 && b.GetReferenceTime() == ct0, "file:reference", "slices: reference %.17g %.17g for %.17g %.17g",
				b.GetReferenceMomentum(), b.GetReferenceTime(), p0, ct0);
			SIM_CHECK(close(b.GetTotalCharge(), qt, 1e-6, 0), "file:charge", "slices: charge %.17g for %.17g", b.GetTotalCharge(), qt);
			auto p = a.begin();
			auto r = b.begin();
			for(; p != a.end(); ++p, ++r)
			{
				for(int k = 0; k < 6; k++)
					SIM_CHECK(printed((*p).GetCentroid()[k], (*r).GetCentroid()[k], 6), "file:coordinates", "slice coordinate %d %.17g read %.17g", k,
						(*p).GetCentroid()[k], (*r).GetCentroid()[k]);
				for(int k = 0; k < 4; k++)
					for(int j = 0; j <= k; j++)
						SIM_CHECK(close((*p).sig(k, j), (*r).sig(k, j), 4e-6, 1e-30), "file:moments", "slice moment %d %d %.17g read %.17g", k, j, (*p).sig(k, j),
							(*r).sig(k, j));
				SIM_CHECK(close((*p).Q(), (*r).Q(), 1e-6, 0), "file:charge", "slice charge");
			}
		}
		sim::nontrivial();
	}
	else
	{
		// restart: track, save at a drawn place, throw everything away, reload, continue
		Opts o;
		o.kinds = {DRIFT, QUAD, SBEND, MARKER, SEXT, SOL, XCORK, YCORK, TWRF};
		o.nmin = 2;
		o.nmax = 8;
		Lattice L = gen_lattice(o);
		const int type = (int) sim::range(1, 2);
		BeamSpec s = gen_beam(1, 12, 1e-3, 1e-4, 1e-3, 1e-3);
		describe(L);
		auto start = [&]() {
				std::unique_ptr<ParticleBunch> b(new_bunch(type, L.p0, 1e9));
				for(auto& p : s.p)
					b->AddParticle(p);
				return b;
			};
		std::unique_ptr<ParticleBunch> whole = start();
		{
			Built m = build(L);
			ParticleTracker t(m.model->GetBeamline());
			t.Track(whole.get());
		}
		log_bunch("whole", *whole);
		const size_t n = L.el.size();
		const size_t cut = 1 + sim::draw(n - 1);
		gentle_disk();
		const std::string prefix = sim::path("dump_");
		std::string f;
		const bool monitor = sim::chance(1, 2);
		{
			std::unique_ptr<ParticleBunch> b = start();
			Built m = build(L);
			ParticleTracker t(m.model->GetBeamline(0, monitor ? n - 1 : cut - 1));
			if(monitor)
			{
				MonitorProcess* mp = new MonitorProcess("MON", 1, prefix);
				mp->AddElement(L.el[cut - 1].name);
				t.AddProcess(mp);
				f = prefix + L.el[cut - 1].name + "_1";
			}
			t.Track(b.get());
			if(!monitor)
			{
				std::ofstream os(f = sim::path("restart.txt"));
				b->Output(os);
			}
		}
		bool unique = true;
		for(size_t i = 0; i < n; i++)
			unique = unique && (i == cut - 1 || L.el[i].name != L.el[cut - 1].name);
		if(monitor && !unique)
			sim::done();
		std::unique_ptr<ParticleBunch> b(new_bunch(type, 1.0, 1.0));
		{
			std::ifstream is(f);
			SIM_CHECK(is.good(), "file:dump", "no dump %s", f.c_str());
			b->Input(1e9 * (double) s.p.size(), is);
		}
		Built m = build(L);
		ParticleTracker t(m.model->GetBeamline(cut, n - 1));
		t.Track(b.get());
		SIM_CHECK(b->size() == whole->size(), "restart:count", "restart after %zu elements: %zu particles, uninterrupted %zu", cut, b->size(), whole->size());
		for(size_t i = 0; i < b->size(); i++)
			SIM_CHECK(same_coords(b->GetParticles()[i], whole->GetParticles()[i]), "restart:coordinates", "restart after %zu elements gives %s, uninterrupted %s",
				cut, show(b->GetParticles()[i]).c_str(), show(whole->GetParticles()[i]).c_str());
		SIM_CHECK(b->GetReferenceTime() == whole->GetReferenceTime() && b->GetReferenceMomentum() == whole->GetReferenceMomentum(), "restart:reference",
			"restart after %zu elements: time %.17g momentum %.17g, uninterrupted %.17g %.17g", cut, b->GetReferenceTime(), b->GetReferenceMomentum(),
			whole->GetReferenceTime(), whole->GetReferenceMomentum());
		sim::steps(L.length());
		sim::nontrivial();
		sim::mix(cut * 16 + n);
	}
	sim::done();
}

SCENARIO(bunch_damage)
{
	sim::context("damage");
	sim::heap_config(sim::heap_random());
	const int form = (int) sim::draw(3);      // 0 Output/Input, 1 list of particles, 2 slices
	BeamSpec s = any_beam(1, 12, sim::chance(2, 3));
	const double p0 = sim::real(0.1, 7000);
	std::string text;
	std::vector<double> slice_q;
	if(form == 0)
	{
		std::unique_ptr<ParticleBunch> a(make_bunch<ProtonBunch>(s, p0, 1));
		a->SetReferenceTime(sim::real(0, 1e4));
		text = text_of(*a, sim::chance(1, 2));
	}
	else if(form == 1)
	{
		for(auto& p : s.p)
			if(sim::chance(1, 3))
				p.id() = (int64_t) sim::draw(1ull << 40);
		std::ostringstream os;
		std::copy(s.p.begin(), s.p.end(), std::ostream_iterator<PSvector>(os));
		text = os.str();
	}
	else
	{
		SMPTracking::SMPBunch a(sim::range(1, 1000), 1);
		for(size_t i = 0; i < s.p.size(); i++)
		{
			PSmoments S;
			S.zero();
			for(int k = 0; k < 4; k++)
				S(k, k) = 1e-8;
			SMPTracking::SliceMacroParticle m(S, 1e-3 * i, 0, 1000.0 + i);
			slice_q.push_back(1000.0 + i);
			a.AddParticle(m);
		}
		std::ostringstream os;
		a.Output(os);
		text = os.str();
	}
	const std::string intact = text;
	sim::DiskCfg d;
	if(sim::chance(1, 2))
		d.short_io = (int) sim::range(1, 600);
	if(sim::chance(1, 4))
		d.eintr_every = (int) sim::range(2, 5);
	const int kind = (int) sim::draw(4);
	bool prefix_only = false;
	// places near the end and near line ends are the interesting ones
	auto place = [&]() {
			size_t k = sim::draw(intact.size());
			switch(sim::draw(3))
			{
			case 0:
				return k;
			case 1:
				return intact.size() - 1 - std::min(intact.size() - 1, (size_t) sim::draw(60));
			}
			size_t nl = intact.find('\n', k);
			if(nl == std::string::npos)
				return k;
			size_t off = sim::draw(30);
			return nl >= off ? nl - off : (size_t) 0;
		};
	size_t at = place();
	switch(kind)
	{
	case 0:
		text = text.substr(0, at);
		sim::fault("file.truncated");
		prefix_only = true;
		break;
	case 1:
		text[at] = "xX@,;_\0?\"n"[sim::draw(10)];
		sim::fault("file.garbled");
		break;
	case 2:
		d.read_budget = (int64_t) at;
		d.read_err = EIO;
		prefix_only = true;
		break;
	case 3:
		d.read_budget = (int64_t) at;
		d.read_err = 0;
		prefix_only = true;
		break;
	}
	sim::ev("form %d, %zu particles, damage %d at byte %zu of %zu (line byte %zu)", form, s.p.size(), kind, at, intact.size(),
		at - (intact.rfind('\n', at ? at - 1 : 0) == std::string::npos ? 0 : intact.rfind('\n', at ? at - 1 : 0)));
	const std::string f = sim::path("damaged.txt");
	sim::put_file(f, text);
	sim::disk(d);
	std::vector<PSvector> got;
	bool refused = false;
	try
	{
		if(form == 2)
		{
			SMPTracking::SMPBunch b(f);
			SIM_CHECK(b.Size() == s.p.size(), "damage:slices", "%zu slices of %zu read from a damaged file", b.Size(), s.p.size());
			size_t i = 0;
			for(auto& p : b)
				SIM_CHECK(close(p.Q(), slice_q[i++], 1e-6, 0), "damage:slices", "slice %zu has charge %.17g, written %.17g", i - 1, p.Q(), slice_q[i - 1]);
		}
		else
		{
			std::ifstream is(f);
			std::unique_ptr<ParticleBunch> b;
			if(form == 0)
			{
				b.reset(new ProtonBunch(p0, 1));
				b->Input(1, is);
			}
			else
				b.reset(new ProtonBunch(p0, 1, is));
			got.assign(b->begin(), b->end());
			SIM_CHECK(!b->size() || std::isfinite(b->GetReferenceMomentum()), "damage:reference", "reference momentum %.17g", b->GetReferenceMomentum());
			if(b->size())
				SIM_CHECK(close(b->GetReferenceMomentum(), p0, 1e-15, 0), "damage:reference", "reference momentum %.17g, written %.17g", b->GetReferenceMomentum(), p0);
			SIM_CHECK(!std::isnan(b->GetTotalCharge()) && !std::isinf(b->GetTotalCharge()), "damage:charge", "%zu particles read with charge %g",
				b->size(), b->GetTotalCharge());
		}
	}
	catch(std::exception& e)
	{
		refused = true;
		sim::ev("refused: %s", e.what());
	}
	if(!refused && form != 2)
	{
		size_t i = 0;
		for(size_t k = 0; k < got.size(); k++, i++)
		{
			auto same = [&](size_t j) {
					if(form == 0)
						return same_coords(s.p[j], got[k]);
					for(int c = 0; c < 6; c++)
						if(!printed(s.p[j][c], got[k][c], 10))
							return false;
					return s.p[j].id() == got[k].id();
				};
			if(!prefix_only)
				while(i < s.p.size() && !same(i))
					i++;
			SIM_CHECK(i < s.p.size() && same(i), "damage:particle", "a damaged file yields as particle %zu %s, never written", k, show(got[k]).c_str());
		}
	}
	sim::nontrivial();
	sim::mix((uint64_t) form * 8 + kind + (refused ? 100 : 0) + got.size() * 1000);
	sim::done();
}
