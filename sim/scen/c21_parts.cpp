// C21: one allocation fails in a single operation on an object that exists already.  The object
// can be used afterwards, holds either the old or the new contents where it is replaced as a
// whole, and can be destroyed.
#include "frames.h"
#include "Channels.h"
#include "LinearFBSystem.h"
#include "WakeFieldProcess.h"
#include "WakePotentials.h"
#include "Interpolation.h"
#include "RandomNG.h"
#include "BPMDataBufferServer.h"
#include "BPM.h"
#include "MaterialData.h"
#include <cmath>
#include <new>
using namespace gen;

namespace
{
struct Cell
{
	double v = 0;
};
struct In: public ROChannel
{
	Cell& c;
	In(Cell& x) : c(x) {}
	string GetID() const override { return "in"; }
	double Read() const override { return c.v; }
};
struct Out: public RWChannel
{
	Cell& c;
	Out(Cell& x) : c(x) {}
	string GetID() const override { return "out"; }
	double Read() const override { return c.v; }
	void Write(double v) override { c.v = v; }
	double Increment(double d) override { return c.v += d; }
};
struct Wake: public WakePotentials
{
	double Wlong(double z) const override { return 1e14 * std::exp(-std::fabs(z) / 1e-3); }
	double Wtrans(double z) const override { return 1e15 * std::sqrt(std::fabs(z) + 1e-6); }
};
// op: the operation; again: uses the object, and says what it holds
template<class Op, class Show>
void one(const char* what, Op op, Show show, bool whole)
{
	sim::context(what);
	const uint64_t old = show();
	sim::heap_fail_at(1 + sim::draw(40));
	bool reported = false;
	try
	{
		op();
	}
	catch(std::bad_alloc&)
	{
		reported = true;
	}
	sim::heap_fail_clear();
	if(reported)
		sim::fault("allocation.failure");
	sim::ev("%s %s", what, reported ? "reported" : "done");
	const uint64_t now = show();
	if(reported && whole)
		SIM_CHECK(now == old, "memory:half", "%s: an allocation fails, and what is there afterwards is neither the old nor the new", what);
	op();
	const uint64_t full = show();
	if(!reported)
		SIM_CHECK(now == full, "memory:silent", "%s: went through with no memory, and the result differs", what);
	sim::mix(sim::hash_str(what) + reported);
	sim::nontrivial();
}
uint64_t bits(double d, uint64_t h = 1)
{
	return sim::hash_bytes(&d, sizeof d, h);
}
}

SCENARIO(parts_memory)
{
	const int n = (int) sim::range(1, 6);
	for(int k = 0; k < n; k++)
		switch(sim::draw(8))
		{
		case 0:
		{
			SectorBend::PoleFaceInfo a, b;
			if(sim::chance(1, 2))
				a.SetInfo(new SectorBend::PoleFace(0.1), sim::chance(1, 2) ? new SectorBend::PoleFace(0.2) : nullptr);
			if(sim::chance(1, 2))
				b.SetInfo(new SectorBend::PoleFace(0.3), new SectorBend::PoleFace(0.4));
			else if(sim::chance(1, 2))
				b.SetInfo(new SectorBend::PoleFace(0.5));
			const bool self = sim::chance(1, 4);
			one("pole faces", [&] { a = self ? a : b; }, [&]
				{
					return bits(a.entrance ? a.entrance->rot : -1, bits(a.exit ? a.exit->rot : -1));
				}, false);
			break;
		}
		case 1:
		{
			GeometryPatch a, b;
			if(sim::chance(1, 2))
				a.TranslateX(0.1);
			if(sim::chance(2, 3))
				b.RotateY(0.01);
			const bool self = sim::chance(1, 4);
			one("patch", [&] { a = self ? a : b; }, [&]
				{
					const Transform3D* t = a.GetTransformation();
					Point3D p(1, 2, 3);
					if(t)
						p = (*t)(p);
					return bits(p.x, bits(p.y, bits(p.z)));
				}, false);
			break;
		}
		case 2:
		{
			Cell in[2], out[2];
			in[0].v = 1;
			in[1].v = -2;
			std::vector<ROChannel*> r{new In(in[0]), new In(in[1])};
			std::vector<RWChannel*> w{new Out(out[0]), new Out(out[1])};
			RealMatrix M(2, 2), N(2, 2);
			M(0, 0) = M(1, 1) = 1;
			M(0, 1) = M(1, 0) = 0;
			N(0, 0) = N(1, 1) = 2;
			N(0, 1) = N(1, 0) = 0.5;
			LinearFBSystem fb(r, w, M);
			auto pulse = [&]
				{
					out[0].v = out[1].v = 0;
					fb.Apply();
					return bits(out[0].v, bits(out[1].v));
				};
			if(sim::chance(1, 2))
				one("response matrix", [&] { fb.SetResponseMatrix(N); }, pulse, true);
			else if(sim::chance(1, 2))
				one("pulse", [&]
					{
						out[0].v = out[1].v = 0;
						fb.Apply();
					}, [&] { return uint64_t(1); }, false);
			else
				one("stored settings", [&] { fb.StoreActuators(); }, pulse, false);
			break;
		}
		case 3:
		{
			WakeFieldProcess p(1, 20, 3);
			Wake W;
			Drift d("D", 1.0);
			d.SetWakePotentials(&W);
			ParticleBunch b(1.0, 1e10);
			const int np = (int) sim::range(3, 40);
			for(int i = 0; i < np; i++)
			{
				PSvector v(0);
				v.ct() = 1e-3 * std::sin(i * 7.0);
				v.x() = 1e-4 * std::cos(i * 3.0);
				b.AddParticle(v);
			}
			const int f = (int) sim::range(1, 6);
			one("wake filter", [&] { p.SetFilter(f, 1, 1); }, [&]
				{
					ParticleBunch c(b);
					p.InitialiseProcess(c);
					p.SetCurrentComponent(d);
					p.DoProcess(1.0);
					uint64_t h = 1;
					for(auto& q : c)
						h = bits(q.dp(), bits(q.xp(), h));
					return h;
				}, true);
			break;
		}
		case 4:
		{
			ParticleBunch a(1.0, 1e10), b(2.0, 1e9);
			const int na = (int) sim::range(0, 20), nb = (int) sim::range(0, 20);
			for(int i = 0; i < na + nb; i++)
			{
				PSvector v(0);
				v.ct() = std::sin(i * 7.0);
				v.x() = i;
				(i < na ? a : b).AddParticle(v);
			}
			auto show = [&]
				{
					uint64_t h = bits(a.GetReferenceMomentum());
					for(auto& q : a)
						h = bits(q.x(), bits(q.ct(), h));
					return h;
				};
			if(sim::chance(1, 2))
				one("sort", [&] { a.SortByCT(); }, show, false);
			else
				one("assign bunch", [&] { a = b; }, show, false);
			break;
		}
		case 5:
		{
			RandomNG::init(7);
			const size_t h = (size_t) sim::draw(5);
			one("local random numbers", [&] { (void) RandomNG::getLocalGenerator(h); }, [&]
				{
					RandomNG::init(7);
					const uint64_t g = RandomNG::getLocalGenerator(h)() + RandomNG::getGenerator()();
					RandomNG::init(7);
					return g;
				}, true);
			one("seed", [&] { RandomNG::init(9); }, [&]
				{
					RandomNG::init(9);
					return RandomNG::getLocalGenerator(h)() + RandomNG::getGenerator()();
				}, true);
			break;
		}
		case 6:
		{
			BPM m("B");
			ParticleBunch b(1.0, 1e10);
			b.AddParticle(PSvector(0));
			std::unique_ptr<BPMDataBufferServer> s;
			one("buffers", [&]
				{
					s.reset(new BPMDataBufferServer);
				}, [&] { return uint64_t(0); }, false);
			const int nb = (int) sim::range(1, 4);
			std::vector<std::unique_ptr<BPMDataBuffer> > buf;
			for(int i = 0; i < nb; i++)
				buf.push_back(std::unique_ptr<BPMDataBuffer>(new BPMDataBuffer));
			one("buffer", [&]
				{
					for(auto& x : buf)
						m.AddBuffer(x.get());
				}, [&]
				{
					m.MakeMeasurement(b);
					return uint64_t(1);
				}, false);
			for(auto& x : buf)
				m.RemoveBuffer(x.get());
			break;
		}
		case 7:
		{
			std::vector<double> x, y;
			for(int i = 0; i < 8; i++)
			{
				x.push_back(i + 0.1 * std::sin(i));
				y.push_back(i * i);
			}
			std::unique_ptr<Interpolation> f(new Interpolation(x, y, 1));
			const int order = (int) sim::range(1, 3);
			one("interpolation", [&] { f.reset(new Interpolation(x, y, order)); }, [&]
				{
					return bits((*f)(3.3));
				}, true);
			break;
		}
		}
	sim::steps(n);
}
