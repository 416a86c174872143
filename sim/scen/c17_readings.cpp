// C17: monitors, buffers, channels and bunches in drawn histories: buffers are attached, detached,
// destroyed once detached, monitors switched, scaled, replaced by new ones (on a heap that likes
// to hand out the same addresses), offsets set, and bunches of particles or slices tracked in
// drawn steps.  What every buffer receives is compared with a list of what it must receive.
#include "gen.h"
#include "chop.h"
#include "SMPBunch.h"
#include "SMPTracker.h"
#include "RMSProfileMonitor.h"
#include "BPMDataBuffer.h"
#include "BPMChannel.h"
#include "BPMChannelCtor.h"
#include "Measurement.h"
#include <set>
using namespace gen;

namespace
{
bool near(double a, double b, double scale)
{
	return std::isfinite(a) && std::fabs(a - b) <= 1e-9 * scale + 1e-300;
}
struct Reading
{
	const Monitor* m;
	double v[7];        // x y ct  |  x0 y0 u0 xrms yrms urms
};
struct BBuf: public BPM::Buffer
{
	std::vector<Reading> got;
	void Record(const BPM& b, const BPM::Data& d) override
	{
		Reading r;
		r.m = &b;
		r.v[0] = d.x.value;
		r.v[1] = d.y.value;
		r.v[2] = d.ct;
		got.push_back(r);
	}
};
struct RBuf: public RMSProfileMonitor::Buffer
{
	std::vector<Reading> got;
	void Record(const RMSProfileMonitor& b, const RMSProfileMonitor::Data& d) override
	{
		Reading r;
		r.m = &b;
		r.v[0] = d.x0.value;
		r.v[1] = d.y0.value;
		r.v[2] = d.u0.value;
		r.v[3] = d.xrms.value;
		r.v[4] = d.yrms.value;
		r.v[5] = d.urms.value;
		got.push_back(r);
	}
};
struct Resp: public BPM::Response
{
	int calls = 0;
	void Apply(BPM::Data* d) override
	{
		calls++;
		d->x.value = 2 * d->x.value + 1e-3;
		d->y.value = -d->y.value;
	}
};
// the state of one monitor, and what it implies
struct Mon
{
	bool rms;
	std::string name;
	double len, mpt, angle;
	Monitor* m = nullptr;
	bool active = true, resp = false;
	double sx = 1, sy = 1;
	std::set<int> bufs;                 // indices into buffer lists
	bool channel[2] = {false, false};   // channels in use
	double off[2] = {0, 0};
	bool read = false;                  // the channel's buffer has had a reading
	double last[2] = {0, 0};
};
// looks at the bunch as it enters each component
struct Watch: public BunchProcess
{
	Bunch* b = nullptr;
	std::vector<Mon>& mons;
	struct Seen
	{
		int mon;
		PSmoments S;
		double T;
	};
	std::vector<Seen>& seen;
	Watch(std::vector<Mon>& m, std::vector<Seen>& s) : BunchProcess("WATCH", 20), mons(m), seen(s) {}
	void InitialiseProcess(Bunch& x) override { b = &x; }
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		active = false;
		for(size_t i = 0; i < mons.size(); i++)
			if(mons[i].m == &c)
			{
				Seen s;
				s.mon = (int) i;
				b->GetMoments(s.S);
				s.T = b->GetReferenceTime();
				seen.push_back(s);
			}
	}
	double GetMaxAllowedStepSize() const override { return 1e30; }
	void DoProcess(double) override {}
};
struct World
{
	std::vector<Mon> mons;
	std::vector<El> between;               // element after each monitor
	std::unique_ptr<AcceleratorModel> model;
	std::vector<std::unique_ptr<BBuf> > bb;
	std::vector<std::unique_ptr<RBuf> > rb;
	std::unique_ptr<BBuf> defbuf;
	std::unique_ptr<Resp> resp;
	BPMChannelCtor cx{'X'}, cy{'Y'};
	std::vector<std::unique_ptr<ROChannel> > chan[2];   // by monitor
	double p0 = 10;
	void make_model()
	{
		AcceleratorModelConstructor mc;
		mc.NewModel();
		for(size_t i = 0; i < mons.size(); i++)
		{
			Mon& m = mons[i];
			if(m.rms)
				m.m = new RMSProfileMonitor(m.name, m.angle, m.len, m.mpt);
			else
				m.m = new BPM(m.name, m.len, m.mpt);
			mc.AppendComponent(*m.m);
			mc.AppendComponent(*make(between[i], p0));
			m.active = true;
			m.resp = false;
			m.sx = m.sy = 1;
			m.bufs.clear();
			for(int k = 0; k < 2; k++)
			{
				m.channel[k] = false;
				m.off[k] = 0;
				m.last[k] = 0;
			}
			m.read = false;
		}
		model.reset(mc.GetModel());
	}
};
}
SCENARIO(readings)
{
	sim::context("monitor readings");
	sim::heap_config(sim::heap_random());
	World w;
	BPM::SetDefaultBuffer(nullptr);
	RMSProfileMonitor::SetDefaultBuffer(nullptr);
	Monitor::all_inactive = false;
	w.p0 = sim::real(1, 50);
	const int nm = (int) sim::range(1, 4);
	Opts o;
	o.kinds = {DRIFT, QUAD, MARKER, DRIFT};
	o.nmin = o.nmax = nm;
	o.lmax = 2;
	Lattice L = gen_lattice(o);
	w.between = L.el;
	w.between.resize(nm, L.el[0]);
	w.p0 = L.p0;
	for(int i = 0; i < nm; i++)
	{
		Mon m;
		m.rms = sim::chance(1, 3);
		m.name = sim::fmt("M%d", (int) sim::draw(3));
		m.len = sim::chance(1, 2) ? 0 : sim::real(0.05, 1);
		switch(sim::draw(4))
		{
		case 0:
			m.mpt = m.len / 2;
			break;
		case 1:
			m.mpt = -m.len / 2;
			break;
		case 2:
			m.mpt = 0;
			break;
		default:
			m.mpt = sim::sreal(0.5) * m.len;
		}
		m.angle = sim::pick(std::vector<double>{0, M_PI / 2, M_PI / 4, 0.3, 2.0, -1.0});
		w.mons.push_back(m);
		sim::ev("monitor %d: %s %s length %.9g at %.9g angle %.9g", i, m.rms ? "profile" : "position", m.name.c_str(), m.len, m.mpt, m.angle);
	}
	w.make_model();
	for(int i = 0; i < 3; i++)
	{
		w.bb.emplace_back(new BBuf);
		w.rb.emplace_back(new RBuf);
	}
	w.resp.reset(new Resp);
	for(int k = 0; k < 2; k++)
		w.chan[k].resize(nm);
	const bool slices = sim::chance(1, 3);
	const int nops = (int) sim::range(3, 24);
	int readings = 0;
	for(int k = 0; k < nops; k++)
	{
		const int i = (int) sim::draw(nm), j = (int) sim::draw(3);
		Mon& m = w.mons[i];
		BPM* bpm = m.rms ? nullptr : static_cast<BPM*>(m.m);
		RMSProfileMonitor* rm = m.rms ? static_cast<RMSProfileMonitor*>(m.m) : nullptr;
		const int op = (int) sim::draw(14);
		switch(op)
		{
		case 0:
		case 1:
			sim::ev("monitor %d: attach buffer %d", i, j);
			if(bpm)
				bpm->AddBuffer(w.bb[j].get());
			else
				rm->AddBuffer(w.rb[j].get());
			m.bufs.insert(j);
			break;
		case 2:
		{
			sim::ev("monitor %d: detach buffer %d", i, j);
			const bool r = bpm ? bpm->RemoveBuffer(w.bb[j].get()) : rm->RemoveBuffer(w.rb[j].get());
			SIM_CHECK(r == (m.bufs.count(j) != 0), "report", "removing a buffer reported %d, it was %sattached", r, m.bufs.count(j) ? "" : "not ");
			m.bufs.erase(j);
			break;
		}
		case 3:
			if(!m.channel[0] && !m.channel[1])
			{
				sim::ev("monitor %d: clear", i);
				if(bpm)
					bpm->ClearAllBuffers();
				else
					rm->RemoveAllBuffers();
				m.bufs.clear();
			}
			break;
		case 4:
			if(bpm)
			{
				sim::ev("position monitors: default buffer %d", j);
				BPM::SetDefaultBuffer(nullptr);
				w.defbuf.reset(j ? new BBuf : nullptr);
				BPM::SetDefaultBuffer(w.defbuf.get());
			}
			break;
		case 5:
			m.active = sim::chance(1, 2);
			sim::ev("monitor %d: active %d", i, m.active);
			m.m->SetActive(m.active);
			break;
		case 6:
			if(sim::chance(1, 3))
			{
				Monitor::all_inactive = sim::chance(1, 2);
				sim::ev("all inactive %d", Monitor::all_inactive);
			}
			break;
		case 7:
			if(bpm && sim::chance(1, 2))
			{
				m.sx = sim::sreal(2);
				m.sy = sim::sreal(2);
				sim::ev("monitor %d: scale %.9g %.9g", i, m.sx, m.sy);
				bpm->SetScale(m.sx, m.sy);
			}
			else if(bpm)
			{
				BPM::Response* old = bpm->SetResponse(m.resp ? nullptr : w.resp.get());
				SIM_CHECK(old == (m.resp ? w.resp.get() : nullptr), "report", "setting a response returned another one than was set");
				m.resp = !m.resp;
				sim::ev("monitor %d: response %d", i, m.resp);
			}
			break;
		case 8:
		case 9:
			if(bpm)
			{
				const int c = (int) sim::draw(2);
				sim::ev("monitor %d: channel %c", i, 'X' + c);
				std::unique_ptr<ROChannel> ch((c ? w.cy : w.cx).ConstructRO(bpm));
				SIM_CHECK(ch.get(), "channel", "no channel for a monitor");
				SIM_CHECK(ch->GetID() == "BPM." + m.name + (c ? ".Y" : ".X"), "channel:id", "the channel of %s is called %s", m.name.c_str(), ch->GetID().c_str());
				if(!m.channel[0] && !m.channel[1])
				{
					m.last[0] = m.last[1] = 0;
					m.off[0] = m.off[1] = 0;
				}
				m.channel[c] = true;
				w.chan[c][i] = std::move(ch);
			}
			break;
		case 10:
			for(int c = 0; c < 2; c++)
				if(bpm && m.channel[c] && sim::chance(1, 2))
				{
					m.off[c] = sim::sreal(1e-2);
					sim::ev("monitor %d: channel %c offset %.9g", i, 'X' + c, m.off[c]);
					static_cast<BPMChannel*>(w.chan[c][i].get())->SetBPMOffset(m.off[c]);
				}
			break;
		case 11:
			if(sim::chance(1, 3))
			{
				// every monitor is replaced: a new machine, perhaps where the old one was
				sim::ev("new machine");
				for(int c = 0; c < 2; c++)
					for(auto& x : w.chan[c])
						x.reset();
				w.model.reset();
				w.make_model();
			}
			else
			{
				// a buffer no monitor refers to is replaced
				bool used = false;
				for(auto& x : w.mons)
					used = used || x.bufs.count(j);
				if(!used)
				{
					sim::ev("new buffer %d", j);
					w.bb[j].reset();
					w.rb[j].reset();
					w.bb[j].reset(new BBuf);
					w.rb[j].reset(new RBuf);
				}
			}
			break;
		default:
		{
			const int turns = (int) sim::range(1, 2);
			sim::ev("track %d turns", turns);
			std::vector<std::vector<double> > plan;
			for(int e = 0; e < 2 * nm; e++)
				plan.push_back(sim::chance(1, 2) ? draw_cuts() : std::vector<double>());
			long ns = 0;
			Chopper* ch = new Chopper(0, ns);
			ch->plan = plan;
			std::vector<Watch::Seen> seen;
			Watch* wt = new Watch(w.mons, seen);
			BeamSpec s = gen_beam(1, 12, 2e-3, 1e-3, 1e-3, 1e-3);
			std::unique_ptr<ParticleBunch> pb;
			std::unique_ptr<SMPTracking::SMPBunch> sb;
			const double T0 = sim::sreal(1e3);
			for(auto& x : w.bb)
				x->got.clear();
			for(auto& x : w.rb)
				x->got.clear();
			if(w.defbuf)
				w.defbuf->got.clear();
			w.resp->calls = 0;
			if(!slices)
			{
				pb.reset(make_bunch<ProtonBunch>(s, w.p0, 1e-9));
				pb->SetReferenceTime(T0);
				ParticleTracker tr(w.model->GetBeamline(), pb.get(), false);
				tr.AddProcess(ch);
				tr.AddProcess(wt);
				for(int t = 0; t < turns; t++)
					tr.Track(pb.get());
			}
			else
			{
				sb.reset(new SMPTracking::SMPBunch(w.p0, 1));
				for(auto& p : s.p)
				{
					PSmoments S;
					for(int a = 0; a < 4; a++)
					{
						S[a] = p[a];
						const double r = sim::real(0, 1e-4);
						S(a, a) = r * r;
					}
					sb->AddParticle(SMPTracking::SliceMacroParticle(S, p.ct(), p.dp(), sim::real(0.1, 1)), true);
				}
				sb->SetReferenceTime(T0);
				SMPTracking::SMPTracker tr(w.model->GetBeamline(), sb.get(), false);
				tr.AddProcess(ch);
				tr.AddProcess(wt);
				for(int t = 0; t < turns; t++)
					tr.Track(sb.get());
			}
			// ---- what each buffer must have received
			std::vector<std::vector<Reading> > wantb(3), wantr(3);
			std::vector<Reading> wantdef, maydef;
			std::vector<double> scale;
			int resp = 0;
			for(auto& v : seen)
			{
				Mon& q = w.mons[v.mon];
				if(!q.active || Monitor::all_inactive)
					continue;
				const double d = q.len == 0 ? 0 : q.mpt + q.len / 2;
				const double x = v.S.mean(0) + d * v.S.mean(1), y = v.S.mean(2) + d * v.S.mean(3);
				const double vx = v.S(0, 0) + 2 * d * v.S(1, 0) + d * d * v.S(1, 1), vy = v.S(2, 2) + 2 * d * v.S(3, 2) + d * d * v.S(3, 3);
				const double vxy = v.S(2, 0) + d * (v.S(2, 1) + v.S(3, 0)) + d * d * v.S(3, 1);
				Reading r;
				r.m = q.m;
				if(!q.rms)
				{
					const bool listened = !q.bufs.empty() || q.channel[0] || q.channel[1] || w.defbuf;
					r.v[0] = q.sx * x;
					r.v[1] = q.sy * y;
					r.v[2] = v.T + d;
					if(q.resp)
					{
						r.v[0] = 2 * r.v[0] + 1e-3;
						r.v[1] = -r.v[1];
						resp += listened;
					}
					for(int b : q.bufs)
						wantb[b].push_back(r);
					if(q.channel[0] || q.channel[1])
					{
						q.last[0] = r.v[0];
						q.last[1] = r.v[1];
					}
					// the default buffer stands in for monitors without a buffer; whether it also
					// listens to the others is not stated
					if(w.defbuf)
						(q.bufs.empty() && !q.channel[0] && !q.channel[1] ? wantdef : maydef).push_back(r);
				}
				else
				{
					const double c = cos(q.angle), sn = sin(q.angle);
					r.v[0] = x;
					r.v[1] = y;
					r.v[2] = std::fabs(q.angle) < 1e-12 ? x : c * x + sn * y;
					r.v[3] = std::sqrt(std::max(0.0, vx));
					r.v[4] = std::sqrt(std::max(0.0, vy));
					r.v[5] = std::sqrt(std::max(0.0, c * c * vx + 2 * c * sn * vxy + sn * sn * vy));
					for(int b : q.bufs)
						wantr[b].push_back(r);
				}
				readings++;
			}
			auto which = [&](const Monitor* p)
			{
				for(size_t a = 0; a < w.mons.size(); a++)
					if(w.mons[a].m == p)
						return (int) a;
				return -1;
			};
			auto cmp = [&](const std::vector<Reading>& got, const std::vector<Reading>& want, const char* kind, int b, int nv)
			{
				for(size_t a = 0; a < got.size() && a < want.size(); a++)
				{
					SIM_CHECK(got[a].m == want[a].m, "reading:monitor", "%s buffer %d: reading %zu is from monitor %d instead of %d", kind, b, a, which(got[a].m), which(want[a].m));
					for(int c = 0; c < nv; c++)
					{
						// rms values near zero are the root of a rounded difference
						const double sc = nv == 3 && c == 2 ? std::fabs(T0) + 10 : nv == 3 ? 1e-2 : c < 3 ? 1e-2 : 1;
						const bool ok = nv == 3 || c < 3 ? near(got[a].v[c], want[a].v[c], sc) : std::isfinite(got[a].v[c]) && std::fabs(got[a].v[c] - want[a].v[c]) <= 1e-9;
						SIM_CHECK(ok, sim::fmt("reading:%s", nv == 3 ? (c == 2 ? "time" : "position") : (c < 3 ? "profile-position" : "profile-width")).c_str(),
							"%s buffer %d: value %d of reading %zu (monitor %d) is %.17g, should be %.17g", kind, b, c, a, which(got[a].m), got[a].v[c], want[a].v[c]);
					}
				}
				SIM_CHECK(got.size() == want.size(), got.size() > want.size() ? "reading:extra" : "reading:missing", "%s buffer %d received %zu readings instead of %zu", kind, b, got.size(),
					want.size());
			};
			for(int b = 0; b < 3; b++)
			{
				cmp(w.bb[b]->got, wantb[b], "position", b, 3);
				cmp(w.rb[b]->got, wantr[b], "profile", b, 6);
			}
			if(w.defbuf)
			{
				// readings of monitors with buffers of their own may be left out
				std::vector<Reading> own;
				std::set<const Monitor*> other;
				for(auto& r : maydef)
					other.insert(r.m);
				for(auto& r : w.defbuf->got)
					if(!other.count(r.m))
						own.push_back(r);
				cmp(own, wantdef, "default", 0, 3);
				SIM_CHECK(w.defbuf->got.size() == own.size() || w.defbuf->got.size() == own.size() + maydef.size(), "reading:extra", "the default buffer received %zu readings",
					w.defbuf->got.size());
			}
			SIM_CHECK(w.resp->calls == resp, "response", "the response was applied %d times to %d readings", w.resp->calls, resp);
			break;
		}
		}
		// channels read the last reading of their monitor plus the offset, now as ever
		for(int a = 0; a < nm; a++)
			for(int c = 0; c < 2; c++)
				if(!w.mons[a].rms && w.mons[a].channel[c])
				{
					const double v = w.chan[c][a]->Read(), want = w.mons[a].last[c] + w.mons[a].off[c];
					SIM_CHECK(near(v, want, 1e-2 + std::fabs(want)), "channel:value", "channel %c of monitor %d reads %.17g, should be %.17g (last reading %.9g, offset %.9g)", 'X' + c, a, v,
						want, w.mons[a].last[c], w.mons[a].off[c]);
				}
		sim::probe(sim::fmt("op.%d", op).c_str());
		sim::steps(1);
	}
	sim::mix(readings);
	for(auto& m : w.mons)
		sim::mix(sim::hash_bytes(m.last, sizeof m.last) + m.bufs.size());
	if(readings > 1)
		sim::nontrivial();
	BPM::SetDefaultBuffer(nullptr);
	sim::done();
}
