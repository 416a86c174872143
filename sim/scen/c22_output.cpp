// C22: outputs against a device that fills up, fails at any byte, transfers short counts,
// is interrupted or does not open files.  The tracked bunch must be the one of a run without
// outputs; the files the beginning of those of a run on a working device.
#include "frames.h"
#include "chop.h"
#include "RandomNG.h"
#include "CollimateProtonProcess.h"
#include "ScatteringModelsMerlin.h"
#include "MaterialData.h"
#include "LossMapCollimationOutput.h"
#include "DetailedCollimationOutput.h"
#include "MonitorProcess.h"
#include "DataTable.h"
#include "DataTableTFS.h"
#include "MerlinException.h"
#include "LatticeFunctions.h"
#include <cerrno>
#include <dirent.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace gen;
using namespace Collimation;

namespace
{
enum { O_MON = 1, O_MON2 = 2, O_LOSSFILE = 4, O_MAPS = 8, O_DETAIL = 16, O_RECORD = 32, O_LOG = 64, O_DUMP = 128, O_TABLE = 256, O_REPORT = 512, O_BINS = 1024 };
const char* names[] = {"monitor", "second-monitor", "loss-files", "loss-maps", "detailed-losses", "records", "step-log", "bunch-dump", "table", "report", "loss-bins"};
struct Spec
{
	Lattice L;
	BeamSpec beam;
	bool proton, scatter, chop, stepwise;
	int coll;                   // 0 none 1 collimation
	int mode, turns, set;
	uint32_t seed;
	double bin;
	std::vector<std::vector<double> > cuts;
	std::vector<std::string> at, at2, rec;
	std::vector<int> material;
};
struct Device
{
	std::vector<sim::DiskCfg> turn;     // the device during each passage, the last for what follows
	Device(int n = 1) : turn(n) {}
};
struct Result
{
	std::vector<PSvector> p;
	double ref, time, charge;
	std::map<std::string, std::string> file;
	std::map<std::string, std::vector<std::string> > truth;   // what a monitor file may hold
	size_t lost = 0;
};
// captures what a monitor may see; runs after everything else
struct Seen
{
	std::string name;
	std::vector<std::string> end;   // the bunch whenever the rest of the element is nothing but rounding
};
struct Witness: public ParticleBunchProcess
{
	std::vector<Seen>& out;
	double s = 0;
	Witness(std::vector<Seen>& o) : ParticleBunchProcess("WITNESS", 9), out(o) {}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		currentComponent = &c;
		active = true;
		s = 0;
		out.push_back(Seen{c.GetName(), {}});
	}
	double GetMaxAllowedStepSize() const override { return 1e30; }
	void DoProcess(double ds) override
	{
		s += ds;
		if(s < currentComponent->GetLength() * (1 - 1e-11))
			return;
		std::ostringstream os;
		currentBunch->Output(os);
		out.back().end.push_back(os.str());
	}
};
struct Recorder: public SimulationOutput
{
	std::ostream& os;
	Recorder(std::ostream& o) : os(o) { output_all = false; output_initial = output_final = true; }
	void Record(const ComponentFrame* f, const Bunch* b) override
	{
		os << "at " << f->GetComponent().GetQualifiedName() << "\n";
		b->Output(os);
	}
	void RecordInitialBunch(const Bunch* b) override { os << "initial\n"; b->Output(os); }
	void RecordFinalBunch(const Bunch* b) override { os << "final\n"; b->Output(os); }
};
void collect(const std::string& dir, Result& r)
{
	DIR* d = opendir(dir.c_str());
	while(struct dirent* e = d ? readdir(d) : nullptr)
		if(e->d_name[0] != '.')
			r.file[e->d_name] = sim::get_file(dir + "/" + e->d_name);
	if(d)
		closedir(d);
	for(auto& f : r.file)
		unlink((dir + "/" + f.first).c_str());
	rmdir(dir.c_str());
}
Result simulate(const Spec& s, int mask, const Device& dev, bool working = false, const Result* before = nullptr)
{
	const std::string dir = sim::path("run");
	mkdir(dir.c_str(), 0700);
	const std::string pre = dir + "/";
	if(before)  // what an earlier run left
		for(auto& f : before->file)
			sim::put_file(pre + f.first, f.second);
	Result R;
	RandomNG::init(s.seed);
	std::unique_ptr<StandardMaterialData> mats(new StandardMaterialData());
	mats->UseSixTrackValues();
	Built m = build(s.L);
	double z = 0;
	for(size_t i = 0; i < m.comp.size(); i++)
	{
		static const char* mat[] = {"Cu", "C", "W"};
		if(Collimator* c = dynamic_cast<Collimator*>(m.comp[i]))
			c->SetMaterialProperties(mats->property[mat[s.material[i]]]);
		m.comp[i]->SetComponentLatticePosition(z);
		z += s.L.el[i].len;
	}
	ParticleBunch* b = s.proton ? make_bunch<ProtonBunch>(s.beam, s.L.p0, 1e-9) : make_bunch<ParticleBunch>(s.beam, s.L.p0, 1e-9);
	std::unique_ptr<ParticleBunch> own(s.stepwise ? nullptr : b);
	sim::disk(dev.turn[0]);
	std::ofstream log, rec, bins;
	if(mask & O_LOG)
		log.open(pre + "steps");
	if(mask & O_RECORD)
		rec.open(pre + "records");
	if(mask & O_BINS)
		bins.open(pre + "bins");
	// (loss maps have no destructor to call)
	LossMapCollimationOutput* maps[3] = {new LossMapCollimationOutput(nearestelement), new LossMapCollimationOutput(precise), new LossMapCollimationOutput(tencm)};
	DetailedCollimationOutput det;
	det.AddIdentifier("*");
	DataTable dt;
	dt.AddColumn("TURN", 'i');
	dt.AddColumn("N", 'i');
	dt.AddColumn("X", 'd');
	dt.AddColumn("LABEL", 's');
	dt.HeaderAddColumn("TITLE", 's');
	dt.HeaderSet("TITLE", std::string("a title"));
	long nsteps = 0;
	std::vector<Seen> seen;
	Recorder ro(rec);
	for(auto& n : s.rec)
		ro.AddIdentifier(n);
	{
		ParticleTracker tr(m.model->GetBeamline(), b, false);
		if(s.set == 1)
		{
			THIN_LENS::StdISet i;
			tr.SetIntegratorSet(&i);
		}
		else if(s.set == 2)
		{
			SYMPLECTIC::StdISet i;
			tr.SetIntegratorSet(&i);
		}
		CollimateParticleProcess* c = nullptr;
		if(s.coll)
		{
			std::ostream* os = mask & O_BINS ? &bins : nullptr;
			if(s.proton)
			{
				CollimateProtonProcess* cp = new CollimateProtonProcess(5, s.mode, os);
				cp->SetScatteringModel(new ScatteringModelSixTrack);
				cp->ScatterAtCollimator(s.scatter);
				c = cp;
			}
			else
				c = new CollimateParticleProcess(5, s.mode, os);
			c->SetLossThreshold(1000);
			c->SetOutputBinSize(s.bin);
			if(mask & O_MAPS)
				for(auto x : maps)
					c->SetCollimationOutput(x);
			if(mask & O_DETAIL)
				c->SetCollimationOutput(&det);
			if(mask & O_LOSSFILE)
				c->CreateParticleLossFiles(true, pre + "loss");
			tr.AddProcess(c);
		}
		if(s.chop)
		{
			Chopper* k = new Chopper(8, nsteps);
			k->plan = s.cuts;
			tr.AddProcess(k);
		}
		if(mask & O_MON)
		{
			MonitorProcess* p = new MonitorProcess("MONITOR", 7, pre + "m1_");
			for(auto& e : s.at)
				p->AddElement(e);
			tr.AddProcess(p);
		}
		if(mask & O_MON2)
		{
			MonitorProcess* p = new MonitorProcess("MONITOR2", 6);
			p->SetPrefix(pre + "m2_");
			for(auto& e : s.at2)
				p->AddElement(e);
			tr.AddProcess(p);
		}
		if(mask)
			tr.AddProcess(new Witness(seen));
		if(mask & O_RECORD)
			tr.SetOutput(&ro);
		if(mask & O_LOG)
		{
			tr.SetLogStream(log);
			tr.SetLoggingOn();
		}
		for(int t = 0; t < s.turns && b->size(); t++)
		{
			if(t && (size_t) t < dev.turn.size())
				sim::disk(dev.turn[t]);
			if(s.stepwise)
			{
				if(t == 0)
					tr.InitStepper(b);      // from now on the tracker's
				else
					tr.InitStepper(false);
				while(tr.StepComponent())
					;
			}
			else
				tr.Track(b);
			if(mask & O_DUMP)
			{
				std::ofstream f(pre + sim::fmt("dump%d", t));
				b->Output(f, t & 1);
				if(b->size())
					b->OutputIndexParticle(f, (int) b->size() - 1);
			}
			PSvector mean(0);
			if(b->size())
				mean = *b->begin();
			dt.AddRow(t, (int) b->size(), mean.x(), sim::fmt("turn %d", t));
		}
		for(auto& p : *b)
			R.p.push_back(p);
		R.ref = b->GetReferenceMomentum();
		R.time = b->GetReferenceTime();
		R.charge = b->GetTotalCharge();
		R.lost = s.beam.p.size() - b->size();
	}
	if(dev.turn.size() > (size_t) s.turns)
		sim::disk(dev.turn.back());
	if(mask & O_MAPS)
		for(int i = 0; i < 3; i++)
		{
			maps[i]->Finalise();
			std::ofstream f(pre + sim::fmt("map%d", i));
			maps[i]->Output(&f);
		}
	if(mask & O_DETAIL)
	{
		det.Finalise();
		std::ofstream f(pre + "detail");
		det.Output(&f);
	}
	if(mask & O_TABLE)
	{
		try
		{
			DataTableWriterTFS w(pre + "table");
			w.Write(dt);
		}
		catch(MerlinException&)
		{
			// not opened, or not written: either is to be reported, and only then
			sim::ev("the table writer reports an error");
			SIM_CHECK(!working, "output:threw", "writing a table to a working device fails");
		}
	}
	if(mask & O_REPORT)
	{
		std::ofstream f(pre + "report");
		m.model->ReportModelStatistics(f);
		for(auto c : m.comp)
			if(c->GetAperture())
				c->GetAperture()->printout(f);
	}
	log.close();
	rec.close();
	bins.close();
	sim::disk(sim::DiskCfg());
	collect(dir, R);
	for(int k = 0; k < 2; k++)
		if(mask & (k ? O_MON2 : O_MON))
		{
			int count = 1;
			const auto& at = k ? s.at2 : s.at;
			for(auto& v : seen)
				if(std::find(at.begin(), at.end(), v.name) != at.end())
					R.truth[(k ? "m2_" : "m1_") + v.name + "_" + std::to_string(count++)] = v.end;
		}
	return R;
}
void same(const Result& a, const Result& b, const char* how)
{
	SIM_CHECK(a.p.size() == b.p.size(), "output:disturbed", "%s: %zu particles at the end, %zu without outputs", how, b.p.size(), a.p.size());
	for(size_t i = 0; i < a.p.size(); i++)
		SIM_CHECK(same_bits(a.p[i], b.p[i]) && a.p[i].id() == b.p[i].id(), "output:disturbed", "%s: particle %zu is %s, without outputs %s", how, i,
				show(b.p[i]).c_str(), show(a.p[i]).c_str());
	SIM_CHECK(a.ref == b.ref && a.time == b.time && a.charge == b.charge, "output:disturbed",
			"%s: momentum %.17g time %.17g charge %.17g, without outputs %.17g %.17g %.17g", how, b.ref, b.time, b.charge, a.ref, a.time, a.charge);
}
void prefix(const Result& good, const Result& r, bool complete, const char* how, const Result* before = nullptr)
{
	for(auto& f : r.file)
	{
		if(before && !complete)
		{
			// a file that could not be opened is left as it was
			auto b = before->file.find(f.first);
			if(b != before->file.end() && b->second == f.second)
				continue;
		}
		auto g = good.file.find(f.first);
		SIM_CHECK(g != good.file.end(), "output:extra-file", "%s: file %s is not written on a working device", how, f.first.c_str());
		const std::string& x = f.second;
		const std::string& y = g->second;
		size_t k = 0;
		while(k < x.size() && k < y.size() && x[k] == y[k])
			k++;
		SIM_CHECK(k == x.size(), "output:altered", "%s: file %s (%zu bytes) leaves the %zu bytes of a working device at byte %zu: '%s' for '%s'", how,
				f.first.c_str(), x.size(), y.size(), k, x.substr(k > 60 ? k - 60 : 0, 100).c_str(), y.substr(k > 60 ? k - 60 : 0, 100).c_str());
		if(complete)
			SIM_CHECK(x.size() == y.size(), "output:short", "%s: file %s has %zu of %zu bytes", how, f.first.c_str(), x.size(), y.size());
	}
	if(complete)
		SIM_CHECK(r.file.size() == good.file.size(), "output:missing-file", "%s: %zu files of %zu", how, r.file.size(), good.file.size());
}
}

SCENARIO(outputs)
{
	sim::context("output");
	sim::heap_config(sim::heap_random());
	Spec s;
	Opts o;
	o.nmin = 2;
	o.nmax = sim::tier_thorough() ? 20 : 10;
	o.apert = 50;
	o.apsize = 4e-3;
	s.L = gen_lattice(o);
	s.beam = gen_beam(1, sim::tier_thorough() ? 60 : 25, 3e-3, 3e-4, 1e-3, 1e-3);
	s.coll = sim::chance(3, 4);
	s.proton = sim::chance(1, 2);
	s.scatter = sim::chance(1, 2);
	if(s.proton && s.L.p0 < 3)
		s.L.p0 = 450;
	s.chop = sim::chance(1, 3);
	s.stepwise = sim::chance(1, 3);
	s.mode = (int) sim::range(1, 3);
	s.set = (int) sim::draw(3);
	s.turns = (int) sim::range(1, 4);
	s.seed = 1 + (uint32_t) sim::draw(1000);
	s.bin = sim::pick(std::vector<double>{0.1, 0.5, 1.0, 0.05, 0.37});
	for(size_t i = 0; i < s.L.el.size(); i++)
	{
		s.material.push_back((int) sim::draw(3));
		s.cuts.push_back(s.chop ? draw_cuts() : std::vector<double>());
		if(sim::chance(1, 3))
			s.at.push_back(s.L.el[i].name);
		if(sim::chance(1, 3))
			s.at2.push_back(s.L.el[i].name);
		if(sim::chance(1, 3))
			s.rec.push_back(sim::chance(1, 2) ? "*." + s.L.el[i].name : "*" + s.L.el[i].name.substr(0, 1) + "*");
	}
	int mask = 0;
	for(int i = 0; i < 11; i++)
		if(sim::chance(1, 2))
			mask |= 1 << i;
	sim::ev("%zu elements %zu particles proton %d coll %d mode %d turns %d outputs %x", s.L.el.size(), s.beam.p.size(), s.proton, s.coll, s.mode,
			s.turns, mask);
	sim::mix(mask * 64 + s.coll * 32 + s.proton * 16 + s.L.el.size());
	const Result none = simulate(s, 0, Device());
	SIM_CHECK(none.file.empty(), "output:uncalled", "a run without outputs wrote %s", none.file.begin()->first.c_str());
	if(sim::chance(1, 2))
		sim::heap_config(sim::heap_random());
	const Result good = simulate(s, mask, Device(), true);
	same(none, good, "with outputs");
	for(auto& t : good.truth)
	{
		auto f = good.file.find(t.first);
		SIM_CHECK(f != good.file.end(), "output:missing-file", "monitor file %s was not written", t.first.c_str());
		SIM_CHECK(std::find(t.second.begin(), t.second.end(), f->second) != t.second.end(), "output:untrue",
				"monitor file %s does not hold the bunch at the end of the element but '%s'", t.first.c_str(), f->second.c_str());
	}
	size_t nmon = 0, bytes = 0;
	for(auto& f : good.file)
	{
		nmon += f.first[0] == 'm' && f.first[2] == '_';
		bytes += f.second.size();
		sim::ev("file %s %zu bytes %016llx", f.first.c_str(), f.second.size(), (unsigned long long) sim::hash_str(f.second));
	}
	SIM_CHECK(nmon == good.truth.size(), "output:extra-file", "%zu monitor files for %zu passages", nmon, good.truth.size());
	if(good.lost)
		sim::probe("losses");
	const int rounds = sim::tier_thorough() ? 8 : 3;
	for(int k = 0; k < rounds; k++)
	{
		const int kind = (int) sim::draw(4);
		Device d(kind == 2 ? s.turns + 1 : 1);
		int msk = mask;
		bool complete = false;
		const char* how = "";
		auto io = [&](sim::DiskCfg& c) {
				if(sim::chance(1, 2))
					c.short_io = (int) sim::range(1, 200);
				if(sim::chance(1, 3))
					c.eintr_every = (int) sim::range(2, 9);
			};
		switch(kind)
		{
		case 0:
			how = "short and interrupted writes";
			d.turn[0].short_io = (int) sim::range(1, 200);
			d.turn[0].eintr_every = sim::chance(1, 2) ? (int) sim::range(2, 9) : 0;
			complete = true;
			break;
		case 1:
			how = "device full";
			d.turn[0].write_budget = (int64_t) sim::draw(bytes + 1);
			d.turn[0].write_err = sim::chance(1, 2) ? ENOSPC : EIO;
			io(d.turn[0]);
			break;
		case 2:
			// the device comes back; only files opened and closed in between can tell
			how = "device failing for a while";
			msk &= ~(O_LOG | O_RECORD | O_BINS);
			for(auto& c : d.turn)
			{
				io(c);
				if(sim::chance(1, 2))
				{
					c.write_budget = (int64_t) sim::draw(bytes / d.turn.size() + 1);
					c.write_err = sim::chance(1, 2) ? ENOSPC : EIO;
				}
			}
			break;
		default:
			how = "files that can not be opened";
			d.turn[0].open_skip = (int) sim::draw(good.file.size() + 1);
			d.turn[0].open_fails = 1 + (int) sim::draw(4);
			d.turn[0].open_err = sim::pick(std::vector<int>{ENOSPC, EMFILE, EACCES, EIO});
			io(d.turn[0]);
		}
		sim::ev("%s", how);
		Result stale = good;
		const bool again = sim::chance(1, 2);
		if(again)
			for(auto& f : stale.file)
				switch(sim::draw(3))
				{
				case 0:
					f.second += f.second + "and more\n";
					break;
				case 1:
					f.second = "of another run";
				}
		const Result r = simulate(s, msk, d, complete, again ? &stale : nullptr);
		same(none, r, how);
		prefix(good, r, complete, how, again ? &stale : nullptr);
		if(mask)
			sim::nontrivial();
	}
	for(int i = 0; i < 11; i++)
		if(mask & 1 << i)
			sim::probe(names[i]);
	sim::steps(s.L.length() * s.turns * (rounds + 2));
}
