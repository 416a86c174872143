// Machines with nested frames, girders, geometry patches and misalignments, as plain
// descriptions from which any number of identical machines can be built.
#ifndef VSIM_FRAMES_H
#define VSIM_FRAMES_H
#include "gen.h"
#include "SequenceFrame.h"
#include "SupportStructure.h"
#include "MagnetMover.h"
#include "PatchFrame.h"
#include "GeometryPatch.h"
namespace gen
{
struct Op
{
	enum Kind { OPEN, CLOSE, COMP, PATCH } k;
	int i;                    // OPEN: 0-2 sequence frame with origin at entrance, centre, exit; 3 simple mount 4 girder 5 mover; COMP: element
	std::string name;
	double v[6];              // PATCH: dx dy dz rx ry rz
};
struct Move
{
	int frame;                // in order of creation; -1: none
	int what;                 // 0-2 translate x y z, 3-5 rotate x y z
	double v;
};
struct Plan
{
	Lattice L;
	std::vector<Op> ops;
	std::vector<Move> moves;
	int nframes() const
	{
		int n = 0;
		for(auto& o : ops)
			n += o.k != Op::CLOSE;
		return n;
	}
};
struct Machine
{
	std::unique_ptr<AcceleratorModel> model;
	std::vector<LatticeFrame*> frames;          // in order of creation: sequence frames and component frames
	std::vector<ComponentFrame*> cf;            // in beam order
	std::vector<AcceleratorComponent*> comp;    // by element of the lattice
};
inline Plan plan_flat(const Lattice& L)
{
	Plan P;
	P.L = L;
	for(size_t i = 0; i < L.el.size(); i++)
		P.ops.push_back(Op{Op::COMP, (int) i, "", {0, 0, 0, 0, 0, 0}});
	return P;
}
// nest: draw frames around stretches; kinds: how many frame kinds may be used (3: plain sequences, 6: supports too)
inline Plan gen_plan(const Lattice& L, int kinds, bool patches, int maxdepth = 3)
{
	Plan P;
	P.L = L;
	int depth = 0, n = 0;
	std::vector<int> filled{0};
	for(size_t i = 0; i < L.el.size(); i++)
	{
		while(depth < maxdepth && sim::chance(1, 3))
		{
			P.ops.push_back(Op{Op::OPEN, (int) sim::draw(kinds), sim::fmt("F%d", n++), {0, 0, 0, 0, 0, 0}});
			filled.back() = 1;
			filled.push_back(0);
			depth++;
		}
		if(patches && sim::chance(1, 6))
		{
			Op o{Op::PATCH, 0, sim::fmt("P%d", n++), {0, 0, 0, 0, 0, 0}};
			for(int k = 0; k < 6; k++)
				if(sim::chance(1, 3))
					o.v[k] = sim::sreal(1e-3);
			P.ops.push_back(o);
		}
		P.ops.push_back(Op{Op::COMP, (int) i, "", {0, 0, 0, 0, 0, 0}});
		filled.back() = 1;
		while(depth > 0 && filled.back() && sim::chance(1, 2))
		{
			P.ops.push_back(Op{Op::CLOSE, 0, "", {0, 0, 0, 0, 0, 0}});
			filled.pop_back();
			depth--;
		}
	}
	while(depth-- > 0)
		P.ops.push_back(Op{Op::CLOSE, 0, "", {0, 0, 0, 0, 0, 0}});
	return P;
}
inline void gen_moves(Plan& P, int nmax, double amp)
{
	const int n = (int) sim::range(0, nmax);
	for(int i = 0; i < n; i++)
	{
		Move m;
		m.frame = (int) sim::draw((uint64_t) P.nframes());
		m.what = (int) sim::draw(6);
		m.v = sim::sreal(amp);
		P.moves.push_back(m);
	}
}
inline void describe(const Plan& P)
{
	describe(P.L);
	std::string s;
	for(auto& o : P.ops)
		s += o.k == Op::OPEN ? sim::fmt("(%s:%d ", o.name.c_str(), o.i) : o.k == Op::CLOSE ? std::string(") ") : o.k ==
			Op::COMP ? sim::fmt("%s ", P.L.el[o.i].name.c_str()) : sim::fmt("[%s %g %g %g %g %g %g] ", o.name.c_str(), o.v[0], o.v[1], o.v[2], o.v[3],
				o.v[4], o.v[5]);
	sim::ev("frames %s", s.c_str());
	for(auto& m : P.moves)
		sim::ev("move frame %d %s%c %.9g", m.frame, m.what < 3 ? "along " : "about ", 'x' + m.what % 3, m.v);
}
inline void apply(Transformable* t, int what, double v)
{
	switch(what)
	{
	case 0:
		t->TranslateX(v);
		break;
	case 1:
		t->TranslateY(v);
		break;
	case 2:
		t->TranslateZ(v);
		break;
	case 3:
		t->RotateX(v);
		break;
	case 4:
		t->RotateY(v);
		break;
	case 5:
		t->RotateZ(v);
		break;
	}
}
inline SequenceFrame* make_frame(const Op& o)
{
	static const SequenceFrame::Origin org[] = {SequenceFrame::originAtEntrance, SequenceFrame::originAtCenter, SequenceFrame::originAtExit};
	if(o.i < 3)
		return new SequenceFrame(o.name, org[o.i]);
	if(o.i == 3)
		return new SimpleMount(o.name);
	if(o.i == 4)
		return new GirderMount(o.name);
	return new MagnetMover(o.name);
}
inline ComponentFrame* frame_of(AcceleratorComponent* c)
{
	if(Drift* d = dynamic_cast<Drift*>(c))
		return new TComponentFrame<Drift>(*d);
	if(SectorBend* d = dynamic_cast<SectorBend*>(c))
		return new TComponentFrame<SectorBend>(*d);
	return new ComponentFrame(*c);
}
inline Machine build(const Plan& P, AcceleratorModelConstructor& ctor, bool moves = true)
{
	Machine M;
	M.comp.resize(P.L.el.size());
	for(auto& o : P.ops)
		switch(o.k)
		{
		case Op::OPEN:
		{
			SequenceFrame* f = make_frame(o);
			M.frames.push_back(f);
			ctor.NewFrame(f);
			break;
		}
		case Op::CLOSE:
			ctor.EndFrame();
			break;
		case Op::COMP:
		{
			AcceleratorComponent* c = make(P.L.el[o.i], P.L.p0);
			M.comp[o.i] = c;
			ComponentFrame* f = new ComponentFrame(*c);
			M.frames.push_back(f);
			M.cf.push_back(f);
			ctor.AppendComponentFrame(f);
			break;
		}
		case Op::PATCH:
		{
			GeometryPatch* g = new GeometryPatch;
			for(int k = 0; k < 6; k++)
				if(o.v[k] != 0)
					apply(g, k, o.v[k]);
			PatchFrame* f = new PatchFrame(g, o.name);
			M.frames.push_back(f);
			M.cf.push_back(f);
			ctor.AppendComponentFrame(f);
			break;
		}
		}
	M.model.reset(ctor.GetModel());
	if(moves)
		for(auto& m : P.moves)
			apply(M.frames[m.frame], m.what, m.v);
	return M;
}
inline Machine build(const Plan& P, bool moves = true)
{
	AcceleratorModelConstructor ctor;
	ctor.NewModel();
	return build(P, ctor, moves);
}
}
#endif
