// Where every frame of a machine is, computed here from the plan alone: positions and axes in
// long double, undisturbed and with any movements, support offsets and mover settings.
#ifndef VSIM_POSE_H
#define VSIM_POSE_H
#include "frames.h"
namespace gen
{
typedef long double pld;
struct Pose
{
	pld x[3];            // position of the origin
	pld O[3][3];         // columns: the axes
	Pose() : x{0, 0, 0}, O{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}} {}
};
inline Pose operator*(const Pose& a, const Pose& b)      // b is given in the axes of a
{
	Pose r;
	for(int i = 0; i < 3; i++)
	{
		r.x[i] = a.x[i];
		for(int k = 0; k < 3; k++)
			r.x[i] += a.O[i][k] * b.x[k];
		for(int j = 0; j < 3; j++)
		{
			r.O[i][j] = 0;
			for(int k = 0; k < 3; k++)
				r.O[i][j] += a.O[i][k] * b.O[k][j];
		}
	}
	return r;
}
inline Pose inv(const Pose& a)
{
	Pose r;
	for(int i = 0; i < 3; i++)
	{
		r.x[i] = 0;
		for(int k = 0; k < 3; k++)
		{
			r.x[i] -= a.O[k][i] * a.x[k];
			r.O[i][k] = a.O[k][i];
		}
	}
	return r;
}
inline Pose shift(pld x, pld y, pld z)
{
	Pose p;
	p.x[0] = x;
	p.x[1] = y;
	p.x[2] = z;
	return p;
}
// right-handed turn of the axes about axis k (0 x, 1 y, 2 z)
inline Pose turn(int k, pld a)
{
	Pose p;
	const int i = (k + 1) % 3, j = (k + 2) % 3;
	p.O[i][i] = p.O[j][j] = cosl(a);
	p.O[j][i] = sinl(a);
	p.O[i][j] = -sinl(a);
	return p;
}
inline Pose pose_of(const Transform3D& t)
{
	Pose p;
	p.x[0] = t.X().x;
	p.x[1] = t.X().y;
	p.x[2] = t.X().z;
	for(int j = 0; j < 3; j++)
	{
		const Vector3D v = t.R()(Vector3D(j == 0, j == 1, j == 2));
		p.O[j][0] = v.x;
		p.O[j][1] = v.y;
		p.O[j][2] = v.z;
	}
	return p;
}
inline bool same_pose_bits(const Pose& a, const Pose& b)
{
	for(int i = 0; i < 3; i++)
	{
		if(a.x[i] != b.x[i])
			return false;
		for(int j = 0; j < 3; j++)
			if(a.O[i][j] != b.O[i][j])
				return false;
	}
	return true;
}
inline bool close_pose(const Pose& a, const Pose& b, pld tolx, pld tolr)
{
	for(int i = 0; i < 3; i++)
	{
		if(!(fabsl(a.x[i] - b.x[i]) <= tolx))
			return false;
		for(int j = 0; j < 3; j++)
			if(!(fabsl(a.O[i][j] - b.O[i][j]) <= tolr))
				return false;
	}
	return true;
}
inline std::string show(const Pose& p)
{
	std::string s = sim::fmt("at (%.15Lg %.15Lg %.15Lg) axes", p.x[0], p.x[1], p.x[2]);
	for(int j = 0; j < 3; j++)
		s += sim::fmt(" (%.12Lg %.12Lg %.12Lg)", p.O[0][j], p.O[1][j], p.O[2][j]);
	return s;
}
// a ray through the origin plane of a frame
inline void to_frame(const Pose& from, const Pose& to, pld r[4])
{
	const pld p[3] = {r[0], r[2], 0}, d[3] = {r[1], r[3], 1};
	pld gp[3], gd[3], lp[3], ldir[3];
	for(int i = 0; i < 3; i++)
	{
		gp[i] = from.x[i] - to.x[i];
		gd[i] = 0;
		for(int k = 0; k < 3; k++)
		{
			gp[i] += from.O[i][k] * p[k];
			gd[i] += from.O[i][k] * d[k];
		}
	}
	for(int i = 0; i < 3; i++)
	{
		lp[i] = ldir[i] = 0;
		for(int k = 0; k < 3; k++)
		{
			lp[i] += to.O[k][i] * gp[k];
			ldir[i] += to.O[k][i] * gd[k];
		}
	}
	r[1] = ldir[0] / ldir[2];
	r[3] = ldir[1] / ldir[2];
	r[0] = lp[0] - lp[2] * r[1];
	r[2] = lp[1] - lp[2] * r[3];
}
struct Node
{
	int kind;                  // 0-5 as Op::OPEN, 10 component, 20 the whole machine
	int frame;                 // index into Machine::frames, -1 for the whole machine
	int comp;                  // index of the element
	int parent;
	std::vector<int> child;
	pld len, h, o;             // arc length, curvature, arc position of the origin from the entrance
	pld s;                     // arc position of the entrance within the parent
	Pose local;                // movements applied
	pld mover[3];              // x y roll
	pld off1[3], off2[3];      // support offsets
};
struct Geometry
{
	std::vector<Node> node;             // parents before children
	std::vector<int> of_frame;          // frame -> node
	std::vector<int> beam;              // component nodes in beam order
	explicit Geometry(const Plan& P)
	{
		std::vector<int> stack{add(20, -1, -1, -1)};
		int nf = 0;
		for(auto& o : P.ops)
		{
			switch(o.k)
			{
			case Op::OPEN:
				stack.push_back(add(o.i, nf++, -1, stack.back()));
				break;
			case Op::CLOSE:
				stack.pop_back();
				break;
			case Op::COMP:
			{
				const El& e = P.L.el[o.i];
				const int n = add(10, nf++, o.i, stack.back());
				node[n].len = e.kind == SWRF ? 9 * 299792458.0 / 1.3e9 / 2 : e.len;
				if(e.kind == SBEND)
					node[n].h = (pld) (e.s1 / e.len);
				beam.push_back(n);
				break;
			}
			case Op::PATCH:
				nf++;             // not modelled
				of_frame.push_back(-1);
				break;
			}
		}
		finish(0);
	}
	int add(int kind, int frame, int comp, int parent)
	{
		Node n;
		n.kind = kind;
		n.frame = frame;
		n.comp = comp;
		n.parent = parent;
		n.len = n.h = n.o = n.s = 0;
		for(int i = 0; i < 3; i++)
			n.mover[i] = n.off1[i] = n.off2[i] = 0;
		node.push_back(n);
		const int id = (int) node.size() - 1;
		if(parent >= 0)
			node[parent].child.push_back(id);
		if(frame >= 0)
			of_frame.push_back(id);
		return id;
	}
	void finish(int n)
	{
		Node& N = node[n];
		pld s = 0;
		for(int c : N.child)
		{
			finish(c);
			node[c].s = s;
			s += node[c].len;
		}
		if(N.kind != 10)
			N.len = s;
		N.o = N.kind == 20 || N.kind == 0 ? 0 : N.kind == 2 ? N.len : N.len / 2;
	}
	// undisturbed: from the entrance of a frame to arc position s in it
	Pose along(int n, pld s) const
	{
		const Node& N = node[n];
		if(N.kind == 10)
		{
			if(N.h == 0)
				return shift(0, 0, s);
			const pld f = N.h * s;
			return shift((cosl(f) - 1) / N.h, 0, sinl(f) / N.h) * turn(1, -f);
		}
		Pose p;
		for(size_t i = 0; i < N.child.size(); i++)
		{
			const Node& C = node[N.child[i]];
			if(s <= C.len || i + 1 == N.child.size())
				return p * along(N.child[i], std::min(s, C.len));
			p = p * along(N.child[i], C.len);
			s -= C.len;
		}
		return p;
	}
	// of the origin of a frame with respect to the origin of its parent, undisturbed
	Pose in_parent(int n) const
	{
		const Node& N = node[n];
		return inv(along(N.parent, node[N.parent].o)) * along(N.parent, N.s + N.o);
	}
	Pose reference(int n) const         // undisturbed, in the whole machine
	{
		return node[n].parent < 0 ? Pose() : reference(node[n].parent) * in_parent(n);
	}
	pld arc(int n) const                // arc position of the entrance in the whole machine
	{
		return node[n].parent < 0 ? 0 : node[n].s + arc(node[n].parent);
	}
	Pose entrance_ref(int n) const { return reference(n) * inv(along(n, node[n].o)); }
	Pose exit_ref(int n) const { return entrance_ref(n) * along(n, node[n].len); }
	static void in_axes(const Pose& p, const pld v[3], pld r[3])
	{
		for(int i = 0; i < 3; i++)
		{
			r[i] = 0;
			for(int k = 0; k < 3; k++)
				r[i] += p.O[k][i] * v[k];
		}
	}
	Pose support(int n) const           // what the supports do to a frame, about its undisturbed origin
	{
		const Node& N = node[n];
		if(N.kind == 3)
		{
			pld v[3];
			in_axes(reference(n), N.off1, v);
			return shift(v[0], v[1], v[2]);
		}
		if(N.kind != 4)
			return Pose();
		const Pose ent = entrance_ref(n), ext = exit_ref(n);
		pld a[3], b[3];
		in_axes(ent, N.off1, a);
		in_axes(ent, N.off2, b);
		const pld d = sqrtl(powl(ext.x[0] - ent.x[0], 2) + powl(ext.x[2] - ent.x[2], 2));
		Pose t = shift(a[0], a[1], a[2]);
		if(a[0] != b[0] || a[1] != b[1] || a[2] != b[2])
		{
			t = t * turn(1, (b[0] - a[0]) / d) * turn(0, -(b[1] - a[1]) / d);
		}
		const Pose in = inv(along(n, N.o));          // the entrance seen from the origin
		return in * t * inv(in);
	}
	Pose moved_in_parent(int n) const
	{
		const Node& N = node[n];
		return in_parent(n) * support(n) * N.local * (shift(N.mover[0], N.mover[1], 0) * turn(2, N.mover[2]));
	}
	Pose actual(int n) const
	{
		return node[n].parent < 0 ? Pose() : actual(node[n].parent) * moved_in_parent(n);
	}
	Pose entrance(int n) const { return actual(n) * inv(along(n, node[n].o)); }
	Pose exit(int n) const { return entrance(n) * along(n, node[n].len); }
	bool within(int n, int a) const     // n is a or inside a
	{
		for(; n >= 0; n = node[n].parent)
			if(n == a)
				return true;
		return false;
	}
};
}
#endif
