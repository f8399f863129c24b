// Everything a system reports, by name, to compare two of them.
#pragma once
#include "md.hpp"

typedef std::vector<double> V;
struct Seen
{
	strs n;
	V v;
	void add(const std::string& a, const double* p, int k)
	{
		for (int i = 0; i < k; i++) {
			n.push_back(a + "." + std::to_string(i));
			v.push_back(p[i]);
		}
	}
};
static int NL, NP, NR, NB;
static Seen look(MoorDyn s, bool forces)
{
	Seen o;
	double a[6], b[6], M[6][6], m3[3][3];
	for (int l = 1; l <= NL; l++) {
		auto h = MoorDyn_GetLine(s, l);
		std::string L = "line " + std::to_string(l);
		unsigned n;
		MoorDyn_GetLineN(h, &n);
		MoorDyn_GetLineUnstretchedLength(h, a);
		o.add(L + " unstretched length", a, 1);
		for (unsigned i = 0; i <= n; i++) {
			std::string N = L + " node " + std::to_string(i);
			MoorDyn_GetLineNodePos(h, i, a);
			o.add(N + " position", a, 3);
			MoorDyn_GetLineNodeVel(h, i, a);
			o.add(N + " velocity", a, 3);
			if (!forces)
				continue;
			MoorDyn_GetLineNodeTen(h, i, a);
			o.add(N + " tension", a, 3);
			MoorDyn_GetLineNodeForce(h, i, a);
			o.add(N + " force", a, 3);
			MoorDyn_GetLineNodeM(h, i, m3);
			o.add(N + " mass", &m3[0][0], 9);
			MoorDyn_GetLineNodeWeight(h, i, a);
			o.add(N + " weight", a, 3);
			MoorDyn_GetLineNodeDrag(h, i, a);
			o.add(N + " drag", a, 3);
			MoorDyn_GetLineNodeFroudeKrilov(h, i, a);
			o.add(N + " fluid inertia", a, 3);
			MoorDyn_GetLineNodeSeabedForce(h, i, a);
			o.add(N + " seabed", a, 3);
			MoorDyn_GetLineNodeBendStiff(h, i, a);
			o.add(N + " bending", a, 3);
			MoorDyn_GetLineNodeCurv(h, i, a);
			o.add(N + " curvature", a, 1);
		}
		if (forces) {
			MoorDyn_GetLineFairTen(h, a);
			o.add(L + " fairlead tension", a, 1);
			MoorDyn_GetLineMaxTen(h, a);
			o.add(L + " max tension", a, 1);
		}
	}
	for (int l = 1; l <= NP; l++) {
		auto h = MoorDyn_GetPoint(s, l);
		std::string L = "point " + std::to_string(l);
		MoorDyn_GetPointPos(h, a);
		o.add(L + " position", a, 3);
		MoorDyn_GetPointVel(h, a);
		o.add(L + " velocity", a, 3);
		if (forces) {
			MoorDyn_GetPointForce(h, a);
			o.add(L + " force", a, 3);
			MoorDyn_GetPointM(h, m3);
			o.add(L + " mass", &m3[0][0], 9);
		}
	}
	for (int l = 1; l <= NR; l++) {
		auto h = MoorDyn_GetRod(s, l);
		std::string L = "rod " + std::to_string(l);
		unsigned n;
		MoorDyn_GetRodN(h, &n);
		for (unsigned i = 0; i <= n; i++) {
			MoorDyn_GetRodNodePos(h, i, a);
			o.add(L + " position", a, 3);
			MoorDyn_GetRodNodeVel(h, i, a);
			o.add(L + " velocity", a, 3);
		}
		if (forces) {
			MoorDyn_GetRodForce(h, a);
			o.add(L + " force", a, 6);
			MoorDyn_GetRodM(h, M);
			o.add(L + " mass", &M[0][0], 36);
		}
	}
	for (int l = 1; l <= NB; l++) {
		auto h = MoorDyn_GetBody(s, l);
		std::string L = "body " + std::to_string(l);
		auto k = body(s, l)->getState();
		for (int i = 0; i < 3; i++)
			a[i] = k.first.pos[i];
		o.add(L + " position", a, 3);
		double q[4] = { k.first.quat.w(), k.first.quat.x(), k.first.quat.y(), k.first.quat.z() };
		o.add(L + " attitude", q, 4);
		for (int i = 0; i < 6; i++)
			b[i] = k.second[i];
		o.add(L + " velocity", b, 6);
		if (forces) {
			MoorDyn_GetBodyForce(h, a);
			o.add(L + " force", a, 6);
			MoorDyn_GetBodyM(h, M);
			o.add(L + " mass", &M[0][0], 36);
		}
	}
	return o;
}
static void same(const std::string& when, const Seen& a, const Seen& b)
{
	for (size_t i = 0; i < a.v.size(); i++)
		vp_eq((when + ": " + a.n[i]).c_str(), b.v[i], a.v[i], 1e-9);
}

