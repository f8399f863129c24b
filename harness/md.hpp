// Helpers shared by the harnesses: writes MoorDyn input files, creates systems.
#pragma once
#include "vp.h"
#include "MoorDyn2.h"
#include "MoorDyn2.hpp"
#include "Line.hpp"
#include "Point.hpp"
#include "Rod.hpp"
#include "Body.hpp"
#include "Waves.hpp"
#include "Seafloor.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>

using moordyn::vec;
using moordyn::vec6;
using moordyn::mat;
using moordyn::mat6;
typedef std::vector<std::string> strs;

static const double PI = 3.14159265358979323846;

inline std::string num(double x)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", x);
	return b;
}
inline std::string S(const char* name, double lo, double hi, double* out)
{
	*out = vp_symtok(name, lo, hi);
	return num(*out);
}
inline std::string cat(const strs& v, const char* sep = " ")
{
	std::string r;
	for (size_t i = 0; i < v.size(); i++)
		r += (i ? sep : "") + v[i];
	return r;
}
inline std::string sc(const std::string& f) { return std::string(vp_scratch()) + "/" + f; }
inline void wfile(const std::string& f, const std::string& txt)
{
	FILE* o = fopen(sc(f).c_str(), "w");
	fwrite(txt.data(), 1, txt.size(), o);
	fclose(o);
}
inline vec sym3(const char* n, double lo, double hi)
{
	std::string s(n);
	double x = vp_sym((s + "x").c_str(), lo, hi);
	double y = vp_sym((s + "y").c_str(), lo, hi);
	double z = vp_sym((s + "z").c_str(), lo, hi);
	return vec(x, y, z);
}
inline void eq3(const std::string& lab, const vec& a, const vec& b, double tol)
{
	static const char* c[3] = { ".x", ".y", ".z" };
	for (int i = 0; i < 3; i++)
		vp_eq((lab + c[i]).c_str(), a[i], b[i], tol);
}
template<class A, class B>
inline void eqn(const std::string& lab, const A& a, const B& b, int n, double tol)
{
	for (int i = 0; i < n; i++)
		vp_eq((lab + "." + std::to_string(i)).c_str(), a[i], b[i], tol);
}
// plain arithmetic, independent of Eigen and of the library
inline double dot(const vec& a, const vec& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline vec cross(const vec& a, const vec& b)
{
	return vec(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
}
inline double len(const vec& a) { return std::sqrt(dot(a, a)); }
inline vec unit(const vec& a)
{
	double l = len(a);
	return vec(a[0] / l, a[1] / l, a[2] / l);
}

struct Model
{
	strs ltypes, rtypes, bodies, rods, points, lines, fails, opts, outs;
	void opt(const std::string& k, const std::string& v) { opts.push_back(v + "  " + k); }
	void opt(const std::string& k, double v) { opt(k, num(v)); }
	std::string text() const
	{
		std::string t = "--- MoorDyn input ---\ngenerated\n";
		auto sec = [&](const char* n, const char* h, const strs& v, bool always = false) {
			if (v.empty() && !always)
				return;
			t += std::string("---- ") + n + " ----\n" + h + "\n(-) (-)\n";
			for (auto& s : v)
				t += s + "\n";
		};
		sec("LINE TYPES", "TypeName Diam Mass/m EA BA/-zeta EI Cd Ca CdAx CaAx", ltypes);
		sec("ROD TYPES", "TypeName Diam Mass/m Cd Ca CdEnd CaEnd", rtypes);
		sec("BODIES", "ID Attachment X0 Y0 Z0 r0 p0 y0 Mass CG* I* Volume CdA* Ca*", bodies);
		sec("RODS", "ID RodType Attachment Xa Ya Za Xb Yb Zb NumSegs RodOutputs", rods);
		sec("POINTS", "ID Attachment X Y Z Mass Volume CdA Ca", points);
		sec("LINES", "ID LineType AttachA AttachB UnstrLen NumSegs LineOutputs", lines);
		sec("FAILURE", "ID Point Lines FailTime FailTen", fails);
		t += "---- OPTIONS ----\n";
		for (auto& s : opts)
			t += s + "\n";
		if (!outs.empty()) {
			t += "---- OUTPUTS ----\n";
			for (auto& s : outs)
				t += s + "\n";
		}
		t += "---- need this line ----\n";
		return t;
	}
	// common numerical options
	void basics(const char* scheme = "rk2")
	{
		opt("tScheme", scheme);
		opt("dtM", 0.001);
		opt("ICgenDynamic", "0");
		opt("dtIC", 1.0);
		opt("TmaxIC", 0.0);
		opt("writeLog", "0");
	}
	MoorDyn create(const char* fname = "in.txt") const
	{
		wfile(fname, text());
		MoorDyn s = MoorDyn_Create(sc(fname).c_str());
		if (s)
			MoorDyn_SetVerbosity(s, MOORDYN_NO_OUTPUT);
		return s;
	}
};

inline moordyn::Line* line(MoorDyn s, int i) { return (moordyn::Line*)MoorDyn_GetLine(s, i); }
inline moordyn::Point* point(MoorDyn s, int i) { return (moordyn::Point*)MoorDyn_GetPoint(s, i); }
inline moordyn::Rod* rod(MoorDyn s, int i) { return (moordyn::Rod*)MoorDyn_GetRod(s, i); }
inline moordyn::Body* body(MoorDyn s, int i) { return (moordyn::Body*)MoorDyn_GetBody(s, i); }

// rotation by a (not necessarily normalised) quaternion
struct Quat
{
	double w, x, y, z;
	double n2() const { return w * w + x * x + y * y + z * z; }
	vec rot(const vec& v) const
	{
		double s = w * w - x * x - y * y - z * z;
		vec u(x, y, z);
		vec c = cross(u, v);
		double d = dot(u, v), k = 1.0 / n2();
		vec r;
		for (int i = 0; i < 3; i++)
			r[i] = k * (s * v[i] + 2 * d * u[i] + 2 * w * c[i]);
		return r;
	}
	vec irot(const vec& v) const { return Quat{ w, -x, -y, -z }.rot(v); }
	moordyn::quaternion q() const { return moordyn::quaternion(w, x, y, z); }
};
inline Quat symquat(const char* n)
{
	std::string s(n);
	Quat q;
	q.w = vp_sym((s + "w").c_str(), 0.5, 1.0);
	q.x = vp_sym((s + "x").c_str(), -0.6, 0.6);
	q.y = vp_sym((s + "y").c_str(), -0.6, 0.6);
	q.z = vp_sym((s + "z").c_str(), -0.6, 0.6);
	return q;
}
struct M66
{
	double a[6][6];
	M66() { memset(a, 0, sizeof a); }
	// 3x3 mass (and optional inertia) at an arm r from the reference point,
	// from the kinetic energy of v + w x r
	void add(const vec& r, const double m[3][3])
	{
		// G = [ I , -[r]x ]
		double G[3][6] = { { 1, 0, 0, 0, r[2], -r[1] }, { 0, 1, 0, -r[2], 0, r[0] }, { 0, 0, 1, r[1], -r[0], 0 } };
		for (int i = 0; i < 6; i++)
			for (int j = 0; j < 6; j++) {
				double s = 0;
				for (int k = 0; k < 3; k++)
					for (int l = 0; l < 3; l++)
						if (!(k != i && i < 3) && !(l != j && j < 3))
							s = s + G[k][i] * m[k][l] * G[l][j];
				a[i][j] = a[i][j] + s;
			}
	}
};
inline void eq66(const std::string& lab, const double A[6][6], const double B[6][6], double tol)
{
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < 6; j++)
			vp_eq((lab + "(" + std::to_string(i) + "," + std::to_string(j) + ")").c_str(), A[i][j], B[i][j], tol);
}
// externally supplied flow (WaveKin 1), addressed by the coordinates the
// system reports for each slot
struct Flow
{
	MoorDyn sys;
	std::vector<vec> c, U, Ud;
	void init(MoorDyn s)
	{
		sys = s;
		unsigned n = 0;
		vp_true("flow init", MoorDyn_ExternalWaveKinInit(s, &n) == MOORDYN_SUCCESS && n > 0);
		vp_assume(n > 0);
		std::vector<double> r(3 * n);
		MoorDyn_ExternalWaveKinGetCoordinates(s, r.data());
		for (unsigned i = 0; i < n; i++)
			c.push_back(vec(r[3 * i], r[3 * i + 1], r[3 * i + 2]));
		U.assign(n, vec(0, 0, 0));
		Ud.assign(n, vec(0, 0, 0));
	}
	void at(const vec& p, const vec& u, const vec& ud)
	{
		int hit = 0;
		for (size_t i = 0; i < c.size(); i++)
			if (std::fabs(c[i][0] - p[0]) + std::fabs(c[i][1] - p[1]) + std::fabs(c[i][2] - p[2]) < 1e-6) {
				U[i] = u;
				Ud[i] = ud;
				hit++;
			}
		vp_true("flow slot reported for the object", hit > 0);
	}
	void apply(double t = 0)
	{
		std::vector<double> u, a;
		for (size_t i = 0; i < c.size(); i++)
			for (int j = 0; j < 3; j++) {
				u.push_back(U[i][j]);
				a.push_back(Ud[i][j]);
			}
		vp_true("flow set", MoorDyn_ExternalWaveKinSet(sys, u.data(), a.data(), t) == MOORDYN_SUCCESS);
	}
};
