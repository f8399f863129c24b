// The internal time step: dtM, CFL, and the sub-steps of a driver step.
#include "md.hpp"
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }
static const double G = 9.81;

// two vertical lines of different type, length and number of segments, one
// carried by a body and one by a rod
struct TwoLines
{
	Model m;
	double EA[2], w[2], L[2];
	int N[2] = { 2, 3 };
	TwoLines()
	{
		static const char* nm[2] = { "a", "b" };
		for (int i = 0; i < 2; i++) {
			std::string k = nm[i];
			EA[i] = vp_symtok(("EA" + k).c_str(), 1e5, 9e5);
			w[i] = vp_symtok(("w" + k).c_str(), 30, 90);
			L[i] = vp_symtok(("L" + k).c_str(), 30, 45);
			m.ltypes.push_back(k + " 0.1 " + num(w[i]) + " " + num(EA[i]) + " 1000 0 0 0 0 0");
		}
		m.rtypes.push_back("bar 0.5 40 0 0 0 0");
		m.bodies.push_back("1 Free 0 0 -20 0 0 0 500 0 100 0.5 0 0");
		m.rods.push_back("1 bar Free 10 0 -20 10 0 -16 2 -");
		m.points.push_back("1 Fixed 0 0 -60 0 0 0 0");
		m.points.push_back("2 Body1 0 0 0 0 0 0 0");
		m.points.push_back("3 Fixed 10 0 -60 0 0 0 0");
		m.lines.push_back("1 a 1 2 " + num(L[0]) + " 2 -");
		m.lines.push_back("2 b 3 R1A " + num(L[1]) + " 3 -");
		m.opt("writeLog", "0");
		m.opt("g", G);
		m.opt("WtrDpth", 200.0);
		m.opt("tScheme", vp_arg("scheme", "rk2"));
	}
	// natural period of the segments of line i
	double T(int i) const
	{
		double l = L[i] / N[i];
		return 2.0 * PI / std::sqrt((EA[i] / l) / (w[i] * l));
	}
	double shortest() const
	{
		double a = T(0), b = T(1);
		return a < b ? a : b;
	}
};
static double getdt(MoorDyn s)
{
	double d = -1;
	vp_true("get the time step", MoorDyn_GetDt(s, &d) == MOORDYN_SUCCESS);
	return d;
}
static double getcfl(MoorDyn s)
{
	double d = -1;
	vp_true("get the CFL", MoorDyn_GetCFL(s, &d) == MOORDYN_SUCCESS);
	return d;
}
static void given()
{
	TwoLines k;
	const bool hd = is("dtM", "1"), hc = is("cfl", "1");
	double h = 0, c = 0.5;
	if (hd)
		k.m.opt("dtM", h = vp_symtok("dtM", 0.001, 2));
	if (hc)
		k.m.opt("CFL", c = vp_symtok("cfl", 0.01, 0.9));
	MoorDyn s = k.m.create();
	vp_true("create", s != nullptr);
	vp_assume(s != nullptr);
	vp_assume(MoorDyn_Init_NoIC(s, nullptr, nullptr) == MOORDYN_SUCCESS);
	const double T = k.shortest();
	double want = c * T;
	if (hd && (!hc || h < want))
		want = h;
	vp_eq("time step", getdt(s), want, 1e-6);
	vp_eq("CFL", getcfl(s), want / T, 1e-6);
	if (is("set", "1")) {
		double d = vp_sym("d", 0.01, 1), f = vp_sym("f", 0.05, 1.2);
		vp_true("set the time step", MoorDyn_SetDt(s, d) == MOORDYN_SUCCESS);
		vp_eq("time step set", getdt(s), d, 1e-9);
		vp_eq("CFL of the time step set", getcfl(s), d / T, 1e-6);
		vp_true("set the CFL", MoorDyn_SetCFL(s, f) == MOORDYN_SUCCESS);
		vp_eq("CFL set", getcfl(s), f, 1e-9);
		vp_eq("time step of the CFL set", getdt(s), f * T, 1e-6);
	}
	if (is("doc", "1")) {
		// the natural period of the troubleshooting guide: k = 4 EA/l
		vp_eq("CFL as documented", getcfl(s), 2.0 * want / T, 1e-6);
	}
}

// sub-steps: a point falling freely under the Euler scheme tells the lengths
// of the steps taken
static void substeps()
{
	Model m;
	double h;
	m.points.push_back("1 Free 0 0 -20 100 0 0 0");
	m.points.push_back("2 Fixed 10 0 -60 0 0 0 0");
	m.points.push_back("3 Fixed 10 0 -30 0 0 0 0");
	m.ltypes.push_back("main 0.1 20 1e4 50 0 0 0 0 0");
	m.lines.push_back("1 main 2 3 40 1 -");
	m.opt("writeLog", "0");
	m.opt("g", G);
	m.opt("WtrDpth", 2000.0);
	m.opt("tScheme", "euler");
	const bool api = is("api", "1");
	m.opt("dtM", api ? num(5.0) : S("dtM", 0.1, 0.3, &h));
	MoorDyn s = m.create();
	vp_assume(s != nullptr);
	vp_assume(MoorDyn_Init_NoIC(s, nullptr, nullptr) == MOORDYN_SUCCESS);
	if (api) {
		h = vp_sym("h", 0.1, 0.3);
		vp_true("set the time step", MoorDyn_SetDt(s, h) == MOORDYN_SUCCESS);
	}
	double x = -20, v = 0, t = 0, T = 0;
	for (int n = 0; n < 2; n++) {
		double dt = vp_sym(n ? "dt2" : "dt1", 0.05, 0.7);
		const double d0 = dt;
		vp_true("step", MoorDyn_Step(s, nullptr, nullptr, nullptr, &t, &dt) == MOORDYN_SUCCESS);
		double left = d0;
		int k = 0;
		while (left > 0 && k++ < 12) {
			double d = left;
			if (h < d)
				d = h;
			x = x + v * d;
			v = v - G * d;
			left = left - d;
		}
		T = T + d0;
		double p[3], u[3];
		MoorDyn_GetPointPos(MoorDyn_GetPoint(s, 1), p);
		MoorDyn_GetPointVel(MoorDyn_GetPoint(s, 1), u);
		vp_eq("clock", t, T, 1e-9);
		vp_eq("step length left as given", dt, d0, 1e-12);
		vp_eq("fall", p[2], x, 1e-6);
		vp_eq("speed", u[2], v, 1e-6);
	}
}

int main()
{
	if (is("mode", "given"))
		given();
	else
		substeps();
	return 0;
}
