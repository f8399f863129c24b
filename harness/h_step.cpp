// Whole steps through the API: coupled motion, reported forces, integrators.
#include "md.hpp"
using moordyn::XYZQuat;
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }
static const double G = 9.81, RW = 1025.0;

static void opts(Model& m, const char* scheme, double dtM)
{
	m.opt("tScheme", scheme);
	m.opt("dtM", dtM);
	m.opt("writeLog", "0");
	m.opt("g", G);
	m.opt("WtrDnsty", RW);
	m.opt("WtrDpth", 200.0);
}
static MoorDyn start(Model& m, const std::vector<double>& x, const std::vector<double>& xd)
{
	MoorDyn s = m.create();
	vp_true("create", s != nullptr);
	vp_assume(s != nullptr);
	unsigned n = 0;
	MoorDyn_NCoupledDOF(s, &n);
	vp_true("number of coupled DOF", n == x.size());
	int err = MoorDyn_Init_NoIC(s, x.empty() ? nullptr : x.data(), xd.empty() ? nullptr : xd.data());
	vp_true("init", err == MOORDYN_SUCCESS);
	vp_assume(err == MOORDYN_SUCCESS);
	return s;
}
static vec ppos(MoorDyn s, int i)
{
	double p[3];
	MoorDyn_GetPointPos(MoorDyn_GetPoint(s, i), p);
	return vec(p[0], p[1], p[2]);
}
static vec pvel(MoorDyn s, int i)
{
	double p[3];
	MoorDyn_GetPointVel(MoorDyn_GetPoint(s, i), p);
	return vec(p[0], p[1], p[2]);
}
static vec lpos(MoorDyn s, int l, int i)
{
	double p[3];
	MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, l), i, p);
	return vec(p[0], p[1], p[2]);
}
static vec rpos(MoorDyn s, int r, int i)
{
	double p[3];
	MoorDyn_GetRodNodePos(MoorDyn_GetRod(s, r), i, p);
	return vec(p[0], p[1], p[2]);
}
static vec sub(const std::vector<double>& x, int i) { return vec(x[i], x[i + 1], x[i + 2]); }

// ---------------------------------------------------------------------------
// bodies, rods and points driven by the caller
static void coupled()
{
	const bool pin = is("pin", "1");
	Model m;
	const double mass = vp_symtok("mass", 100, 1000), V = vp_symtok("V", 0.05, 0.6), pm = vp_symtok("pm", 5, 50);
	m.ltypes.push_back("main 0.1 20 1e4 10 0 0 0 0 0");
	m.rtypes.push_back("bar 0.5 40 0 0 0 0");
	m.bodies.push_back(cat({ "1", pin ? "CoupledPinned" : "Coupled", "0 0 -20 0 0 0", num(mass), "0 100", num(V), "0 0" }));
	m.rods.push_back(cat({ "1 bar", pin ? "CoupledPinned" : "Coupled", "10 0 -20 10 0 -16 2 -" }));
	m.points.push_back("1 Fixed 20 20 -60 0 0 0 0");
	m.points.push_back(cat({ "2 Coupled 0 30 -20", num(pm), "0 0 0" }));
	m.points.push_back("3 Coupled 0 50 -20 0 0 0 0");
	// a rigidly coupled body only carries its attachments
	m.points.push_back(pin ? std::string("4 Body1 1 2 3 0 0 0 0") : cat({ "4 Body1 1 2 3", num(mass), num(V), "0 0" }));
	m.lines.push_back("1 main 1 2 55 1 -");
	m.lines.push_back("2 main 3 1 58 1 -");
	if (!pin)
		m.lines.push_back("3 main 1 R1B 80 1 -");
	opts(m, vp_arg("scheme", "euler"), atof(vp_arg("dtM", "1")));
	// [body 6, rod 6 (3 if pinned), points 3 + 3]
	const int nr = pin ? 3 : 6, n = 6 + nr + 6, iR = 6, iP = 6 + nr;
	std::vector<double> x(n, 0.0), xd(n, 0.0), x1(n, 0.0), v1(n, 0.0), v2(n, 0.0), x2(n, 0.0);
	double base[4][3] = { { 0, 0, -20 }, { 10, 0, -20 }, { 0, 30, -20 }, { 0, 50, -20 } };
	int off[4] = { 0, iR, iP, iP + 3 };
	for (int o = 0; o < 4; o++)
		for (int a = 0; a < 3; a++)
			x[off[o] + a] = base[o][a];
	MoorDyn s = start(m, x, xd);
	for (int o = 0; o < 4; o++)
		eq3("initial position", o == 0 ? ppos(s, 4) - vec(1, 2, 3) : o == 1 ? rpos(s, 1, 0) : ppos(s, o), sub(x, off[o]), 1e-9);
	static const char* ax[3] = { "x", "y", "z" };
	for (int o = 0; o < 4; o++)
		for (int a = 0; a < 3; a++) {
			std::string k = std::to_string(o) + ax[a];
			x1[off[o] + a] = base[o][a] + vp_sym(("x" + k).c_str(), -2, 2);
			v1[off[o] + a] = vp_sym(("v" + k).c_str(), -1, 1);
		}
	std::vector<double> f(n, -1.0);
	double t = 0, dt = vp_sym("dt", 0.2, 0.6), t1 = dt;
	int err = MoorDyn_Step(s, x1.data(), v1.data(), f.data(), &t, &dt);
	vp_true("step", err == MOORDYN_SUCCESS);
	vp_assume(err == MOORDYN_SUCCESS);
	vp_eq("time", t, t1, 1e-9);
	vp_eq("step length", dt, t1, 1e-9);
	for (int i = 0; i < n; i++)
		x2[i] = x1[i] + v1[i] * t1;
	auto where = [&](const std::string& w, const std::vector<double>& X, const std::vector<double>& Vl) {
		for (int o = 0; o < 4; o++) {
			vec p = sub(X, off[o]), v = sub(Vl, off[o]);
			std::string k = w + " of coupled object " + std::to_string(o);
			if (o == 0) {
				double r[6], rd[6];
				MoorDyn_GetBodyState(MoorDyn_GetBody(s, 1), r, rd);
				eqn(k, r, p, 3, 1e-6);
				eqn(k + " velocity", rd, v, 3, 1e-6);
				if (!pin) {
					eq3(k + ", attached point", ppos(s, 4), p + vec(1, 2, 3), 1e-6);
					eq3(k + ", attached point velocity", pvel(s, 4), v, 1e-6);
				}
			} else if (o == 1) {
				eq3(k, rpos(s, 1, 0), p, 1e-6);
				if (!pin)
					eq3(k + ", line end", lpos(s, 3, 1), p + vec(0, 0, 4), 1e-6);
			} else {
				eq3(k, ppos(s, o), p, 1e-6);
				eq3(k + " velocity", pvel(s, o), v, 1e-6);
				eq3(k + ", line end", lpos(s, o - 1, o == 2 ? 1 : 0), p, 1e-6);
			}
		}
	};
	where("end of step 1", x2, v1);
	eq3("fixed point stays", ppos(s, 1), vec(20, 20, -60), 0);
	if (is("steps", "1"))
		return;
	// second step, other velocity
	for (int o = 0; o < 4; o++)
		for (int a = 0; a < 3; a++)
			v2[off[o] + a] = vp_sym(("w" + std::to_string(o) + ax[a]).c_str(), -1, 1);
	err = MoorDyn_Step(s, x2.data(), v2.data(), f.data(), &t, &dt);
	vp_true("step 2", err == MOORDYN_SUCCESS);
	vp_eq("time 2", t, 2 * t1, 1e-9);
	std::vector<double> x3(n);
	for (int i = 0; i < n; i++)
		x3[i] = x2[i] + v2[i] * t1;
	where("end of step 2", x3, v2);
	// forces: bodies and rods carry their inertia, points their line pulls
	double lf[3];
	vec a = (sub(v2, 0) - sub(v1, 0)) / t1;
	vec F = -mass * a + vec(0, 0, G * (RW * V - mass));
	eq3("force on the body", vec(f[0], f[1], f[2]), F, 1e-4);
	if (!pin)
		eq3("moment on the body", vec(f[3], f[4], f[5]), vec(1, 2, 3).cross(F), 1e-4);
	MoorDyn_GetLineNodeForce(MoorDyn_GetLine(s, 1), 1, lf);
	eq3("force on point 2", sub(f, iP), vec(lf[0], lf[1], lf[2] - pm * G), 1e-6);
	MoorDyn_GetLineNodeForce(MoorDyn_GetLine(s, 2), 0, lf);
	eq3("force on point 3", sub(f, iP + 3), vec(lf[0], lf[1], lf[2]), 1e-6);
	// the rod: weight, buoyancy, line pull, inertia of rod and line end mass
	if (!pin) {
		MoorDyn_GetLineNodeForce(MoorDyn_GetLine(s, 3), 1, lf);
		double lm[3][3];
		MoorDyn_GetLineNodeM(MoorDyn_GetLine(s, 3), 1, lm);
		a = (sub(v2, iR) - sub(v1, iR)) / t1;
		vec F(lf[0], lf[1], lf[2] + G * 4.0 * (RW * PI / 4 * 0.25 - 40.0));
		for (int i = 0; i < 3; i++)
			F[i] = F[i] - 160.0 * a[i] - lm[i][0] * a[0] - lm[i][1] * a[1] - lm[i][2] * a[2];
		eq3("force on the rod", sub(f, iR), F, 1e-3);
	} else
		eq3("no moment on the pinned body", sub(f, 3), vec(0, 0, 0), 0);
}

// what a pinned body and a pinned rod ask of their pin, under any prescribed acceleration
static void pinned()
{
	Model m;
	const double M = 1000, I = 500, V = 0.3, dt0 = 0.25;
	const vec rc(0.8, -0.5, 0.3), ra(10, 0, -20), rb(13, 1, -18);
	m.rtypes.push_back("bar 0.5 40 0 0 0 0");
	m.bodies.push_back("1 CoupledPinned 0 0 -20 0 0 0 1000 0.8|-0.5|0.3 500 0.3 0 0");
	m.rods.push_back("1 bar CoupledPinned 10 0 -20 13 1 -18 2 -");
	m.points.push_back("1 Fixed 20 20 -60 0 0 0 0");
	opts(m, "euler", 1);
	std::vector<double> x = { 0, 0, -20, 0, 0, 0, 10, 0, -20 }, v0(9, 0.0), v1(9, 0.0), v2(9, 0.0), f(9, 0.0);
	MoorDyn s = start(m, x, v0);
	static const char* ax[3] = { "x", "y", "z" };
	for (int a = 0; a < 3; a++)
		for (int o : { 0, 6 }) {
			v1[o + a] = vp_sym((std::string(o ? "vr" : "vb") + ax[a]).c_str(), -1, 1);
			v2[o + a] = vp_sym((std::string(o ? "wr" : "wb") + ax[a]).c_str(), -1, 1);
		}
	double t = 0;
	vec wb(0, 0, 0), wr(0, 0, 0);
	for (int k = 1; k <= 2; k++) {
		const std::vector<double>&u = k == 1 ? v1 : v2, &u0 = k == 1 ? v0 : v1;
		double dt = dt0, r[6], rd[6];
		vp_true("step", MoorDyn_Step(s, x.data(), u.data(), f.data(), &t, &dt) == MOORDYN_SUCCESS);
		for (int i = 0; i < 9; i++)
			x[i] = x[i] + u[i] * dt0;
		const std::string S = " in step " + std::to_string(k);
		// the body turned by nothing yet (it starts from rest), only its rate did
		MoorDyn_GetBodyState(MoorDyn_GetBody(s, 1), r, rd);
		vec w(rd[3], rd[4], rd[5]), al = (w - wb) / dt0, a = (sub(u, 0) - sub(u0, 0)) / dt0;
		vec Fg(0, 0, G * (RW * V - M)), ce = wb.cross(wb.cross(rc));
		eq3("reaction of the pinned body" + S, sub(f, 0), Fg - M * (a + al.cross(rc) + ce), 1e-3);
		vec L = I * al + M * rc.cross(al.cross(rc));
		eq3("moment balance of the pinned body" + S, L, rc.cross(Fg - M * a), 1e-3);
		eq3("no moment on the pin" + S, sub(f, 3), vec(0, 0, 0), 0);
		wb = w;
		if (k == 1) {
			const vec6 rw = rod(s, 1)->v6;
			vec c = (rb - ra) / 2;
			const double mr = 40 * std::sqrt(14.0);
			al = vec(rw[3], rw[4], rw[5]) / dt0;
			a = (sub(u, 6) - sub(u0, 6)) / dt0;
			Fg = vec(0, 0, G * (RW * PI / 4 * 0.25 * std::sqrt(14.0) - mr));
			eq3("reaction of the pinned rod" + S, sub(f, 6), Fg - mr * (a + al.cross(c)), 1e-3);
			// (about the rod's axis its inertia is nearly nothing)
			vec N = c.cross(Fg - mr * a);
			const double J = mr * (14.0 / 3 + 0.25 * 0.25 / 4);
			vec q = c / len(c);
			eq3("moment balance of the pinned rod" + S, J * (al - q * dot(q, al)), N, 1e-2);
		}
	}
}

// orientation given to coupled bodies and rods: R = Rx(roll) Ry(pitch) Rz(yaw)
static vec euler(const double e[3], vec v)
{
	// half angle form
	for (int k = 2; k >= 0; k--) {
		double c = std::cos(0.5 * e[k]), s = std::sin(0.5 * e[k]), C = c * c - s * s, S = 2 * s * c;
		int i = (k + 1) % 3, j = (k + 2) % 3;
		double a = C * v[i] - S * v[j], b = S * v[i] + C * v[j];
		v[i] = a;
		v[j] = b;
	}
	return v;
}
static void attitude()
{
	Model m;
	const bool rodm = is("what", "rod");
	m.ltypes.push_back("main 0.1 20 1e4 10 0 0 0 0 0");
	m.points.push_back("1 Fixed 20 20 -60 0 0 0 0");
	if (rodm) {
		m.rtypes.push_back("bar 0.5 40 0 0 0 0");
		m.rods.push_back("1 bar Coupled 10 0 -20 10 0 -16 2 -");
	} else {
		m.bodies.push_back("1 Coupled 0 0 -20 0 0 0 100 0 100 0.1 0 0");
		m.points.push_back("2 Body1 1 2 3 0 0 0 0");
	}
	opts(m, "euler", 1);
	std::vector<double> x(6, 0.0), xd(6, 0.0), f(6, 0.0);
	x[2] = -20;
	MoorDyn s = start(m, x, xd);
	double e[3];
	static const char* nm[3] = { "roll", "pitch", "yaw" };
	for (int k = 0; k < 3; k++)
		x[3 + k] = e[k] = vp_sym(nm[k], -1.5, 1.5);
	x[0] = vp_sym("x", -2, 2);
	double t = 0, dt = 0.1;
	vp_true("step", MoorDyn_Step(s, x.data(), xd.data(), f.data(), &t, &dt) == MOORDYN_SUCCESS);
	vec p = rodm ? rpos(s, 1, 2) : ppos(s, 2);
	vec q = euler(e, rodm ? vec(0, 0, 4) : vec(1, 2, 3));
	eq3("attitude", p, vec(x[0] + q[0], x[1] + q[1], x[2] + q[2]), 1e-6);
}

int main()
{
	std::string mode = vp_arg("mode", "");
	if (mode == "coupled")
		coupled();
	else if (mode == "pinned")
		pinned();
	else if (mode == "attitude")
		attitude();
	return 0;
}
