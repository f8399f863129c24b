// Rods: hydrostatics, drag, inertia, submergence, rigid body dynamics.
#include "md.hpp"
using moordyn::XYZQuat;
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }

struct R
{
	Model m;
	MoorDyn sys = nullptr;
	moordyn::Rod* o = nullptr;
	int N = 2;
	double g = 9.81, rw = 1025, d = 0.5, w = 40, Cd = 0, Ca = 0, CdE = 0, CaE = 0, Len = 4, depth = 200, kb = 3e6, cb = 3e5;
	std::string att = "Free";
	std::vector<double> x, xd;
	vec a0 = vec(1, 2, -20), q0 = vec(0, 0, 1);
	Flow fl;
	void make(bool ext)
	{
		m.rtypes.push_back(cat({ "bar", num(d), num(w), num(Cd), num(Ca), num(CdE), num(CaE) }));
		m.rods.push_back(cat({ "1 bar", att, num(a0[0]), num(a0[1]), num(a0[2]), num(a0[0] + Len * q0[0]), num(a0[1] + Len * q0[1]),
			num(a0[2] + Len * q0[2]), std::to_string(N), "-" }));
		m.points.push_back("1 Fixed 20 0 -50 0 0 0 0");
		m.basics();
		m.opt("g", g);
		m.opt("WtrDnsty", rw);
		m.opt("WtrDpth", depth);
		m.opt("kBot", kb);
		m.opt("cBot", cb);
		if (ext)
			m.opt("WaveKin", "1");
		sys = m.create();
		vp_true("create", sys != nullptr);
		vp_assume(sys != nullptr);
		int err = MoorDyn_Init_NoIC(sys, x.empty() ? nullptr : x.data(), xd.empty() ? nullptr : xd.data());
		vp_true("init", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
		o = rod(sys, 1);
		if (ext)
			fl.init(sys);
	}
	double A() const { return PI / 4 * d * d; }
};
static void gather(MoorDyn sys, double F[6], double M[6][6])
{
	MoorDyn_GetRodForce(MoorDyn_GetRod(sys, 1), F);
	MoorDyn_GetRodM(MoorDyn_GetRod(sys, 1), M);
}
static void addF(double F[6], const vec& arm, const vec& f)
{
	vec c = cross(arm, f);
	for (int i = 0; i < 3; i++) {
		F[i] = F[i] + f[i];
		F[3 + i] = F[3 + i] + c[i];
	}
}

// fully wet / fully dry rods, any attitude
static void loads()
{
	R s;
	s.N = atoi(vp_arg("N", "2"));
	std::string what = vp_arg("what", "static");
	const bool wet = is("sub", "wet");
	s.g = vp_symtok("g", 9, 10);
	s.rw = vp_symtok("rw", 900, 1100);
	s.w = vp_symtok("w", 5, 200);
	s.d = vp_symtok("d", 0.2, 1);
	if (what == "drag") {
		s.Cd = vp_symtok("Cd", 0.3, 2);
		s.CdE = vp_symtok("CdE", 0.3, 2);
	}
	if (what == "inertia") {
		s.Ca = vp_symtok("Ca", 0.3, 2);
		s.CaE = vp_symtok("CaE", 0.3, 2);
	}
	s.make(what != "static");
	Quat Q{ 1, 0, 0, 0 };
	if (is("att", "sym"))
		Q = symquat("q");
	else if (is("att", "x")) { // any rotation about one axis
		Q.w = vp_sym("qw", 0.5, 1);
		Q.x = vp_sym("qx", -0.8, 0.8);
	} else if (is("att", "y")) {
		Q.w = vp_sym("qw", 0.5, 1);
		Q.y = vp_sym("qy", -0.8, 0.8);
	} else if (is("att", "xy")) {
		Q.w = vp_sym("qw", 0.5, 1);
		Q.x = vp_sym("qx", -0.8, 0.8);
		Q.y = vp_sym("qy", -0.8, 0.8);
	} else if (!is("att", "up"))
		Q = Quat{ 0.5, 0.5, 0.5, 0.5 };
	// tilts below 1e-3 (the code treats 1e-6 as vertical) are outside the
	// bound, except the exactly vertical rod
	if (!is("att", "cyc") && !is("att", "up"))
		vp_assume_le(1e-6, Q.x * Q.x + Q.y * Q.y);
	vec v(0, 0, 0), w(0, 0, 0), r;
	double x = vp_sym("x", -3, 3), y = vp_sym("y", -3, 3);
	double z = wet ? vp_sym("z", -25, -10) : vp_sym("z", 10, 40);
	r = vec(x, y, z);
	if (what == "drag") {
		v = sym3("v", -3, 3);
		w = sym3("w", -1, 1);
	}
	std::vector<vec> U(s.N + 1, vec(0, 0, 0)), Ud(s.N + 1, vec(0, 0, 0));
	if (what != "static") {
		for (int i = 0; i <= s.N; i++) {
			if (what == "drag")
				U[i] = sym3(("U" + std::to_string(i)).c_str(), -3, 3);
			else
				Ud[i] = sym3(("a" + std::to_string(i)).c_str(), -3, 3);
			s.fl.at(vec(1, 2, -20 + s.Len * i / s.N), U[i], Ud[i]);
		}
		s.fl.apply();
	}
	vec6 v6;
	v6 << v[0], v[1], v[2], w[0], w[1], w[2];
	s.o->setState(XYZQuat(r, Q.q()), v6);
	s.o->doRHS();
	double f[6], M[6][6], F[6] = { 0, 0, 0, 0, 0, 0 };
	gather(s.sys, f, M);
	const double wf = wet ? 1 : 0;
	vec q = Q.rot(vec(0, 0, 1));
	const double mt = s.w * s.Len, V = s.A() * s.Len;
	// weight and Archimedes at the middle of the rod
	addF(F, 0.5 * s.Len * q, vec(0, 0, s.g * (wf * s.rw * V - mt)));
	M66 MR;
	{
		double mm[3][3] = { { mt, 0, 0 }, { 0, mt, 0 }, { 0, 0, mt } };
		MR.add(0.5 * s.Len * q, mm);
		double rr = 0.5 * s.d, It = mt * (rr * rr / 4 + s.Len * s.Len / 12), Ia = mt * rr * rr / 2;
		for (int i = 0; i < 3; i++)
			for (int j = 0; j < 3; j++)
				MR.a[3 + i][3 + j] = MR.a[3 + i][3 + j] + (i == j ? It : 0.0) + (Ia - It) * q[i] * q[j];
	}
	const double Vend = PI / 12 * s.d * s.d * s.d; // half sphere
	for (int i = 0; i <= s.N; i++) {
		double ln = s.Len / s.N * ((i == 0 || i == s.N) ? 0.5 : 1.0);
		bool end = i == 0 || i == s.N;
		vec arm = (s.Len * i / s.N) * q;
		if (what == "drag") {
			vec vr = U[i] - (v + cross(w, arm));
			double vl = dot(vr, q);
			vec vq = vl * q, vp = vr - vq;
			vec D = wf * 0.5 * s.rw * s.d * ln * s.Cd * len(vp) * vp;
			if (end)
				D = D + wf * 0.5 * s.rw * s.A() * s.CdE * len(vq) * vq;
			addF(F, arm, D);
		}
		if (what == "inertia") {
			double al = dot(Ud[i], q);
			vec aq = al * q, ap = Ud[i] - aq;
			vec I = wf * s.rw * (1 + s.Ca) * s.A() * ln * ap;
			if (end)
				I = I + wf * s.rw * s.CaE * Vend * aq;
			addF(F, arm, I);
			double mm[3][3];
			for (int a = 0; a < 3; a++)
				for (int b = 0; b < 3; b++)
					mm[a][b] = wf * s.rw * (s.A() * ln * s.Ca * ((a == b ? 1.0 : 0.0) - q[a] * q[b]) + (end ? s.CaE * Vend : 0.0) * q[a] * q[b]);
			MR.add(arm, mm);
		}
	}
	eqn("force and moment", f, F, 6, 1e-2);
	if (what != "drag" && !is("att", "xy"))
		eq66("mass", M, MR.a, 1e-3);
}

// vertical rods piercing the surface: wetted length
static void pierce()
{
	R s;
	s.N = atoi(vp_arg("N", "3"));
	bool up = is("side", "up");
	s.d = vp_symtok("d", 0.2, 1);
	s.w = vp_symtok("w", 5, 200);
	s.Ca = vp_symtok("Ca", 0.3, 2);
	s.q0 = vec(0, 0, up ? 1 : -1);
	s.make(false);
	double z = vp_sym("z", -6, 6);
	if (is("edge", "top"))
		z = up ? -s.Len : 0.0; // the upper end lies exactly on the surface
	s.o->setState(XYZQuat(vec(1, 2, z), moordyn::quaternion::Identity()), vec6::Zero());
	s.o->doRHS();
	double f[6], M[6][6];
	gather(s.sys, f, M);
	double lo = up ? z : z - s.Len; // lower end
	double h = -lo; // wetted length
	if (h < 0)
		h = 0;
	if (h > s.Len)
		h = s.Len;
	vp_eq("added mass of the wetted length", M[0][0], s.w * s.Len + s.rw * s.A() * s.Ca * h, 1e-4);
	vp_eq("added mass, other direction", M[1][1], s.w * s.Len + s.rw * s.A() * s.Ca * h, 1e-4);
	if (h > 0.5 * s.Len / s.N + 1e-9 || h <= 0)
		vp_eq("weight and buoyancy", f[2], s.g * (s.rw * s.A() * h - s.w * s.Len), 1e-3);
}

// an inclined rod through the surface: the same rod, described from its other
// end, carries the same loads and mass
static void flip()
{
	R s;
	s.N = atoi(vp_arg("N", "3"));
	s.d = 0.5;
	s.w = vp_symtok("w", 5, 200);
	s.Ca = vp_symtok("Ca", 0.3, 2);
	s.Cd = vp_symtok("Cd", 0.3, 2);
	s.CaE = vp_symtok("CaE", 0.3, 2);
	s.CdE = vp_symtok("CdE", 0.3, 2);
	// 3-4-12 direction: exact products
	const vec dir = vec(3.0 / 13, 4.0 / 13, 12.0 / 13);
	s.q0 = dir;
	s.Len = 6.5;
	const vec b0 = s.a0 + s.Len * dir;
	s.m.rtypes.push_back(cat({ "bar", num(s.d), num(s.w), num(s.Cd), num(s.Ca), num(s.CdE), num(s.CaE) }));
	auto row = [&](int id, const vec& a, const vec& b) {
		return cat({ std::to_string(id), "bar Free", num(a[0]), num(a[1]), num(a[2]), num(b[0]), num(b[1]), num(b[2]), std::to_string(s.N), "-" });
	};
	s.m.rods = { row(1, s.a0, b0), row(2, b0, s.a0) };
	s.m.points.push_back("1 Fixed 20 0 -50 0 0 0 0");
	s.m.basics();
	s.m.opt("g", s.g);
	s.m.opt("WtrDnsty", s.rw);
	s.m.opt("WtrDpth", s.depth);
	s.sys = s.m.create();
	vp_assume(s.sys != nullptr);
	vp_assume(MoorDyn_Init_NoIC(s.sys, nullptr, nullptr) == MOORDYN_SUCCESS);
	double z = vp_sym("z", -7, 1);
	vec v = sym3("v", -3, 3);
	vec arm = s.Len * dir;
	double f[2][6], M[2][6][6];
	for (int k = 0; k < 2; k++) {
		moordyn::Rod* o = rod(s.sys, k + 1);
		XYZQuat p = o->getState().first;
		p.pos = k ? moordyn::vec(1 + arm[0], 2 + arm[1], z + arm[2]) : moordyn::vec(1, 2, z);
		vec6 v6;
		v6 << v[0], v[1], v[2], 0, 0, 0;
		o->setState(p, v6);
		o->doRHS();
		MoorDyn_GetRodForce(MoorDyn_GetRod(s.sys, k + 1), f[k]);
		MoorDyn_GetRodM(MoorDyn_GetRod(s.sys, k + 1), M[k]);
	}
	// the second about the first's end
	vec F2(f[1][0], f[1][1], f[1][2]), m2 = cross(arm, F2);
	for (int i = 0; i < 3; i++)
		f[1][3 + i] = f[1][3 + i] + m2[i];
	eqn("force and moment from either end", f[1], f[0], 6, 1e-2);
	double G[6][6] = { { 1, 0, 0, 0, arm[2], -arm[1] }, { 0, 1, 0, -arm[2], 0, arm[0] }, { 0, 0, 1, arm[1], -arm[0], 0 },
		{ 0, 0, 0, 1, 0, 0 }, { 0, 0, 0, 0, 1, 0 }, { 0, 0, 0, 0, 0, 1 } };
	double T[6][6];
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < 6; j++) {
			double t = 0;
			for (int k = 0; k < 6; k++)
				for (int l = 0; l < 6; l++)
					if (G[k][i] != 0 && G[l][j] != 0)
						t = t + G[k][i] * M[1][k][l] * G[l][j];
			T[i][j] = t;
		}
	eq66("mass from either end", T, M[0], 1e-2);
}

// M a = F and attitude rate
static void newton()
{
	R s;
	s.Ca = 1.0;
	s.CaE = 0.6;
	s.Cd = vp_symtok("Cd", 0.3, 2);
	s.CdE = vp_symtok("CdE", 0.3, 2);
	s.make(false);
	Quat Q{ 0.8, 0.3, -0.4, 0.2 };
	vec v = sym3("v", -3, 3), w = sym3("w", -1, 1);
	vec6 v6;
	v6 << v[0], v[1], v[2], w[0], w[1], w[2];
	s.o->setState(XYZQuat(vec(0, 0, -30), Q.q()), v6);
	auto d = s.o->getStateDeriv();
	double f[6], M[6][6];
	gather(s.sys, f, M);
	for (int i = 0; i < 6; i++) {
		double t = 0;
		for (int j = 0; j < 6; j++)
			t = t + M[i][j] * d.second[j];
		vp_eq(("M a = F." + std::to_string(i)).c_str(), t, f[i], 1e-3);
	}
	eq3("rate of position", d.first.pos, v, 1e-12);
	auto dq = d.first.quat;
	vp_eq("attitude rate.w", dq.w(), 0.5 * (-w[0] * Q.x - w[1] * Q.y - w[2] * Q.z), 1e-9);
	vp_eq("attitude rate.x", dq.x(), 0.5 * (w[0] * Q.w + w[1] * Q.z - w[2] * Q.y), 1e-9);
	vp_eq("attitude rate.y", dq.y(), 0.5 * (w[1] * Q.w + w[2] * Q.x - w[0] * Q.z), 1e-9);
	vp_eq("attitude rate.z", dq.z(), 0.5 * (w[2] * Q.w + w[0] * Q.y - w[1] * Q.x), 1e-9);
}

// free rod placed by the input file: both ends where the file puts them
static void place()
{
	R s;
	s.N = 2;
	double ax = vp_symtok("ax", -5, 5), ay = vp_symtok("ay", -5, 5), az = vp_symtok("az", -30, -20);
	double bx = vp_symtok("bx", -5, 5), by = vp_symtok("by", -5, 5), bz = vp_symtok("bz", -15, -10);
	s.m.rtypes.push_back("bar 0.5 40 0 0 0 0");
	s.m.ltypes.push_back("main 0.1 20 1e4 10 0 0 0 0 0");
	s.m.rods.push_back(cat({ "1 bar Free", num(ax), num(ay), num(az), num(bx), num(by), num(bz), "2 -" }));
	s.m.points.push_back("1 Fixed 20 0 -50 0 0 0 0");
	s.m.lines.push_back("1 main 1 R1B 60 1 -");
	s.m.basics();
	s.sys = s.m.create();
	vp_assume(s.sys != nullptr);
	int err = MoorDyn_Init_NoIC(s.sys, nullptr, nullptr);
	vp_true("init", err == MOORDYN_SUCCESS);
	double p[3];
	MoorDynRod h = MoorDyn_GetRod(s.sys, 1);
	MoorDyn_GetRodNodePos(h, 0, p);
	eq3("end A", vec(p[0], p[1], p[2]), vec(ax, ay, az), 1e-6);
	MoorDyn_GetRodNodePos(h, 2, p);
	eq3("end B", vec(p[0], p[1], p[2]), vec(bx, by, bz), 1e-6);
	MoorDyn_GetRodNodeVel(h, 2, p);
	eq3("at rest", vec(p[0], p[1], p[2]), vec(0, 0, 0), 1e-9);
	MoorDyn_GetLineNodePos(MoorDyn_GetLine(s.sys, 1), 1, p);
	eq3("line end", vec(p[0], p[1], p[2]), vec(bx, by, bz), 1e-6);
}

static void seabed()
{
	R s;
	s.N = 1;
	s.depth = vp_symtok("depth", 80, 120);
	s.kb = vp_symtok("kb", 1e2, 1e5);
	s.cb = vp_symtok("cb", 0, 1e4);
	s.d = vp_symtok("d", 0.2, 1);
	s.make(false);
	vec v = sym3("v", -2, 2);
	double z = vp_sym("z", -140, -60);
	vec6 v6;
	v6 << v[0], v[1], v[2], 0, 0, 0;
	s.o->setState(XYZQuat(vec(0, 0, z), moordyn::quaternion::Identity()), v6);
	s.o->doRHS();
	double f[6], M[6][6];
	gather(s.sys, f, M);
	double F = s.g * s.Len * (s.rw * s.A() - s.w);
	for (int i = 0; i <= 1; i++) {
		double pen = -s.depth - (z + s.Len * i);
		if (pen > 0)
			F = F + (s.kb * pen - s.cb * v[2]) * s.d * 0.5 * s.Len;
	}
	vp_eq("vertical force", f[2], F, 1e-3);
	vp_eq("no horizontal force.x", f[0], 0, 1e-6);
	vp_eq("no horizontal force.y", f[1], 0, 1e-6);
}

int main()
{
	std::string mode = vp_arg("mode", "");
	if (mode == "loads")
		loads();
	else if (mode == "pierce")
		pierce();
	else if (mode == "flip")
		flip();
	else if (mode == "newton")
		newton();
	else if (mode == "place")
		place();
	else if (mode == "seabed")
		seabed();
	return 0;
}
