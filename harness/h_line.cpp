// Line: axial law, nodal loads, seabed, bending, pressure, unstretched length.
#include "md.hpp"

struct Env { double g = 9.81, rw = 1025.0, depth = 100.0, kb = 3e6, cb = 3e5; };

struct L
{
	Model m;
	MoorDyn sys = nullptr;
	moordyn::Line* l = nullptr;
	int N;
	double d = 0.1, w = 20, EA = 1e4, BA = 0, EI = 0, Cd = 0, Ca = 0, CdA = 0, CaA = 0, UL = 20;
	Env e;
	std::string eaTok, baTok, eiTok;
	std::vector<vec> r, rd, U, Ud;
	L(int n) : N(n) {}
	void make(bool external)
	{
		auto t = [&](const std::string& s, double v) { return s.empty() ? num(v) : s; };
		m.ltypes.push_back(cat({ "main", num(d), num(w), t(eaTok, EA), t(baTok, BA), t(eiTok, EI), num(Cd), num(Ca), num(CdA), num(CaA) }));
		m.points.push_back("1 Fixed 0 0 -40 0 0 0 0");
		m.points.push_back("2 Fixed 0 0 -10 0 0 0 0");
		m.lines.push_back(cat({ "1 main 1 2", num(UL), std::to_string(N), "-" }));
		m.basics();
		m.opt("g", e.g);
		m.opt("WtrDnsty", e.rw);
		m.opt("WtrDpth", e.depth);
		m.opt("kBot", e.kb);
		m.opt("cBot", e.cb);
		if (external)
			m.opt("WaveKin", "1");
		sys = m.create();
		vp_true("create", sys != nullptr);
		vp_assume(sys != nullptr);
		int err = MoorDyn_Init_NoIC(sys, nullptr, nullptr);
		vp_true("init", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
		l = line(sys, 1);
	}
	// flow at the line nodes (external wave kinematics)
	void flow()
	{
		unsigned n = 0;
		MoorDyn_ExternalWaveKinInit(sys, &n);
		std::vector<double> u(3 * n, 0.0), a(3 * n, 0.0);
		for (int i = 0; i <= N; i++)
			for (int j = 0; j < 3; j++) {
				u[3 * i + j] = U[i][j];
				a[3 * i + j] = Ud[i][j];
			}
		vp_true("flowset", MoorDyn_ExternalWaveKinSet(sys, u.data(), a.data(), 0.0) == MOORDYN_SUCCESS);
	}
	std::pair<std::vector<vec>, std::vector<vec>> eval()
	{
		l->setEndKinematics(r[0], rd[0], moordyn::ENDPOINT_BOTTOM);
		l->setEndKinematics(r[N], rd[N], moordyn::ENDPOINT_TOP);
		l->setState(std::vector<vec>(r.begin() + 1, r.end() - 1), std::vector<vec>(rd.begin() + 1, rd.end() - 1));
		return l->getStateDeriv();
	}
	double A() const { return PI / 4 * d * d; }
	double seg() const { return UL / N; }
};

static std::string mode;

// positions spread along a direction so that segments never degenerate
static void nodes(L& s, double z0, double dz, double amp, bool vels, double vamp = 2.0)
{
	for (int i = 0; i <= s.N; i++) {
		std::string n = "r" + std::to_string(i);
		const bool flat = !strcmp(vp_arg("plumb", "0"), "1"); // along a vertical only
		double x = flat ? 0 : vp_sym((n + "x").c_str(), -amp, amp), y = flat ? 0 : vp_sym((n + "y").c_str(), -amp, amp);
		double z = vp_sym((n + "z").c_str(), z0 + dz * i - amp, z0 + dz * i + amp);
		s.r.push_back(vec(x, y, z));
		s.rd.push_back(!vels ? vec(0, 0, 0) : flat ? vec(0, 0, vp_sym(("v" + std::to_string(i)).c_str(), -vamp, vamp)) : sym3(("v" + std::to_string(i)).c_str(), -vamp, vamp));
		s.U.push_back(vec(0, 0, 0));
		s.Ud.push_back(vec(0, 0, 0));
	}
}

static double interpRef(const std::vector<double>& X, const std::vector<double>& Y, double x)
{
	if (x <= X[0])
		return Y[0];
	for (size_t i = 1; i < X.size(); i++)
		if (x <= X[i])
			return Y[i - 1] + (Y[i] - Y[i - 1]) * (x - X[i - 1]) / (X[i] - X[i - 1]);
	return Y.back();
}

// ------------------------------------------------------------------ axial law
static void axial()
{
	L s(atoi(vp_arg("N", "2")));
	std::string kind = vp_arg("kind", "const");
	s.d = vp_symtok("d", 0.05, 0.5);
	s.w = vp_symtok("w", 5, 200);
	s.UL = vp_symtok("UL", 10, 30);
	s.EA = vp_symtok("EA", 1e3, 1e5);
	s.BA = kind == "zeta" ? vp_symtok("BA", -1.0, -0.01) : vp_symtok("BA", 0.0, 1e4);
	std::vector<double> sx, sy, cx, cy;
	if (kind == "EAcurve") {
		sx = { 0.0, 0.1, 0.3, 1.0 };
		sy = { 0.0, vp_symtok("T1", 100, 1000), vp_symtok("T2", 2000, 5000), vp_symtok("T3", 9000, 20000) };
		std::string t = "---- stiffness ----\nstrain tension\n(-) (N)\n";
		for (int i = 0; i < 4; i++)
			t += num(sx[i]) + " " + num(sy[i]) + "\n";
		wfile("ea.txt", t);
		s.eaTok = "ea.txt";
	}
	if (kind == "BAcurve" || kind == "BAcurve2") {
		if (kind == "BAcurve") {
			cx = { 0.0, 0.1, 0.5 };
			cy = { 0.0, vp_symtok("D1", 10, 100), vp_symtok("D2", 200, 500) };
		} else {
			cx = { -0.5, -0.1, 0.0, 0.5 };
			cy = { vp_symtok("D0", -900, -600), vp_symtok("D1", -500, -100), 0.0, vp_symtok("D3", 400, 900) };
		}
		std::string t = "---- damping ----\nrate tension\n(-) (N)\n";
		for (size_t i = 0; i < cx.size(); i++)
			t += num(cx[i]) + " " + num(cy[i]) + "\n";
		wfile("ba.txt", t);
		s.baTok = "ba.txt";
	}
	s.make(false);
	nodes(s, -40, 20.0 / s.N, 3.0, true);
	// optionally change the stiffness / the unstretched length at run time
	if (!strcmp(vp_arg("retune", "0"), "1")) {
		double EA2 = vp_sym("EA2", 1e3, 1e5), UL2 = vp_sym("UL2", 10, 30);
		MoorDyn_SetLineConstantEA(MoorDyn_GetLine(s.sys, 1), EA2);
		MoorDyn_SetLineUnstretchedLength(MoorDyn_GetLine(s.sys, 1), UL2);
		double q;
		MoorDyn_GetLineConstantEA(MoorDyn_GetLine(s.sys, 1), &q);
		vp_eq("EA reported", q, EA2, 1e-3);
		MoorDyn_GetLineUnstretchedLength(MoorDyn_GetLine(s.sys, 1), &q);
		vp_eq("length reported", q, UL2, 1e-6);
		s.EA = EA2;
		s.UL = UL2;
	}
	s.eval();
	const double l0 = s.seg();
	std::vector<vec> ten;
	for (int i = 0; i < s.N; i++) {
		vec dr = s.r[i + 1] - s.r[i];
		double ls = len(dr);
		vec u = unit(dr);
		double rate = dot(u, s.rd[i + 1] - s.rd[i]);
		double T = 0, D = 0;
		if (ls / l0 > 1.0)
			T = kind == "EAcurve" ? interpRef(sx, sy, ls / l0 - 1.0) : s.EA * (ls / l0 - 1.0);
		double x = rate / l0;
		if (kind == "BAcurve")
			D = x >= 0 ? interpRef(cx, cy, x) : -interpRef(cx, cy, -x);
		else if (kind == "BAcurve2")
			D = interpRef(cx, cy, x);
		else if (kind == "zeta") {
			// damping ratio: -BA * l * sqrt(E rho) is the material coefficient,
			// set from the initial properties
			D = -s.BA * l0 * std::sqrt(s.EA * s.w) * x;
		} else
			D = s.BA * x;
		ten.push_back((T + D) * u);
	}
	double f[3];
	MoorDynLine hl = MoorDyn_GetLine(s.sys, 1);
	for (int i = 0; i <= s.N; i++) {
		MoorDyn_GetLineNodeTen(hl, i, f);
		vec ref = i == 0 ? ten[0] : (i == s.N ? ten[s.N - 1] : vec(0.5 * (ten[i] + ten[i - 1])));
		eq3("tension@" + std::to_string(i), vec(f[0], f[1], f[2]), ref, 1e-3);
	}
}

// ------------------------------------------------- nodal loads, M a = F
static void loads()
{
	L s(atoi(vp_arg("N", "2")));
	std::string what = vp_arg("what", "drag");
	std::string sub = vp_arg("sub", "wet");
	bool hyd = what == "drag" || what == "fk" || what == "all";
	s.d = vp_symtok("d", 0.05, 0.5);
	s.w = vp_symtok("w", 5, 200);
	s.UL = vp_symtok("UL", 10, 30);
	s.e.rw = vp_symtok("rw", 900, 1100);
	s.e.g = vp_symtok("g", 9, 10);
	s.Cd = vp_symtok("Cd", 0.5, 2);
	s.CdA = vp_symtok("CdA", 0.05, 0.4);
	s.Ca = vp_symtok("Ca", 0.5, 1.5);
	s.CaA = vp_symtok("CaA", 0.05, 0.4);
	if (what != "acc")
		s.EA = 0;
	s.make(true);
	if (sub == "wet")
		nodes(s, -40, 10, 3.0, what != "fk");
	else if (sub == "dry")
		nodes(s, 10, 10, 3.0, what != "fk");
	else if (sub == "mixed") // the last segment pierces the surface
		nodes(s, -14, 10, 2.0, what != "fk");
	if (what == "drag" || what == "all")
		for (int i = 0; i <= s.N; i++)
			s.U[i] = sym3(("U" + std::to_string(i)).c_str(), -3, 3);
	if (what == "fk" || what == "all" )
		for (int i = 0; i <= s.N; i++)
			s.Ud[i] = sym3(("a" + std::to_string(i)).c_str(), -3, 3);
	s.flow();
	auto res = s.eval();
	const double l0 = s.seg(), A = s.A();
	MoorDynLine hl = MoorDyn_GetLine(s.sys, 1);
	double f[3], M[3][3];
	std::vector<double> wet(s.N, sub == "dry" ? 0.0 : 1.0);
	if (sub == "mixed") {
		// the wetted share of the piercing segment is decided by "surface";
		// here: every load of every node uses the same share
		MoorDyn_GetLineNodeWeight(hl, s.N, f);
		wet[s.N - 1] = (s.w + 2 * f[2] / (l0 * s.e.g)) / (s.e.rw * A);
	}
	for (int i = 0; i <= s.N; i++) {
		std::string n = "@" + std::to_string(i);
		const double F = i == 0 ? wet[0] : i == s.N ? wet[s.N - 1] : 0.5 * (wet[i - 1] + wet[i]);
		double share = (i == 0 || i == s.N) ? 0.5 : 1.0; // length lumped at the node
		double ln = share * l0;
		vec q = unit(i == 0 ? vec(s.r[1] - s.r[0]) : i == s.N ? vec(s.r[i] - s.r[i - 1]) : vec(s.r[i + 1] - s.r[i - 1]));
		MoorDyn_GetLineNodeWeight(hl, i, f);
		eq3("weight" + n, vec(f[0], f[1], f[2]), vec(0, 0, -ln * s.e.g * (s.w - F * s.e.rw * A)), 1e-4);
		vec v = s.U[i] - s.rd[i];
		double vl = dot(v, q);
		vec vq = vl * q, vp = v - vq;
		vec D = 0.5 * s.e.rw * F * ln * s.d * (s.Cd * len(vp) * vp + PI * s.CdA * len(vq) * vq);
		MoorDyn_GetLineNodeDrag(hl, i, f);
		eq3("drag" + n, vec(f[0], f[1], f[2]), D, 1e-4);
		double al = dot(s.Ud[i], q);
		vec aq = al * q, ap = s.Ud[i] - aq;
		vec fk = s.e.rw * F * ln * A * ((1 + s.Ca) * ap + (1 + s.CaA) * aq);
		MoorDyn_GetLineNodeFroudeKrilov(hl, i, f);
		eq3("fk" + n, vec(f[0], f[1], f[2]), fk, 1e-4);
		MoorDyn_GetLineNodeM(hl, i, M);
		for (int a = 0; a < 3; a++)
			for (int b = 0; b < 3; b++) {
				double I = a == b ? 1 : 0, Q = q[a] * q[b];
				vp_eq(("mass" + n).c_str(), M[a][b], ln * (s.w * I + s.e.rw * F * A * (s.Ca * (I - Q) + s.CaA * Q)), 1e-4);
			}
		double ft[3], fs[3];
		MoorDyn_GetLineNodeForce(hl, i, f);
		MoorDyn_GetLineNodeTen(hl, i, ft);
		MoorDyn_GetLineNodeSeabedForce(hl, i, fs);
		if (what != "acc") {
			eq3("net" + n, vec(f[0], f[1], f[2]), vec(fk + D + vec(0, 0, -ln * s.e.g * (s.w - F * s.e.rw * A))), 1e-3);
			eq3("no seabed" + n, vec(fs[0], fs[1], fs[2]), vec(0, 0, 0), 1e-9);
		}
	}
}

// ------------------------------------------------- M a = F, dr/dt = v
static void newton()
{
	L s(2);
	s.d = vp_symtok("d", 0.05, 0.5);
	s.w = vp_symtok("w", 5, 200);
	s.UL = vp_symtok("UL", 10, 30);
	s.EA = vp_symtok("EA", 1e3, 1e5);
	s.Ca = vp_symtok("Ca", 0.5, 1.5);
	s.CaA = vp_symtok("CaA", 0.05, 0.4);
	s.Cd = 0; s.CdA = 0;
	s.make(true);
	nodes(s, -40, 10, 3.0, true);
	auto res = s.eval();
	MoorDynLine hl = MoorDyn_GetLine(s.sys, 1);
	double f[3], M[3][3];
	for (int i = 1; i < s.N; i++) {
		std::string n = "@" + std::to_string(i);
		MoorDyn_GetLineNodeForce(hl, i, f);
		MoorDyn_GetLineNodeM(hl, i, M);
		eq3("rate of position" + n, res.first[i - 1], s.rd[i], 1e-12);
		vec a = res.second[i - 1];
		eq3("M a = F" + n, vec(M[0][0] * a[0] + M[0][1] * a[1] + M[0][2] * a[2],
			M[1][0] * a[0] + M[1][1] * a[1] + M[1][2] * a[2],
			M[2][0] * a[0] + M[2][1] * a[1] + M[2][2] * a[2]), vec(f[0], f[1], f[2]), 1e-3);
	}
}

// ---------------------------------------------------- free surface crossing
static void surface()
{
	L s(atoi(vp_arg("N", "1")));
	s.d = vp_symtok("d", 0.05, 0.5);
	s.w = vp_symtok("w", 5, 200);
	s.UL = vp_symtok("UL", 2, 8);
	s.EA = 0;
	s.Ca = 1;
	s.make(false);
	std::string kind = vp_arg("kind", "straddle");
	double z0 = vp_sym("z0", -6, 6), z1 = vp_sym("z1", -6, 6);
	double x1 = vp_sym("x1", 0.5, 4), y1 = vp_sym("y1", -3, 3);
	if (kind == "edge0")
		z0 = 0;
	if (kind == "edge1")
		z1 = 0;
	s.r = { vec(0, 0, z0), vec(x1, y1, z1) };
	s.rd.assign(2, vec(0, 0, 0));
	s.eval();
	MoorDynLine hl = MoorDyn_GetLine(s.sys, 1);
	double f[3], f1[3];
	MoorDyn_GetLineNodeWeight(hl, 0, f);
	MoorDyn_GetLineNodeWeight(hl, 1, f1);
	const double A = s.A(), full = 0.5 * s.UL * s.e.rw * A * s.e.g, dry = -0.5 * s.UL * s.w * s.e.g;
	vp_eq("both ends alike", f[2], f1[2], 1e-6);
	double buoy = f[2] - dry; // buoyancy carried by this node
	// the wetted share of the inclined cylinder, measured between its lowest
	// and its highest edge
	double zl = z0 < z1 ? z0 : z1, zh = z0 < z1 ? z1 : z0;
	if (zh < 0)
		vp_eq("fully wet", buoy, full, 1e-6);
	else if (zl > 0)
		vp_eq("fully dry", buoy, 0, 1e-6);
	else if (zl <= 0 && zh > 0) {
		double h2 = x1 * x1 + y1 * y1, L2 = h2 + (z1 - z0) * (z1 - z0);
		double up = 0.5 * s.d * h2 / std::sqrt(h2 * L2); // rise of the edge over the axis
		vp_eq("partly wet", buoy * (zh - zl + 2 * up), full * (up - zl), 1e-5);
	}
}

// ------------------------------------------------------------ seabed contact
static void seabed()
{
	L s(atoi(vp_arg("N", "1")));
	s.d = vp_symtok("d", 0.05, 0.5);
	s.UL = vp_symtok("UL", 2, 8);
	s.EA = 0;
	s.e.kb = vp_symtok("kb", 1e2, 1e5);
	s.e.cb = vp_symtok("cb", 0, 1e4);
	s.e.depth = vp_symtok("depth", 80, 120);
	double mu = vp_symtok("mu", 0.1, 1.0), cv = vp_symtok("cv", 10, 500), mc = vp_symtok("mc", 1.0, 2.0);
	bool fr = !strcmp(vp_arg("friction", "1"), "1");
	if (!fr)
		mu = 0;
	s.m.opt("FrictionCoefficient", mu);
	s.m.opt("FricDamp", cv);
	s.m.opt("StatDynFricScale", mc);
	s.make(false);
	nodes(s, -104, 0.5, 6.0, true);
	s.r[0][0] -= 20;
	s.eval();
	MoorDynLine hl = MoorDyn_GetLine(s.sys, 1);
	double f[3];
	for (int i = 0; i <= s.N; i++) {
		std::string n = "@" + std::to_string(i);
		MoorDyn_GetLineNodeSeabedForce(hl, i, f);
		double share = (i == 0 || i == s.N) ? 0.5 : 1.0;
		double pen = -s.e.depth - s.r[i][2];
		vec v = s.rd[i];
		if (-s.e.depth > s.r[i][2]) {
			double fz = (pen * s.e.kb - v[2] * s.e.cb) * s.d * share * s.seg();
			vp_eq(("normal" + n).c_str(), f[2], fz, 1e-4);
			double sp = std::sqrt(v[0] * v[0] + v[1] * v[1]);
			double cap = mu * std::fabs(f[2]);
			// opposes motion, acts along it, never above the static level
			vp_eq(("friction is collinear" + n).c_str(), f[0] * v[1], f[1] * v[0], 1e-4);
			vp_le(("friction opposes motion" + n).c_str(), f[0] * v[0] + f[1] * v[1], 0, 1e-6);
			double lin = sp * mu * cv;
			double mag = lin > mc * cap ? cap : lin;
			if (sp != 0.0) {
				vp_eq(("friction x" + n).c_str(), f[0], -mag * v[0] / sp, 1e-4);
				vp_eq(("friction y" + n).c_str(), f[1], -mag * v[1] / sp, 1e-4);
			} else {
				vp_eq(("friction x at rest" + n).c_str(), f[0], 0, 0);
				vp_eq(("friction y at rest" + n).c_str(), f[1], 0, 0);
			}
		} else
			eq3("no contact above the seabed" + n, vec(f[0], f[1], f[2]), vec(0, 0, 0), 0);
	}
}

// ---------------------------------------------------------------- bending
static double curvRef(double l, const vec& a, const vec& b)
{
	return 4.0 / l * std::sqrt(0.5 * (1.0 - dot(a, b)));
}
static void bending()
{
	std::string ends = vp_arg("ends", "pinned"), kind = vp_arg("kind", "const");
	L s(ends == "pinned" ? 2 : 1);
	s.d = 0.1;
	s.EA = 0;
	s.EI = vp_symtok("EI", 10, 1e4);
	bool press = kind == "press";
	double pin[3] = { 0, 0, 0 };
	std::vector<double> bx, by;
	if (press)
		s.EI = 0;
	if (kind == "curve") {
		bx = { 0.0, 0.05, 4.0 };
		by = { 0.0, vp_symtok("M1", 10, 100), vp_symtok("M2", 200, 500) };
		std::string t = "---- bending ----\nrate tension\n(-) (N)\n";
		for (size_t i = 0; i < bx.size(); i++)
			t += num(bx[i]) + " " + num(by[i]) + "\n";
		wfile("ei.txt", t);
		s.eiTok = "ei.txt";
	}
	s.make(false);
	MoorDynLine hl = MoorDyn_GetLine(s.sys, 1);
	if (press) {
		MoorDyn_SetLinePressBend(hl, 1);
		int on = 0;
		MoorDyn_IsLinePressBend(hl, &on);
		vp_true("pressure bending reported on", on == 1);
		for (int i = 0; i <= s.N; i++)
			pin[i] = vp_sym(("p" + std::to_string(i)).c_str(), 0, 1e6);
		MoorDyn_SetLinePressInt(hl, pin);
	}
	// a fixed bottom end keeps the problem general: only differences matter
	for (int i = 0; i <= s.N; i++) {
		std::string n = "r" + std::to_string(i);
		s.r.push_back(i == 0 ? vec(0, 0, -40) : vec(vp_sym((n + "x").c_str(), -3, 3), vp_sym((n + "y").c_str(), -3, 3), -40 + vp_sym((n + "z").c_str(), 10 * i - 4, 10 * i + 4)));
		s.rd.push_back(vec(0, 0, 0));
	}
	vec qa(0, 0, 0), qb(0, 0, 0);
	s.l->setEndKinematics(s.r[0], s.rd[0], moordyn::ENDPOINT_BOTTOM);
	s.l->setEndKinematics(s.r[s.N], s.rd[s.N], moordyn::ENDPOINT_TOP);
	s.l->setState(std::vector<vec>(s.r.begin() + 1, s.r.end() - 1), std::vector<vec>(s.rd.begin() + 1, s.rd.end() - 1));
	bool A = ends == "A", B = ends == "B";
	if (A) {
		qa = vec(vp_sym("qax", 0.3, 1), vp_sym("qay", -1, 1), vp_sym("qaz", -1, 1));
		qa = unit(qa);
		// the bottom of the line sits at end B of the rod: rod axis and line agree
		s.l->setEndOrientation(qa, moordyn::ENDPOINT_BOTTOM, moordyn::ENDPOINT_B);
	}
	if (B) {
		qb = vec(vp_sym("qbx", 0.3, 1), vp_sym("qby", -1, 1), vp_sym("qbz", -1, 1));
		qb = unit(qb);
		s.l->setEndOrientation(qb, moordyn::ENDPOINT_TOP, moordyn::ENDPOINT_A);
	}
	s.l->getStateDeriv();
	double f[3], K;
	std::vector<vec> F(s.N + 1, vec(0, 0, 0));
	vec MA(0, 0, 0), MB(0, 0, 0);
	std::vector<vec> u;
	std::vector<double> ls;
	for (int i = 0; i < s.N; i++) {
		vec dr = s.r[i + 1] - s.r[i];
		ls.push_back(len(dr));
		u.push_back(unit(dr));
	}
	auto EIof = [&](double k) {
		if (kind != "curve")
			return s.EI;
		double m = interpRef(bx, by, k);
		return m / k;
	};
	if (A) {
		MoorDyn_GetLineNodeCurv(hl, 0, &K);
		vp_assume_lt(1e-6, K);
		vp_eq("curvature A", K, curvRef(ls[0], qa, u[0]), 1e-9);
		vec p = unit(cross(qa, u[0]));
		double c = K * EIof(K);
		F[1] = cross(u[0], p) * (c / ls[0]);
		F[0] = -F[1];
		MA = c * p;
	}
	if (B) {
		MoorDyn_GetLineNodeCurv(hl, s.N, &K);
		vp_assume_lt(1e-6, K);
		vp_eq("curvature B", K, curvRef(ls[0], u[0], qb), 1e-9);
		vec p = unit(cross(u[0], qb));
		double c = K * EIof(K);
		F[0] = cross(u[0], p) * (c / ls[0]);
		F[1] = -F[0];
		MB = -c * p;
	}
	if (s.N == 2) {
		MoorDyn_GetLineNodeCurv(hl, 1, &K);
		vp_assume_lt(1e-6, K);
		vp_eq("curvature", K, curvRef(ls[0] + ls[1], u[0], u[1]), 1e-9);
		vec cr = cross(u[0], u[1]);
		vec p = unit(cr);
		double c = K * EIof(K);
		F[0] = cross(u[0], p) * (c / ls[0]);
		F[2] = cross(u[1], p) * (c / ls[1]);
		F[1] = -F[0] - F[2];
		if (press) {
			vec q = unit(s.r[2] - s.r[0]);
			double dp = pin[1] - s.e.rw * s.e.g * (-s.r[1][2]);
			vec fp = s.A() * s.seg() * dp * K * cross(q, p);
			double w[3];
			MoorDyn_GetLineNodeForce(hl, 1, f);
			MoorDyn_GetLineNodeWeight(hl, 1, w);
			eq3("pressure bending", vec(f[0] - w[0], f[1] - w[1], f[2] - w[2]), fp, 1e-3);
			F.assign(3, vec(0, 0, 0));
		}
	}
	for (int i = 0; i <= s.N; i++) {
		MoorDyn_GetLineNodeBendStiff(hl, i, f);
		eq3("bending force@" + std::to_string(i), vec(f[0], f[1], f[2]), F[i], 1e-4);
		double w[3];
		MoorDyn_GetLineNodeWeight(hl, i, w);
		if (!press) {
			MoorDyn_GetLineNodeForce(hl, i, f);
			eq3("net force@" + std::to_string(i), vec(f[0], f[1], f[2] - w[2]), F[i], 1e-4);
		}
	}
	vec fo, mo;
	mat Mo;
	s.l->getEndStuff(fo, mo, Mo, moordyn::ENDPOINT_BOTTOM);
	eq3("end moment A", mo, MA, 1e-4);
	s.l->getEndStuff(fo, mo, Mo, moordyn::ENDPOINT_TOP);
	eq3("end moment B", mo, MB, 1e-4);
}

int main()
{
	mode = vp_arg("mode", "axial");
	if (mode == "axial")
		axial();
	else if (mode == "loads")
		loads();
	else if (mode == "newton")
		newton();
	else if (mode == "surface")
		surface();
	else if (mode == "bending")
		bending();
	else if (mode == "seabed")
		seabed();
	return 0;
}
