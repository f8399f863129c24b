// Currents, waves, external kinematics: what the water does at a point.
#include "md.hpp"
#include "Time.hpp"
#include "Waves.h"
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }
static int iarg(const char* k, int d) { return atoi(vp_arg(k, std::to_string(d).c_str())); }

// position in a sorted axis, closest value outside
// (at a node both cells agree; which one is taken keeps the paths together)
static int cell(const std::vector<double>& X, double x, double& f, bool up = false)
{
	int n = (int)X.size();
	f = 0;
	if (n == 1 || x <= X[0])
		return 0;
	if (x >= X[n - 1]) {
		f = 1;
		return n - 2;
	}
	for (int i = 1; i < n; i++)
		if (up ? x < X[i] : x <= X[i]) {
			f = (x - X[i - 1]) / (X[i] - X[i - 1]);
			return i - 1;
		}
	f = 1;
	return n - 2;
}
// data on a grid of x, y, z, t
template<class T>
struct Grid4
{
	std::vector<double> A[4];
	std::vector<T> D;
	T& operator()(int i, int j, int k, int l) { return D[((i * A[1].size() + j) * A[2].size() + k) * A[3].size() + l]; }
	void alloc(const T& zero) { D.assign(A[0].size() * A[1].size() * A[2].size() * A[3].size(), zero); }
	T at(double x, double y, double z, double t)
	{
		double p[4] = { x, y, z, t }, f[4];
		int c[4];
		for (int a = 0; a < 4; a++)
			c[a] = cell(A[a], p[a], f[a], a == 3);
		return rec(c, f, 0);
	}
	T rec(int* c, double* f, int a)
	{
		if (a == 4)
			return (*this)(c[0], c[1], c[2], c[3]);
		T lo = rec(c, f, a + 1);
		if (A[a].size() == 1)
			return lo;
		int s = c[a];
		c[a] = s + 1;
		T hi = rec(c, f, a + 1);
		c[a] = s;
		return lo * (1.0 - f[a]) + hi * f[a];
	}
};
typedef Grid4<vec> VGrid;

static std::string nm(const char* p, int a, int b = -1, int c = -1, int d = -1)
{
	std::string s(p);
	for (int v : { a, b, c, d })
		if (v >= 0)
			s += std::to_string(v);
	return s;
}
static vec tok3(const std::string& n, int dim)
{
	// the ranges of all the tokens differ a bit so that their values differ
	static int k = 0;
	vec v(0, 0, 0);
	for (int i = 0; i < dim; i++, k++)
		v[i] = vp_symtok((n + "xyz"[i]).c_str(), 0.31 + 0.0137 * k, 2.13 + 0.0137 * k);
	return v;
}
static double zlevel(int i, int n, bool sym)
{
	// from -40 up to 0
	double z = n == 1 ? -10 : -40.0 + 40.0 * i / (n - 1);
	if (sym && i > 0 && i < n - 1)
		return vp_symtok(nm("Z", i).c_str(), z - 4, z - 1);
	return z;
}

// writes the file of the currents and remembers what it says
static VGrid currents(Model& m)
{
	VGrid G;
	const std::string what = vp_arg("cur", "steady");
	const int dim = iarg("dim", 3), nz = iarg("nz", 3), nt = iarg("nt", 3);
	const bool symz = is("symz", "1");
	G.A[0] = G.A[1] = { 0.0 };
	for (int i = 0; i < nz; i++)
		G.A[2].push_back(zlevel(i, nz, symz));
	std::string t;
	auto comps = [&](const vec& v) {
		strs r;
		for (int i = 0; i < dim; i++)
			r.push_back(num(v[i]));
		return cat(r);
	};
	if (what == "steady") {
		G.A[3] = { 0.0 };
		G.alloc(vec(0, 0, 0));
		t = "--- currents ---\nz ux uy uz\n(m) (m/s)\n";
		for (int i = 0; i < nz; i++) {
			G(0, 0, i, 0) = tok3(nm("u", i), dim);
			t += num(G.A[2][i]) + "  " + comps(G(0, 0, i, 0)) + "\n";
		}
		wfile("current_profile.txt", t);
		m.opt("Currents", "1");
		return G;
	}
	const double dt = atof(vp_arg("tstep", "2.5"));
	// times given one by one: t0_t1_...
	const char* ts = vp_arg("times", "");
	for (int i = 0; i < nt; i++) {
		char* e = nullptr;
		G.A[3].push_back(*ts ? strtod(ts, &e) : dt * i);
		ts = e && *e ? e + 1 : "";
	}
	if (what == "dynamic") {
		G.alloc(vec(0, 0, 0));
		t = "--- currents ---\nprofile\n\n\n";
		strs z;
		for (double v : G.A[2])
			z.push_back(num(v));
		t += "   " + cat(z) + "\n\n";
		for (int l = 0; l < nt; l++) {
			strs row = { num(G.A[3][l]) };
			for (int k = 0; k < nz; k++)
				G(0, 0, k, l) = tok3(nm("u", k, l), dim);
			for (int i = 0; i < dim; i++)
				for (int k = 0; k < nz; k++)
					row.push_back(num(G(0, 0, k, l)[i]));
			t += cat(row, "  ") + "\n";
		}
		wfile("current_profile_dynamic.txt", t);
		m.opt("Currents", "2");
		return G;
	}
	// 4D
	const int nx = iarg("nx", 2), ny = iarg("ny", 2);
	G.A[0].clear();
	G.A[1].clear();
	for (int i = 0; i < nx; i++)
		G.A[0].push_back(-10 + 25.0 * i);
	for (int i = 0; i < ny; i++)
		G.A[1].push_back(-4 + 12.0 * i);
	G.alloc(vec(0, 0, 0));
	t = cat({ std::to_string(nx), std::to_string(ny), std::to_string(nz), std::to_string(nt) }) + "\n";
	for (int a = 0; a < 4; a++) {
		strs v;
		for (double x : G.A[a])
			v.push_back(num(x));
		t += cat(v) + "\n";
	}
	strs rows;
	// other spellings of the same number
	const bool spell = is("spell", "1");
	auto sp = [&](double v) {
		if (spell && v == 0)
			return std::string("-0");
		return spell ? num(v) + (v == floor(v) ? ".0" : "0") : num(v);
	};
	for (int i = 0; i < nx; i++)
		for (int j = 0; j < ny; j++)
			for (int k = 0; k < nz; k++)
				for (int l = 0; l < nt; l++) {
					vec u = G(i, j, k, l) = tok3(nm("u", i, j, k, l), dim);
					rows.push_back(cat({ sp(G.A[0][i]), sp(G.A[1][j]), sp(G.A[2][k]), sp(G.A[3][l]), num(u[0]), num(u[1]), num(u[2]) }));
				}
	if (is("shuffle", "1")) {
		std::swap(rows[0], rows[5]);
		std::swap(rows[1], rows.back());
	}
	wfile("current_profile_4d.txt", t + cat(rows, "\n") + "\n");
	m.opt("Currents", "5");
	return G;
}

// a fixed line, a fixed point, a free point, a rod and a body
struct Scene
{
	Model m;
	MoorDyn s;
	moordyn::Waves* w;
	moordyn::TimeScheme* ts;
	std::vector<double> pos;
	void base()
	{
		m.ltypes.push_back("main 0.1 20 1e4 10 0 0 0 0 0");
		if (is("bare", "1")) {
			m.points.push_back("1 Fixed 0 0 -60 0 0 0 0");
			m.points.push_back("2 Fixed 1 0 -55 0 0 0 0");
			m.lines.push_back("1 main 1 2 6 1 -");
			m.basics();
			m.opt("g", 9.81);
			m.opt("WtrDnsty", 1025.0);
			m.opt("WtrDpth", 70.0);
			return;
		}
		m.rtypes.push_back("bar 0.2 40 0 0 0 0");
		m.bodies.push_back("1 Free 3 1 -15 0 0 0 1000 0 100 1 0 0");
		m.rods.push_back("1 bar Free 6 2 -20 6 2 -16 1 -");
		m.points.push_back("1 Fixed 0 0 -39 0 0 0 0");
		m.points.push_back("2 Free 1 0 -20 100 0.05 0 0");
		m.lines.push_back("1 main 1 2 20 2 -");
		m.basics();
		m.opt("g", 9.81);
		m.opt("WtrDnsty", 1025.0);
		m.opt("WtrDpth", atof(vp_arg("depth", "40")));
	}
	void go()
	{
		s = m.create();
		vp_true("create", s != nullptr);
		vp_assume(s != nullptr);
		int err = MoorDyn_Init_NoIC(s, nullptr, nullptr);
		vp_true("init", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
		w = (moordyn::Waves*)MoorDyn_GetWaves(s);
		ts = ((moordyn::MoorDyn*)s)->GetTimeScheme();
	}
	// kinematics reported by the API at a place
	struct Kin
	{
		vec U, Ud;
		double zeta, p;
	};
	Kin query(const vec& p)
	{
		Kin k;
		double u[3] = { 9e9, 9e9, 9e9 }, a[3] = { 9e9, 9e9, 9e9 };
		k.zeta = k.p = 9e9;
		vp_true("query", MoorDyn_GetWavesKin((MoorDynWaves)w, p[0], p[1], p[2], u, a, &k.zeta, &k.p, MoorDyn_GetSeafloor(s)) == MOORDYN_SUCCESS);
		k.U = vec(u[0], u[1], u[2]);
		k.Ud = vec(a[0], a[1], a[2]);
		return k;
	}
	vec pb, pr, pp, pl;
	// places every node somewhere
	void place(bool symbolic)
	{
		auto P = [&](const char* n, double x, double y, double z) {
			return symbolic ? vec(vp_sym((std::string(n) + "X").c_str(), x - 2, x + 2), y, vp_sym((std::string(n) + "Z").c_str(), z - 3, z + 3)) : vec(x, y, z);
		};
		pb = P("b", 3, 1, -15), pr = P("r", 6, 2, -20), pp = P("p", 1, 0, -12), pl = P("l", 0.5, 0, -30);
		body(s, 1)->setState(moordyn::XYZQuat(pb, moordyn::quaternion::Identity()), vec6::Zero());
		rod(s, 1)->setState(moordyn::XYZQuat(pr, moordyn::quaternion::Identity()), vec6::Zero());
		point(s, 2)->setState(pp, vec(0, 0, 0));
		line(s, 1)->setState({ pl }, { vec(0, 0, 0) });
	}
	// f(label, position, kinematics in the node)
	template<class F>
	void nodes(F f)
	{
		w->updateWaves();
		auto one = [&](const std::string& lab, const vec& p, moordyn::Waves::NodeKinReturnType k, int i) {
			Kin q;
			q.zeta = std::get<0>(k)[i];
			q.U = std::get<1>(k)[i];
			q.Ud = std::get<2>(k)[i];
			q.p = std::get<3>(k)[i];
			f(lab, p, q);
		};
		one("at the body", pb, w->getWaveKinBody(body(s, 1)->bodyId), 0);
		one("at the rod end A", pr, w->getWaveKinRod(rod(s, 1)->rodId), 0);
		one("at the rod end B", pr + vec(0, 0, 4), w->getWaveKinRod(rod(s, 1)->rodId), 1);
		one("at the fixed point", vec(0, 0, -39), w->getWaveKinPoint(point(s, 1)->pointId), 0);
		one("at the free point", pp, w->getWaveKinPoint(point(s, 2)->pointId), 0);
		one("at the line end A", vec(0, 0, -39), w->getWaveKinLine(line(s, 1)->lineId), 0);
		one("at the line node", pl, w->getWaveKinLine(line(s, 1)->lineId), 1);
		one("at the line end B", pp, w->getWaveKinLine(line(s, 1)->lineId), 2);
	}
};

static void current()
{
	Scene S;
	S.base();
	VGrid G = currents(S.m);
	const bool ext = is("ext", "1");
	if (ext)
		S.m.opt("WaveKin", "1");
	S.go();
	const double T = G.A[3].back(), over = T > 0 ? 1.7 * T : 5;
	double t = vp_sym("t", 0, over);
	// at the very nodes of the time grid floor() is at the mercy of rounding
	S.ts->SetTime(t);
	if (!ext && !is("nodes", "1")) {
		vec p = vec(vp_sym("x", -30, 40), vp_sym("y", -20, 20), vp_sym("z", -50, 5));
		auto k = S.query(p);
		eq3("current velocity", k.U, G.at(p[0], p[1], p[2], t), 1e-5);
		eq3("no acceleration", k.Ud, vec(0, 0, 0), 0);
		vp_eq("flat surface", k.zeta, 0, 0);
		vp_eq("no dynamic pressure", k.p, 0, 0);
		return;
	}
	S.place(!ext);
	Flow F;
	if (ext) {
		F.init(S.s);
		// nodes at the same place see the same water
		for (size_t i = 0; i < F.c.size(); i++) {
			size_t same = 0;
			while (len(F.c[same] - F.c[i]) > 1e-9)
				same++;
			F.U[i] = same < i ? F.U[same] : sym3(nm("eu", (int)i).c_str(), -2, 2);
			F.Ud[i] = same < i ? F.Ud[same] : sym3(nm("ea", (int)i).c_str(), -2, 2);
		}
		F.apply(t);
	}
	S.nodes([&](const std::string& lab, const vec& p, const Scene::Kin& k) {
		vec U = G.at(p[0], p[1], p[2], t), Ud(0, 0, 0);
		if (ext) {
			size_t i = 0;
			while (i < F.c.size() && len(F.c[i] - p) > 1e-9)
				i++;
			vp_true("the place of the node is reported", i < F.c.size());
			vp_assume(i < F.c.size());
			U = U + F.U[i];
			Ud = F.Ud[i];
		}
		eq3("velocity " + lab, k.U, U, 1e-5);
		eq3("acceleration " + lab, k.Ud, Ud, 1e-9);
	});
}

// ---------------------------------------------------------------- waves ----
struct Comp
{
	double w, re, im, beta, k;
};
struct Airy
{
	double ch, sh, cc; // cosh/sinh, sinh/sinh, cosh/cosh of the depth decay
};
static double wavenumber(double w, double h)
{
	double k = WaveNumber(w, 9.81, h);
	if (w == 0)
		return 0;
	// the dispersion relation, at this frequency
	vp_eq("dispersion relation", k * std::tanh(k * h), w * w / 9.81, 1e-6 * w * w);
	vp_true("waves go forward", k > 0);
	return k;
}
static Airy depthDecay(double k, double z, double h)
{
	Airy a;
	if (k == 0)
		return { 0, 1, 1 };
	if (k * h > 89.4) {
		a.ch = a.sh = std::exp(k * z);
		a.cc = std::exp(k * z) + std::exp(-k * (z + 2 * h));
		return a;
	}
	a.ch = std::cosh(k * (z + h)) / std::sinh(k * h);
	a.sh = std::sinh(k * (z + h)) / std::sinh(k * h);
	a.cc = std::cosh(k * (z + h)) / std::cosh(k * h);
	return a;
}
static std::vector<Comp> comps(double h, bool even, double amp)
{
	// the frequencies are concrete, the complex amplitudes are not
	std::vector<Comp> C;
	const int n = iarg("n", 2);
	const bool dirs = is("dirs", "1");
	C.push_back({ 0, 0, 0, 0, 0 });
	for (int i = 1; i <= n; i++) {
		Comp c;
		c.w = even ? 0.7 * i : 0.35 * i + 0.11 * i * i;
		if (is("deep", "1"))
			c.w = 2.1 + 0.3 * i;
		c.re = vp_symtok(nm("re", i).c_str(), 0.05 * amp, (1 + 0.01 * i) * amp);
		c.im = vp_symtok(nm("im", i).c_str(), -(1 + 0.013 * i) * amp, -0.07 * amp);
		c.beta = dirs ? 0.7 * i - 1.0 : 0;
		c.k = wavenumber(c.w, h);
		C.push_back(c);
	}
	return C;
}
static void writeComps(const std::vector<Comp>& C)
{
	std::string t;
	for (auto& c : C) {
		t += num(c.w) + " " + num(c.re) + " " + num(c.im);
		if (c.beta != 0)
			t += " " + num(c.beta);
		t += "\n";
	}
	wfile("wave_frequencies.txt", t);
}
// height of the still water point seen by a particle (Wheeler)
static double stretch(double z, double zeta, double h)
{
	double s = h * (z + h) / (zeta + h) - h;
	return s > 0 ? 0 : s;
}

// components summed at each node
static void airy()
{
	Scene S;
	S.base();
	const double h = is("bare", "1") ? 70 : atof(vp_arg("depth", "40"));
	auto C = comps(h, false, 1.5 / iarg("n", 2));
	writeComps(C);
	S.m.opt("WaveKin", "7");
	VGrid G;
	const bool cur = strlen(vp_arg("cur", "")) > 0;
	if (cur)
		G = currents(S.m);
	S.go();
	double t = vp_sym("t", 0, 20);
	S.ts->SetTime(t);
	auto check = [&](const std::string& lab, const vec& p, const Scene::Kin& k) {
		double zeta = 0;
		std::vector<double> sn(C.size()), cs(C.size());
		for (size_t i = 0; i < C.size(); i++) {
			double A = std::hypot(C[i].re, C[i].im), ph = std::atan2(C[i].im, C[i].re);
			double th = C[i].w * t - C[i].k * (std::cos(C[i].beta) * p[0] + std::sin(C[i].beta) * p[1]) + ph;
			sn[i] = A * std::sin(th);
			cs[i] = A * std::cos(th);
			zeta = zeta + sn[i];
		}
		vp_eq(("elevation" + lab).c_str(), k.zeta, zeta, 1e-9);
		double z = stretch(p[2], zeta, h);
		vec U(0, 0, 0), Ud(0, 0, 0);
		for (size_t i = 1; i < C.size(); i++) {
			Airy a = depthDecay(C[i].k, z, h);
			double u = C[i].w * sn[i] * a.ch, ud = C[i].w * C[i].w * cs[i] * a.ch;
			double cb = std::cos(C[i].beta), sb = std::sin(C[i].beta);
			U = U + vec(u * cb, u * sb, C[i].w * cs[i] * a.sh);
			Ud = Ud + vec(ud * cb, ud * sb, -C[i].w * C[i].w * sn[i] * a.sh);
		}
		if (cur)
			U = U + G.at(p[0], p[1], p[2], t);
		eq3("velocity" + lab, k.U, U, 1e-6);
		eq3("acceleration" + lab, k.Ud, Ud, 1e-6);
	};
	if (is("nodes", "1")) {
		S.place(true);
		S.nodes([&](const std::string& lab, const vec& p, const Scene::Kin& k) { check(" " + lab, p, k); });
		return;
	}
	vec p = vec(vp_sym("x", -30, 40), vp_sym("y", -20, 20), vp_sym("z", -h, 5));
	check("", p, S.query(p));
}

static std::string axisLine(const std::vector<double>& X, bool lattice)
{
	if (X.size() == 1)
		return "0\n0\n";
	if (lattice)
		return "2\n" + num(X[0]) + " " + num(X.back()) + " " + std::to_string(X.size()) + "\n";
	strs v;
	for (double x : X)
		v.push_back(num(x));
	return "1\n" + cat(v) + "\n";
}
// kinematics precomputed in a grid: from a spectrum (2) or a record (3)
static void grid()
{
	Scene S;
	S.base();
	const double h = 40;
	const bool rec = is("from", "record"), lattice = is("lattice", "1");
	std::vector<double> X[3] = { { 0.0 }, { 0.0 }, { 0.0 } };
	const int nx = iarg("nx", 2), ny = iarg("ny", 1), nz = iarg("nz", 2);
	auto axis = [&](std::vector<double>& A, int n, double lo, double hi) {
		if (n > 1) {
			A.clear();
			for (int i = 0; i < n; i++) {
				double f = (double)i / (n - 1);
				A.push_back(lo + (hi - lo) * (lattice ? f : f * (0.6 + 0.4 * f)));
			}
		}
	};
	axis(X[0], nx, -10, 15);
	axis(X[1], ny, -4, 8);
	axis(X[2], nz, -40, 0);
	wfile("water_grid.txt", "--- grid ---\nfor\nwaves\n" + axisLine(X[0], lattice) + axisLine(X[1], lattice) + axisLine(X[2], lattice));
	// one sided spectrum X_k of the elevation at the origin: the elevation at
	// sample j is the real inverse transform
	std::vector<double> re, im, w, kk, beta;
	int nt;
	double dt;
	std::vector<double> elev;
	if (rec) {
		nt = iarg("nt", 6);
		dt = 2;
		std::string f;
		const int sub = iarg("sub", 1), odd = iarg("odd", 0);
		std::vector<double> e;
		for (int i = 0; i < (nt + odd - 1) * sub + 1; i++) {
			e.push_back(vp_symtok(nm("e", i).c_str(), 0.05 + 0.003 * i, 0.9 + 0.003 * i) );
			f += num(dt * i / sub) + " " + num(e[i]) + "\n";
			if (i % sub == 0 && (int)elev.size() < nt)
				elev.push_back(e[i]);
		}
		wfile("wave_elevation.txt", f);
		for (int k = 0; k <= nt / 2; k++) {
			double r = 0, m = 0;
			for (int j = 0; j < nt; j++) {
				r = r + elev[j] * std::cos(2 * PI * k * j / nt);
				m = m - elev[j] * std::sin(2 * PI * k * j / nt);
			}
			re.push_back(r);
			im.push_back(m);
			w.push_back(2 * PI * k / (nt * dt));
			beta.push_back(0);
		}
		S.m.opt("dtWave", "2");
		S.m.opt("WaveKin", "3");
	} else {
		auto C = comps(h, true, 0.5);
		// the last frequency carries nothing (it is the one of Nyquist)
		C.push_back({ 0.7 * C.size(), 0, 0, 0, 0 });
		writeComps(C);
		nt = 2 * ((int)C.size() - 1);
		dt = 2 * PI / 0.7 / nt;
		for (auto& c : C) {
			re.push_back(c.re * nt / 2);
			im.push_back(c.im * nt / 2);
			w.push_back(c.w);
			beta.push_back(c.beta);
		}
		S.m.opt("WaveKin", "2");
	}
	for (double v : w)
		kk.push_back(wavenumber(v, h));
	VGrid G;
	const bool cur = strlen(vp_arg("cur", "")) > 0, unify = is("unify", "1");
	if (cur) {
		G = currents(S.m);
		S.m.opt("UnifyCurrentGrid", unify ? "1" : "0");
	}
	S.go();
	const int nw = nt / 2 + 1;
	auto inv = [&](const std::vector<double>& a, const std::vector<double>& b, int j) {
		double s = a[0] + (j % 2 ? -1.0 : 1.0) * a[nw - 1];
		for (int k = 1; k < nw - 1; k++)
			s = s + 2.0 * (a[k] * std::cos(2 * PI * k * j / nt) - b[k] * std::sin(2 * PI * k * j / nt));
		return s / nt;
	};
	Grid4<double> Z, P;
	VGrid V, A;
	for (int a = 0; a < 3; a++) {
		Z.A[a] = a == 2 ? std::vector<double>{ 0.0 } : X[a];
		P.A[a] = V.A[a] = A.A[a] = X[a];
	}
	for (int j = 0; j < nt; j++)
		Z.A[3].push_back(dt * j);
	P.A[3] = V.A[3] = A.A[3] = Z.A[3];
	Z.alloc(0);
	P.alloc(0);
	V.alloc(vec(0, 0, 0));
	A.alloc(vec(0, 0, 0));
	for (int ix = 0; ix < (int)X[0].size(); ix++)
		for (int iy = 0; iy < (int)X[1].size(); iy++) {
			std::vector<double> a(nw), b(nw);
			for (int k = 0; k < nw; k++) {
				double d = kk[k] * (std::cos(beta[k]) * X[0][ix] + std::sin(beta[k]) * X[1][iy]);
				// (re + i im) exp(-i d)
				a[k] = re[k] * std::cos(d) + im[k] * std::sin(d);
				b[k] = im[k] * std::cos(d) - re[k] * std::sin(d);
			}
			for (int j = 0; j < nt; j++)
				Z(ix, iy, 0, j) = inv(a, b, j);
			for (int iz = 0; iz < (int)X[2].size(); iz++) {
				std::vector<double> q[14];
				for (auto& v : q)
					v.resize(nw);
				for (int k = 0; k < nw; k++) {
					Airy y = depthDecay(kk[k], X[2][iz], h);
					double f[3] = { w[k] * y.ch * std::cos(beta[k]), w[k] * y.ch * std::sin(beta[k]), w[k] * y.sh };
					for (int c = 0; c < 3; c++) {
						// horizontal in phase, vertical a quarter ahead
						double vr = c < 2 ? a[k] * f[c] : -b[k] * f[c], vi = c < 2 ? b[k] * f[c] : a[k] * f[c];
						q[2 * c][k] = vr;
						q[2 * c + 1][k] = vi;
						q[6 + 2 * c][k] = -w[k] * vi;
						q[7 + 2 * c][k] = w[k] * vr;
					}
					q[12][k] = 1025.0 * 9.81 * a[k] * y.cc;
					q[13][k] = 1025.0 * 9.81 * b[k] * y.cc;
				}
				for (int j = 0; j < nt; j++) {
					V(ix, iy, iz, j) = vec(inv(q[0], q[1], j), inv(q[2], q[3], j), inv(q[4], q[5], j));
					A(ix, iy, iz, j) = vec(inv(q[6], q[7], j), inv(q[8], q[9], j), inv(q[10], q[11], j));
					P(ix, iy, iz, j) = inv(q[12], q[13], j);
					// unified: the currents are taken at the points and times of the grid
					if (cur && unify)
						V(ix, iy, iz, j) = V(ix, iy, iz, j) + G.at(X[0][ix], X[1][iy], X[2][iz], dt * j);
				}
			}
		}
	// within the record (or within one of its repetitions)
	double t = vp_sym("t", 0.001 * dt, (nt - 1.001) * dt);
	S.ts->SetTime(t + iarg("lap", 0) * dt * nt);
	vec p = vec(nx > 1 ? vp_sym("x", -20, 30) : 3, ny > 1 ? vp_sym("y", -20, 20) : 2, vp_sym("z", -39.9, 5));
	auto k = S.query(p);
	vp_eq("elevation", k.zeta, Z.at(p[0], p[1], 0, t), 1e-6);
	if (rec && nx == 1)
		for (int j = 0; j < nt - 1; j++) {
			S.ts->SetTime(dt * (j + 0.5));
			vp_eq("the record is reproduced", S.query(vec(0, 0, -1)).zeta, 0.5 * (elev[j] + elev[j + 1]), 1e-6);
		}
	double z = stretch(p[2], k.zeta, h);
	vec U = V.at(p[0], p[1], z, t);
	if (cur && !unify)
		U = U + G.at(p[0], p[1], p[2], t);
	eq3("velocity", k.U, U, 1e-5);
	eq3("acceleration", k.Ud, A.at(p[0], p[1], z, t), 1e-5);
	vp_eq("dynamic pressure", k.p, P.at(p[0], p[1], z, t), 0.1);
}

int main()
{
	std::string mode = vp_arg("mode", "");
	if (mode == "current")
		current();
	else if (mode == "airy")
		airy();
	else if (mode == "grid")
		grid();
	return 0;
}
