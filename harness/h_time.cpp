// Time integrators: the state after each step against the textbook scheme
// driven by the derivative of a second instance of the same system.
#include "md.hpp"
#include "Time.hpp"
#include "State.hpp"
using moordyn::XYZQuat;
using moordyn::quaternion;
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }
static const double G = 9.81, RW = 1025.0;
typedef std::vector<double> V;

static V axpy(const V& a, double k, const V& b)
{
	V r(a.size());
	for (size_t i = 0; i < a.size(); i++)
		r[i] = a[i] + b[i] * k;
	return r;
}
static V mix(const V& a, const V& b, double f)
{
	V r(a.size());
	for (size_t i = 0; i < a.size(); i++)
		r[i] = a[i] * (1.0 - f) + b[i] * f;
	return r;
}

struct Sys
{
	MoorDyn s = nullptr;
	Model m;
	std::vector<int> L, P, CP, R, B, CR; // lines, free/coupled points, free rods, free bodies
	V x;                                 // coupled positions
	static void push(V& v, const vec& a)
	{
		for (int i = 0; i < 3; i++)
			v.push_back(a[i]);
	}
	static vec take(const V& v, size_t& i)
	{
		i += 3;
		return vec(v[i - 3], v[i - 2], v[i - 1]);
	}
	void create(const char* scheme, const char* f, double dtM)
	{
		Model k = m;
		k.opt("tScheme", scheme);
		k.opt("dtM", dtM);
		k.opt("writeLog", "0");
		k.opt("g", G);
		k.opt("WtrDnsty", RW);
		k.opt("WtrDpth", 300.0);
		s = k.create(f);
		vp_true("create", s != nullptr);
		vp_assume(s != nullptr);
		V xd(x.size(), 0.0);
		int err = MoorDyn_Init_NoIC(s, x.empty() ? nullptr : x.data(), x.empty() ? nullptr : xd.data());
		vp_true("init", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
	}
	// current state, as the objects report it
	V state()
	{
		V r;
		for (int l : L) {
			unsigned n;
			MoorDyn_GetLineN(MoorDyn_GetLine(s, l), &n);
			for (unsigned i = 1; i < n; i++)
				push(r, line(s, l)->getNodePos(i));
			for (unsigned i = 1; i < n; i++)
				push(r, line(s, l)->getNodeVel(i));
		}
		for (int p : P) {
			double a[3];
			MoorDyn_GetPointPos(MoorDyn_GetPoint(s, p), a);
			push(r, vec(a[0], a[1], a[2]));
			MoorDyn_GetPointVel(MoorDyn_GetPoint(s, p), a);
			push(r, vec(a[0], a[1], a[2]));
		}
		for (int b : B) {
			auto k = body(s, b)->getState();
			push7(r, k.first, k.second);
		}
		for (int b : R) {
			auto k = rod(s, b)->getState();
			push7(r, k.first, k.second);
		}
		return r;
	}
	static XYZQuat q7(const V& X, size_t& i)
	{
		vec p = take(X, i), v = take(X, i);
		double w = X[i++];
		return XYZQuat(p, quaternion(w, v[0], v[1], v[2]));
	}
	static vec6 v6(const V& X, size_t& i)
	{
		vec6 r;
		for (int k = 0; k < 6; k++)
			r[k] = X[i++];
		return r;
	}
	static void push7(V& r, const XYZQuat& q, const vec6& a)
	{
		push(r, q.pos);
		r.push_back(q.quat.x());
		r.push_back(q.quat.y());
		r.push_back(q.quat.z());
		r.push_back(q.quat.w());
		for (int i = 0; i < 6; i++)
			r.push_back(a[i]);
	}
	void begin(const V& x, const V& xd)
	{
		size_t i = 0, j = 0;
		for (int c : CP) {
			vec p = take(x, i), v = take(xd, j);
			point(s, c)->initiateStep(p, v);
		}
		for (int l : L)
			line(s, l)->updateUnstretchedLength();
	}
	void set(const V& X, double tl)
	{
		size_t i = 0;
		for (int c : CP)
			point(s, c)->updateFairlead(tl);
		for (int l : L)
			line(s, l)->updateUnstretchedLength(tl);
		size_t skip = 0;
		for (int l : L)
			skip += 6 * (line(s, l)->getN() - 1);
		i = skip;
		size_t ib = skip + 6 * P.size(), ir = ib + 13 * B.size();
		for (int b : B) {
			XYZQuat q = q7(X, ib);
			vec6 v = v6(X, ib);
			body(s, b)->setState(q, v);
		}
		for (int b : R) {
			XYZQuat q = q7(X, ir);
			vec6 v = v6(X, ir);
			rod(s, b)->setState(q, v);
		}
		for (int p : P) {
			vec a = take(X, i), v = take(X, i);
			point(s, p)->setState(a, v);
		}
		i = 0;
		for (int l : L) {
			std::vector<vec> r, v;
			unsigned n = line(s, l)->getN();
			for (unsigned k = 1; k < n; k++)
				r.push_back(take(X, i));
			for (unsigned k = 1; k < n; k++)
				v.push_back(take(X, i));
			line(s, l)->setState(r, v);
		}
	}
	V f(const V& X, double tl)
	{
		set(X, tl);
		V d, dp, db, dr;
		for (int l : L) {
			auto k = line(s, l)->getStateDeriv();
			for (auto& a : k.first)
				push(d, a);
			for (auto& a : k.second)
				push(d, a);
		}
		for (int p : P) {
			auto k = point(s, p)->getStateDeriv();
			push(dp, k.first);
			push(dp, k.second);
		}
		for (int r : R) {
			auto k = rod(s, r)->getStateDeriv();
			push7(dr, k.first, k.second);
		}
		for (int b : B) {
			auto k = body(s, b)->getStateDeriv();
			push7(db, k.first, k.second);
		}
		d.insert(d.end(), dp.begin(), dp.end());
		d.insert(d.end(), db.begin(), db.end());
		d.insert(d.end(), dr.begin(), dr.end());
		return d;
	}
};

static double relax(int it, int n, double c0, double c1)
{
	double x = 4.0 * ((it + 1.0) / n - 0.5), y1 = 0.5 * (std::tanh(x) + 1.0);
	return c0 * (1.0 - 1.0 / n) + c1 * (1.0 - y1);
}

struct Ref
{
	Sys& s;
	std::string sch;
	V X;
	std::vector<V> old; // earlier derivatives, newest first
	V g;                // last derivative (predictor / implicit schemes)
	bool asis = false; // the known deviation of the Adams-Bashforth schemes
	Ref(Sys& s, std::string k) : s(s), sch(k) {}
	void step(double tl, double h)
	{
		auto f = [&](const V& x, double t) { return s.f(x, t); };
		if (g.empty())
			g.assign(X.size(), 0.0);
		if (sch == "euler" || sch == "leuler")
			X = axpy(X, h, f(X, tl));
		else if (sch == "rk2") {
			V k1 = f(X, tl), k2 = f(axpy(X, 0.5 * h, k1), tl + 0.5 * h);
			X = axpy(X, h, k2);
		} else if (sch == "rk4") {
			V k1 = f(X, tl);
			V k2 = f(axpy(X, 0.5 * h, k1), tl + 0.5 * h);
			V k3 = f(axpy(X, 0.5 * h, k2), tl + 0.5 * h);
			V k4 = f(axpy(X, h, k3), tl + h);
			V r = X;
			for (size_t i = 0; i < X.size(); i++)
				r[i] = X[i] + (k1[i] + k4[i]) * (h / 6.0) + (k2[i] + k3[i]) * (h / 3.0);
			X = r;
		} else if (sch == "heun") {
			V p = axpy(X, h, g), k = f(p, tl);
			V d(X.size());
			for (size_t i = 0; i < X.size(); i++)
				d[i] = k[i] - g[i];
			X = axpy(p, 0.5 * h, d);
			g = k;
		} else if (sch.substr(0, 2) == "ab" || sch.substr(0, 3) == "lab") {
			size_t order = sch.back() - '0';
			static const double c[4][4] = { { 1 },
				                              { 3.0 / 2, -1.0 / 2 },
				                              { 23.0 / 12, -16.0 / 12, 5.0 / 12 },
				                              { 55.0 / 24, -59.0 / 24, 37.0 / 24, -9.0 / 24 } };
			old.insert(old.begin(), f(X, tl));
			size_t n = std::min(old.size(), order);
			if (asis) {
				static const double c0[5] = { 1, 1.5, 23.0 / 12, 55.0 / 24, 1901.0 / 720 };
				double c = c0[std::min(old.size() - 1, order)];
				X = axpy(X, h * c, old[0]);
				if (old.size() > 1)
					X = axpy(X, h * (1 - c), old[1]);
				return;
			}
			for (size_t j = 0; j < n; j++)
				X = axpy(X, h * c[n - 1][j], old[j]);
		} else {
			// beulerN, midpointN, acaN
			int n = sch.back() - '0';
			if (sch.substr(0, 3) == "aca") {
				V k = g, kp = g;
				for (int i = 0; i < n; i++) {
					k = f(newmark(k, h), tl + h);
					if (i < n - 1)
						kp = k = mix(k, kp, relax(i, n, 0.9, 0.15));
				}
				X = newmark(k, h);
				g = k;
			} else {
				double c = sch[0] == 'b' ? 1.0 : 0.5;
				V gp = g;
				for (int i = 0; i < n; i++) {
					g = f(axpy(X, c * h, g), tl + c * h);
					if (i < n - 1)
						gp = g = mix(g, gp, relax(i, n, 0.9, 0.0));
				}
				X = axpy(X, h, g);
			}
		}
	}
	// points and line nodes only
	V newmark(const V& k, double h)
	{
		V r = X;
		size_t i = 0;
		auto blk = [&](size_t n) {
			for (size_t j = i; j < i + n; j++) {
				r[j] = X[j] + (g[j] + h * (0.25 * g[j + n] + 0.25 * k[j + n])) * h;
				r[j + n] = X[j + n] + (0.5 * g[j + n] + 0.5 * k[j + n]) * h;
			}
			i += 2 * n;
		};
		for (int l : s.L)
			blk(3 * (line(s.s, l)->getN() - 1));
		for (size_t p = 0; p < s.P.size(); p++)
			blk(3);
		return r;
	}
};

// lines and points: coupled end 1 -- line -- free point 2 -- line -- fixed 3
static void chain()
{
	Sys a, b;
	std::string sch = vp_arg("scheme", "euler");
	const int steps = atoi(vp_arg("steps", "2")), sub = atoi(vp_arg("sub", "1"));
	const bool plumb = is("plumb", "1");
	for (Sys* k : { &a, &b }) {
		k->m.ltypes.push_back("main 0.1 20 1e4 50 0 0 0 0 0");
		k->m.points.push_back("1 Coupled 0 0 -20 0 0 0 0");
		k->m.points.push_back(plumb ? "2 Free 0 0 -60 30 0 0 0" : "2 Free 3 2 -60 30 0 0 0");
		k->m.points.push_back(plumb ? "3 Fixed 0 0 -100 0 0 0 0" : "3 Fixed 10 5 -100 0 0 0 0");
		k->m.lines.push_back("1 main 1 2 38 2 -");
		k->m.lines.push_back(is("even", "1") ? "2 main 2 3 38 2 -" : "2 main 2 3 39 1 -");
		k->L = { 1, 2 };
		k->P = { 2 };
		k->CP = { 1 };
		k->x = { 0, 0, -20 };
	}
	const bool ab = sch.find("ab") != std::string::npos;
	const double h = is("h", "") ? vp_sym("h", 0.002, 0.01) : atof(vp_arg("h", ""));
	double dtM = atof(vp_arg("dtM", "1"));
	a.create(sch.c_str(), "a.txt", dtM);
	b.create("euler", "b.txt", 1);
	const bool ul = is("reel", "1");
	if (ul) {
		const double w = vp_sym("reel", -1, 1);
		for (Sys* k : { &a, &b })
			MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(k->s, 1), w);
	}
	Ref ref(b, sch), ref2(b, sch);
	ref.X = ref2.X = b.state();
	ref2.asis = true;
	double t = 0, dt = h;
	V x = { 0, 0, -20 }, v(3);
	for (int n = 0; n < steps; n++) {
		std::string k = std::to_string(n + 1);
		v = plumb ? V{ 0, 0, vp_sym(("v" + k).c_str(), -2, 2) }
		          : V{ vp_sym(("vx" + k).c_str(), -2, 2), vp_sym(("vy" + k).c_str(), -2, 2), vp_sym(("vz" + k).c_str(), -2, 2) };
		double f[3];
		int err = MoorDyn_Step(a.s, x.data(), v.data(), f, &t, &dt);
		vp_true("step", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
		vp_eq("time", t, (n + 1.0) * h, 1e-9);
		vp_eq("dt", dt, h, 1e-12);
		b.begin(x, v);
		for (int j = 0; j < sub; j++) {
			double hs = sub == 1 ? h : j < sub - 1 ? dtM : h - (sub - 1) * dtM;
			ref.step(j * dtM, hs);
			if (ab)
				ref2.step(j * dtM, hs);
		}
		V got = a.state();
		eqn("state after step " + k, got, ref.X, got.size(), 1e-6);
		if (ab)
			for (size_t i = 0; i < got.size(); i++)
				vp_eq(("known state after step " + k + "." + std::to_string(i)).c_str(), (got[i] - ref.X[i]) * (got[i] - ref2.X[i]), 0, 1e-12);
		for (int i = 0; i < 3; i++)
			x[i] = x[i] + v[i] * h;
	}
}

// constant acceleration: a free point with mass and volume only
static void constant()
{
	Model m;
	std::string sch = vp_arg("scheme", "euler");
	const int steps = atoi(vp_arg("steps", "4"));
	const double mass = vp_symtok("mass", 50, 500), vol = vp_symtok("vol", 0.01, 0.4);
	m.points.push_back(cat({ "1 Free 1 2 -100", num(mass), num(vol), "0 0" }));
	m.points.push_back("2 Fixed 10 5 -200 0 0 0 0");
	m.points.push_back("3 Fixed 10 5 -150 0 0 0 0");
	m.ltypes.push_back("main 0.1 20 1e4 50 0 0 0 0 0");
	m.lines.push_back("1 main 2 3 60 1 -");
	m.opt("tScheme", sch);
	m.opt("dtM", 1.0);
	m.opt("writeLog", "0");
	m.opt("g", G);
	m.opt("WtrDnsty", RW);
	m.opt("WtrDpth", 300.0);
	MoorDyn s = m.create();
	vp_assume(s != nullptr);
	vp_assume(MoorDyn_Init_NoIC(s, nullptr, nullptr) == MOORDYN_SUCCESS);
	const double a = G * (RW * vol - mass) / mass, h = vp_sym("h", 0.01, 0.1);
	double z = 0, w = 0, t = 0, dt = h;
	for (int n = 0; n < steps; n++) {
		int err = MoorDyn_Step(s, nullptr, nullptr, nullptr, &t, &dt);
		vp_true("step", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
		vp_eq("time", t, (n + 1.0) * h, 1e-9);
		double p[3], v[3];
		MoorDyn_GetPointPos(MoorDyn_GetPoint(s, 1), p);
		MoorDyn_GetPointVel(MoorDyn_GetPoint(s, 1), v);
		if (n > 1) { // after the start up
			// Anderson iterations stop at a residual of 0.1 m/s2 here
			const bool and_ = sch[0] == 'a' && sch[1] == 'n', ab = sch[0] == 'a' && sch[1] == 'b';
			vp_eq("velocity increment", v[2] - w, h * a, and_ ? 0.012 : 1e-7);
			double dz = sch[0] == 'b' ? h * v[2] : h * w + 0.5 * h * h * a;
			if (!ab && !and_)
				vp_eq("displacement", p[2] - z, dz, 1e-7);
			if (sch[0] == 'w')
				vp_le("displacement of Wilson", std::fabs(p[2] - z - dz), 1.4 * h * h * std::fabs(a), 1e-6);
		}
		vp_eq("no sideways motion", p[0], 1, 1e-9);
		z = p[2];
		w = v[2];
	}
}

// a body left alone in a tilted attitude stays there
static void rest()
{
	Model m;
	std::string sch = vp_arg("scheme", "euler");
	const int steps = atoi(vp_arg("steps", "2"));
	double e[3];
	strs ang;
	static const char* nm[3] = { "roll", "pitch", "yaw" };
	for (int k = 0; k < 3; k++)
		if (k == atoi(vp_arg("axis", "0")))
			ang.push_back(S(nm[k], 5 + 20 * k, 20 + 20 * k, &e[k]));
		else
			ang.push_back(num(e[k] = 10 + 15 * k));
	const double mass = 512.5; // neutrally buoyant
	m.bodies.push_back(cat({ "1 Free 0 0 -20", cat(ang), num(mass), "0 100 0.5 0 0" }));
	m.rtypes.push_back("bar 0.5 40 0 0 0 0");
	m.points.push_back("1 Body1 1 2 3 0 0 0 0");
	m.points.push_back("2 Fixed 10 5 -200 0 0 0 0");
	m.points.push_back("3 Fixed 10 5 -150 0 0 0 0");
	m.ltypes.push_back("main 0.1 20 1e4 50 0 0 0 0 0");
	m.lines.push_back("1 main 2 3 60 1 -");
	m.opt("tScheme", sch);
	m.opt("dtM", 1.0);
	m.opt("writeLog", "0");
	m.opt("g", G);
	m.opt("WtrDnsty", RW);
	m.opt("WtrDpth", 300.0);
	const bool stat = is("stationary", "1");
	m.opt("ICgenDynamic", "0");
	m.opt("dtIC", 0.1);
	m.opt("TmaxIC", 0.1);
	MoorDyn s = m.create();
	vp_assume(s != nullptr);
	auto at = [&]() {
		double p[3];
		MoorDyn_GetPointPos(MoorDyn_GetPoint(s, 1), p);
		return vec(p[0], p[1], p[2]);
	};
	double h = 0.05, t = 0;
	if (stat) {
		vp_assume(MoorDyn_Init(s, nullptr, nullptr) == MOORDYN_SUCCESS);
		vp_true("step", MoorDyn_Step(s, nullptr, nullptr, nullptr, &t, &h) == MOORDYN_SUCCESS);
	} else
		vp_assume(MoorDyn_Init_NoIC(s, nullptr, nullptr) == MOORDYN_SUCCESS);
	// Rx Ry Rz
	vec q(1, 2, 3);
	for (int k = 2; k >= 0; k--) {
		double a = e[k] * (PI / 180), c = std::cos(0.5 * a), sn = std::sin(0.5 * a), C = c * c - sn * sn, Sn = 2 * sn * c;
		int i = (k + 1) % 3, j = (k + 2) % 3;
		double u = C * q[i] - Sn * q[j], w = Sn * q[i] + C * q[j];
		q[i] = u;
		q[j] = w;
	}
	q[2] = q[2] - 20;
	eq3("attitude at the start", at(), q, 1e-6);
	if (stat)
		return;
	for (int n = 0; n < steps; n++) {
		vp_true("step", MoorDyn_Step(s, nullptr, nullptr, nullptr, &t, &h) == MOORDYN_SUCCESS);
		eq3("attitude after step " + std::to_string(n + 1), at(), q, 1e-6);
	}
}

// the vector space of states
static double cnt = 0;
static double sy()
{
	char b[32];
	snprintf(b, sizeof b, "s%d", (int)cnt);
	cnt += 1;
	return vp_sym(b, -2, 2);
}
static vec s3() { double a = sy(), b = sy(), c = sy(); return vec(a, b, c); }
static vec6 s6() { vec6 r; for (int i = 0; i < 6; i++) r[i] = sy(); return r; }
static XYZQuat s7() { vec p = s3(), q = s3(); double w = sy(); return XYZQuat(p, quaternion(w, q[0], q[1], q[2])); }
static moordyn::DMoorDynStateDt dsym()
{
	moordyn::DMoorDynStateDt d;
	for (int n : { 1, 2 }) {
		moordyn::DLineStateDt l;
		for (int i = 0; i < n; i++) {
			l.vel.push_back(s3());
			l.acc.push_back(s3());
		}
		d.lines.push_back(l);
	}
	moordyn::DPointStateDt p;
	p.vel = s3();
	p.acc = s3();
	d.points.push_back(p);
	for (int k = 0; k < 2; k++) {
		moordyn::DRodStateDt r;
		r.vel = s7();
		r.acc = s6();
		if (k)
			d.rods.push_back(r);
		else
			d.bodies.push_back(r);
	}
	return d;
}
template<class T>
static void f7(V& r, const T& q)
{
	Sys::push(r, q.pos);
	r.push_back(q.quat.x());
	r.push_back(q.quat.y());
	r.push_back(q.quat.z());
	r.push_back(q.quat.w());
}
static V flat(const moordyn::DMoorDynStateDt& d, bool acc)
{
	V r;
	for (auto& l : d.lines)
		for (auto& v : acc ? l.acc : l.vel)
			Sys::push(r, v);
	for (auto& p : d.points)
		Sys::push(r, acc ? p.acc : p.vel);
	for (auto* k : { &d.rods, &d.bodies })
		for (auto& o : *k)
			if (acc)
				for (int i = 0; i < 6; i++)
					r.push_back(o.acc[i]);
			else
				f7(r, o.vel);
	return r;
}
static V flat(const moordyn::MoorDynState& d, bool vel)
{
	V r;
	for (auto& l : d.lines)
		for (auto& v : vel ? l.vel : l.pos)
			Sys::push(r, v);
	for (auto& p : d.points)
		Sys::push(r, vel ? p.vel : p.pos);
	for (auto* k : { &d.rods, &d.bodies })
		for (auto& o : *k)
			if (vel)
				for (int i = 0; i < 6; i++)
					r.push_back(o.vel[i]);
			else
				f7(r, o.pos);
	return r;
}
static void algebra()
{
	auto a = dsym(), b = dsym();
	const double k = vp_sym("k", -1, 1), c = vp_sym("c", -1, 1);
	auto st = a * k, su = b * c;
	for (int w = 0; w < 2; w++) {
		V A = flat(a, w), B = flat(b, w);
		std::string o = w ? " (rates)" : " (positions)";
		V sum, dif, ap, am, sc, mx, smx;
		for (size_t i = 0; i < A.size(); i++) {
			sum.push_back(A[i] + B[i]);
			dif.push_back(A[i] - B[i]);
			sc.push_back(A[i] * k);
			ap.push_back(A[i] * k + B[i] * c);
			am.push_back(A[i] * k - B[i] * c);
			mx.push_back(A[i] * (1 - c) + B[i] * c);
			smx.push_back(A[i] * k * (1 - k) + B[i] * c * k);
		}
		eqn("sum of derivatives" + o, flat(a + b, w), sum, A.size(), 1e-9);
		eqn("difference of derivatives" + o, flat(a - b, w), dif, A.size(), 1e-9);
		eqn("scaled derivative" + o, flat(st, w), sc, A.size(), 1e-9);
		eqn("sum of states" + o, flat(st + su, w), ap, A.size(), 1e-9);
		eqn("difference of states" + o, flat(st - su, w), am, A.size(), 1e-9);
		auto x = a;
		x.Mix(b, c);
		eqn("mix of derivatives" + o, flat(x, w), mx, A.size(), 1e-9);
		auto y = st;
		y.Mix(su, k);
		eqn("mix of states" + o, flat(y, w), smx, A.size(), 1e-9);
	}
}

// another scheme half way: time, state and water go on
static void swap()
{
	Sys a, b;
	std::string from = vp_arg("from", "rk2"), to = vp_arg("to", "heun");
	double u0 = vp_symtok("u0", 0.31, 0.62), u1 = vp_symtok("u1", 0.71, 1.32);
	for (Sys* k : { &a, &b }) {
		k->m.ltypes.push_back("main 0.1 20 1e4 50 0 0 0 0 0");
		k->m.points.push_back("1 Coupled 0 0 -20 0 0 0 0");
		k->m.points.push_back("2 Free 0 0 -60 30 0 0 0");
		k->m.points.push_back("3 Fixed 0 0 -100 0 0 0 0");
		k->m.lines.push_back("1 main 1 2 38 2 -");
		k->m.lines.push_back("2 main 2 3 39 1 -");
		k->m.opt("Currents", "2");
		k->L = { 1, 2 };
		k->P = { 2 };
		k->CP = { 1 };
		k->x = { 0, 0, -20 };
	}
	std::string t = "--- currents ---\nprofile\n\n\n  -100 -10\n\n0.0 " + num(u0) + " " + num(u0) + "\n4.0 " + num(u1) + " " + num(u1) + "\n";
	wfile("current_profile_dynamic.txt", t);
	const double h = vp_sym("h", 0.002, 0.01);
	a.create(from.c_str(), "a.txt", 1);
	b.create("euler", "b.txt", 1);
	Ref ref(b, from);
	ref.X = b.state();
	double tm = 0;
	V x = { 0, 0, -20 };
	for (int n = 0; n < 2; n++) {
		std::string k = std::to_string(n + 1);
		V v = { 0, 0, vp_sym(("v" + k).c_str(), -2, 2) };
		double f[3], d = h;
		int err = MoorDyn_Step(a.s, x.data(), v.data(), f, &tm, &d);
		vp_true("step", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
		vp_eq("time", tm, (n + 1.0) * h, 1e-9);
		vp_eq("clock", ((moordyn::MoorDyn*)a.s)->GetTimeScheme()->GetTime(), (n + 1.0) * h, 1e-9);
		b.begin(x, v);
		ref.step(0, h);
		V got = a.state();
		eqn("state after step " + k, got, ref.X, got.size(), 1e-6);
		double U[3], Ud[3], z, p;
		err = MoorDyn_GetWavesKin(MoorDyn_GetWaves(a.s), 3, 4, -50, U, Ud, &z, &p, nullptr);
		vp_true("water kinematics", err == MOORDYN_SUCCESS);
		vp_eq("current at the time of the simulation", U[0], u0 + (u1 - u0) * ((n + 1.0) * h / 4.0), 1e-6);
		for (int i = 0; i < 3; i++)
			x[i] = x[i] + v[i] * h;
		if (n)
			break;
		err = MoorDyn_SetTimeScheme(a.s, to.c_str());
		vp_true("scheme set", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
		eqn("state after setting the scheme", a.state(), got, got.size(), 1e-9);
		vp_eq("clock after setting the scheme", ((moordyn::MoorDyn*)a.s)->GetTimeScheme()->GetTime(), h, 1e-9);
		ref.sch = to;
	}
}

int main()
{
	std::string mode = vp_arg("mode", "");
	if (mode == "switch")
		swap();
	if (mode == "chain")
		chain();
	else if (mode == "constant")
		constant();
	else if (mode == "rest")
		rest();
	else if (mode == "algebra")
		algebra();
	return 0;
}
