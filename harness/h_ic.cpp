// What computing the initial condition leaves behind.
#include "md.hpp"
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }
static const double G = 9.81, RW = 1025.0;

static void opts(Model& m, const char* dyn, const char* scheme = "euler")
{
	m.opt("writeLog", "0");
	m.opt("g", G);
	m.opt("WtrDnsty", RW);
	m.opt("WtrDpth", 2000.0);
	m.opt("tScheme", scheme);
	m.opt("dtM", 5.0);
	m.opt("ICgenDynamic", dyn);
}
static vec ppos(MoorDyn s, int i)
{
	double p[3];
	MoorDyn_GetPointPos(MoorDyn_GetPoint(s, i), p);
	return vec(p[0], p[1], p[2]);
}
static vec pvel(MoorDyn s, int i)
{
	double p[3];
	MoorDyn_GetPointVel(MoorDyn_GetPoint(s, i), p);
	return vec(p[0], p[1], p[2]);
}

// how long the relaxation lasts: a point falling freely beside a resting line
static void duration()
{
	Model m;
	double w, T;
	m.points.push_back("1 Free 0 0 -20 100 0 0 0");
	m.points.push_back("2 Fixed 10 0 -60 0 0 0 0");
	m.points.push_back("3 Fixed 10 0 -15 0 0 0 0");
	m.points.push_back("4 Fixed 20 0 -60 0 0 0 0");
	m.points.push_back("5 Fixed 20 0 -15 0 0 0 0");
	m.ltypes.push_back("main 0.1 20 1e4 50 0 0 0 0 0");
	m.lines.push_back("1 main 2 3 40 1 -");
	m.lines.push_back("2 main 4 5 42 1 -");
	opts(m, "1");
	const bool cut = is("cut", "1");
	if (cut) {
		// stopped by TmaxIC before it can converge
		m.opt("dtIC", 1.0);
		m.opt("TmaxIC", S("Tmax", 0.05, 0.95, &T));
		w = 1.0;
	} else {
		m.opt("dtIC", S("dtIC", 0.2, 2.0, &w));
		m.opt("TmaxIC", 100.0);
		T = 100;
	}
	m.opt("threshIC", 0.001);
	MoorDyn s = m.create();
	vp_assume(s != nullptr);
	vp_true("init", MoorDyn_Init(s, nullptr, nullptr) == MOORDYN_SUCCESS);
	const double h = w / 10;
	double x = -20, v = 0, t = 0;
	for (int n = 0; n < 10 && t < T; n++) {
		x = x + v * h;
		v = v - G * h;
		t = t + h;
	}
	eq3("position after the relaxation", ppos(s, 1), vec(0, 0, x), 1e-6);
	eq3("velocity after the relaxation", pvel(s, 1), vec(0, 0, v), 1e-6);
	eq3("fixed point", ppos(s, 3), vec(10, 0, -15), 1e-9);
	// the clock starts at zero
	double c = 0.3, d = 0.25;
	vp_true("step", MoorDyn_Step(s, nullptr, nullptr, nullptr, &c, &d) == MOORDYN_SUCCESS);
	vp_eq("time after the first step", c, 0.25, 1e-9);
}

// when the relaxation ends: at the first moment at which every fairlead tension differs from each
// of those of the last dtIC by no more than threshIC, whatever the threshold
static Model bobbing()
{
	Model m;
	m.points.push_back("1 Fixed 0 0 -60 0 0 0 0");
	m.points.push_back("2 Free 0 0 -82 500 0 0 0");
	m.points.push_back("3 Fixed 10 0 -60 0 0 0 0");
	m.points.push_back("4 Free 10 0 -81 400 0 0 0");
	m.ltypes.push_back("slow 0.1 20 2e4 4000 0 0 0 0 0");
	m.ltypes.push_back("fast 0.1 20 1e5 4000 0 0 0 0 0");
	// (fairlead: the second end)
	m.lines.push_back("1 slow 1 2 15 1 -");
	m.lines.push_back(is("swap", "1") ? "2 fast 4 3 19 1 -" : "2 fast 3 4 19 1 -");
	opts(m, "1", "rk2");
	m.opt("dtIC", 1.0);
	m.opt("CdScaleIC", 1.0);
	return m;
}
static void converge()
{
	const double th = vp_symtok("thresh", 0.02, 0.6), T = atof(vp_arg("T", "7.95"));
	Model m = bobbing(), k = bobbing();
	m.opt("TmaxIC", T);
	m.opt("threshIC", num(th));
	MoorDyn s = m.create();
	vp_assume(s != nullptr);
	vp_true("init", MoorDyn_Init(s, nullptr, nullptr) == MOORDYN_SUCCESS);
	MoorDyn q = k.create();
	vp_assume(q != nullptr);
	vp_true("init", MoorDyn_Init_NoIC(q, nullptr, nullptr) == MOORDYN_SUCCESS);
	std::vector<double> ten[2];
	double t = 0;
	for (int i = 0; t < T; i++) {
		double h = 0.1, worst = 0;
		vp_true("step", MoorDyn_Step(q, nullptr, nullptr, nullptr, &t, &h) == MOORDYN_SUCCESS);
		const bool ok = i >= 9;
		for (int l = 0; l < 2; l++) {
			double f = 0;
			MoorDyn_GetLineFairTen(MoorDyn_GetLine(q, l + 1), &f);
			ten[l].push_back(f);
			for (int j = i - 9; ok && j < i; j++)
				worst = std::max(worst, std::fabs(f / ten[l][j] - 1.0));
		}
		if (ok && !(worst > th))
			break;
	}
	for (int p : { 2, 4 }) {
		eq3("position when the tensions have settled", ppos(s, p), ppos(q, p), 1e-6);
		eq3("velocity when the tensions have settled", pvel(s, p), pvel(q, p), 1e-6);
	}
}

// the relaxation is a simulation with the drag scaled, and the drag is the
// user's own afterwards
struct Drags
{
	double lt, ln, rn, re, pd, bd;
};
static Model things(const Drags& k, const char* what)
{
	Model m;
	std::string w = what;
	m.rtypes.push_back("bar 0.5 400 " + num(k.rn) + " 0 " + num(k.re) + " 0");
	m.ltypes.push_back("main 0.1 20 1e4 50 0 " + num(k.ln) + " 0 " + num(k.lt) + " 0");
	if (w == "body")
		m.bodies.push_back("1 Free 0 0 -40 0 0 0 500 0 100 0.3 " + num(k.bd) + " 0");
	if (w == "rod")
		m.rods.push_back("1 bar Free 30 0 -40 34 0 -40 2 -");
	m.points.push_back("1 Fixed 10 0 -60 0 0 0 0");
	m.points.push_back("2 Fixed 10 0 -15 0 0 0 0");
	if (w == "point")
		m.points.push_back("3 Free 60 0 -40 100 0.05 " + num(k.pd) + " 0");
	m.lines.push_back(std::string("1 main 1 2 44 ") + (w == "line" ? "2" : "1") + " -");
	opts(m, "1");
	m.opt("dtIC", 0.5); // steps of 0.05
	m.opt("threshIC", 1e-9);
	return m;
}
static void collect(MoorDyn s, const std::string& w, std::vector<double>& o)
{
	if (w == "point") {
		for (const vec& v : { ppos(s, 3), pvel(s, 3) })
			for (int i = 0; i < 3; i++)
				o.push_back(v[i]);
	} else if (w == "line") {
		double p[3];
		MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, 1), 1, p);
		o.insert(o.end(), p, p + 3);
		MoorDyn_GetLineNodeVel(MoorDyn_GetLine(s, 1), 1, p);
		o.insert(o.end(), p, p + 3);
	} else if (w == "rod") {
		double p[3];
		for (int n : { 0, 2 }) {
			MoorDyn_GetRodNodePos(MoorDyn_GetRod(s, 1), n, p);
			o.insert(o.end(), p, p + 3);
			MoorDyn_GetRodNodeVel(MoorDyn_GetRod(s, 1), n, p);
			o.insert(o.end(), p, p + 3);
		}
	} else {
		double r[6], rd[6];
		MoorDyn_GetBodyState(MoorDyn_GetBody(s, 1), r, rd);
		o.insert(o.end(), r, r + 3);
		o.insert(o.end(), rd, rd + 6);
	}
}
static void scaled()
{
	const std::string w = vp_arg("what", "point");
	Drags k;
	k.lt = vp_symtok("Cdt", 0.1, 0.3);
	k.ln = vp_symtok("Cdn", 1.1, 1.6);
	k.rn = vp_symtok("rodCd", 0.7, 0.9);
	k.re = vp_symtok("rodCdEnd", 0.45, 0.6);
	k.pd = vp_symtok("CdA", 2.1, 3.0);
	k.bd = vp_symtok("bodyCdA", 3.1, 4.0);
	const double f = vp_symtok("scale", 1.7, 2.05);
	Model m = things(k, w.c_str()), n = m;
	m.opt("CdScaleIC", f);
	m.opt("TmaxIC", 0.13); // three steps
	MoorDyn a = m.create("a.txt"), b = n.create("b.txt");
	vp_assume(a && b);
	double t = 0, d = 0.05;
	vp_true("init", MoorDyn_Init(a, nullptr, nullptr) == MOORDYN_SUCCESS);
	vp_assume(MoorDyn_Init_NoIC(b, nullptr, nullptr) == MOORDYN_SUCCESS);
	auto scale = [&](double s) {
		moordyn::Line* l = line(b, 1);
		l->Cdn = s ? k.ln * s : k.ln;
		l->Cdt = s ? k.lt * s : k.lt;
		if (w == "rod") {
			rod(b, 1)->Cdn = s ? k.rn * s : k.rn;
			rod(b, 1)->CdEnd = s ? k.re * s : k.re;
		}
		if (w == "point")
			point(b, 3)->pointCdA = s ? k.pd * s : k.pd;
		if (w == "body")
			for (int i = 0; i < 6; i++)
				body(b, 1)->bodyCdA[i] = i < 3 ? (s ? k.bd * s : k.bd) : body(b, 1)->bodyCdA[i] * (s ? s : 1.0 / f);
	};
	scale(f);
	for (int i = 0; i < 3; i++)
		vp_assume(MoorDyn_Step(b, nullptr, nullptr, nullptr, &t, &d) == MOORDYN_SUCCESS);
	std::vector<double> A, B;
	collect(a, w, A);
	collect(b, w, B);
	eqn("state after the relaxation", A, B, A.size(), 1e-6);
	scale(0);
	double ta = 0, tb = t;
	d = 0.02;
	vp_true("step", MoorDyn_Step(a, nullptr, nullptr, nullptr, &ta, &d) == MOORDYN_SUCCESS);
	vp_true("step", MoorDyn_Step(b, nullptr, nullptr, nullptr, &tb, &d) == MOORDYN_SUCCESS);
	vp_eq("time after the first step", ta, 0.02, 1e-9);
	A.clear();
	B.clear();
	collect(a, w, A);
	collect(b, w, B);
	eqn("state after the first step", A, B, A.size(), 1e-6);
}

// coupled and fixed objects stay where they are put, whatever the solver
static void held()
{
	Model m;
	const bool dyn = is("dyn", "1");
	m.ltypes.push_back("main 0.1 20 1e4 50 0 0 0 0 0");
	m.rtypes.push_back("bar 0.5 400 0 0 0 0");
	m.bodies.push_back("1 Coupled 0 0 -40 0 0 0 0 0 0 0 0 0");
	m.bodies.push_back("2 Fixed 0 30 -40 0 0 0 500 0 100 0.3 0 0");
	m.rods.push_back("1 bar Coupled 20 0 -40 20 0 -37 2 -");
	m.points.push_back("1 Fixed 10 0 -60 0 0 0 0");
	m.points.push_back("2 Coupled 10 0 -15 0 0 0 0");
	m.points.push_back("3 Body1 1 2 3 0 0 0 0");
	m.points.push_back("4 Free 80 0 -40 100 0.05 0 0");
	m.points.push_back("5 Body2 1 2 3 0 0 0 0");
	m.lines.push_back("1 main 1 2 44 1 -");
	opts(m, dyn ? "1" : "0");
	m.opt("dtIC", dyn ? 1.0 : 0.1);
	m.opt("TmaxIC", 0.15);
	m.opt("threshIC", 1e-9);
	std::vector<double> x(15, 0.0), v(15, 0.0), f(15, 0.0);
	for (int i = 0; i < 3; i++) {
		const char* ax[3] = { "x", "y", "z" };
		x[i] = vp_sym((std::string("b") + ax[i]).c_str(), -5, 5) - (i == 2 ? 40 : 0);
		x[6 + i] = vp_sym((std::string("r") + ax[i]).c_str(), -5, 5) + (i == 2 ? -40 : i == 0 ? 20 : 0);
	}
	x[12] = 10;
	x[14] = vp_sym("pz", -18, -12);
	MoorDyn s = m.create();
	vp_assume(s != nullptr);
	int err = MoorDyn_Init(s, x.data(), v.data());
	vp_true("init", err == MOORDYN_SUCCESS);
	vp_assume(err == MOORDYN_SUCCESS);
	double r[6], rd[6], q[3];
	MoorDyn_GetBodyState(MoorDyn_GetBody(s, 1), r, rd);
	eqn("coupled body", r, x, 6, 1e-9);
	MoorDyn_GetBodyState(MoorDyn_GetBody(s, 2), r, rd);
	eqn("fixed body", r, vec(0, 30, -40), 3, 1e-9);
	eq3("point on the coupled body", ppos(s, 3), vec(x[0] + 1, x[1] + 2, x[2] + 3), 1e-9);
	eq3("point on the fixed body", ppos(s, 5), vec(1, 32, -37), 1e-9);
	MoorDyn_GetRodNodePos(MoorDyn_GetRod(s, 1), 0, q);
	eq3("coupled rod", vec(q[0], q[1], q[2]), vec(x[6], x[7], x[8]), 1e-9);
	MoorDyn_GetRodNodePos(MoorDyn_GetRod(s, 1), 2, q);
	eq3("coupled rod's other end", vec(q[0], q[1], q[2]), vec(x[6], x[7], x[8] + 3), 1e-9);
	eq3("coupled point", ppos(s, 2), vec(10, 0, x[14]), 1e-9);
	eq3("fixed point", ppos(s, 1), vec(10, 0, -60), 1e-9);
	MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, 1), 1, q);
	eq3("line end on the coupled point", vec(q[0], q[1], q[2]), vec(10, 0, x[14]), 1e-9);
	MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, 1), 0, q);
	eq3("line end on the fixed point", vec(q[0], q[1], q[2]), vec(10, 0, -60), 1e-9);
	double t = 0, d = 0.02;
	vp_true("step", MoorDyn_Step(s, x.data(), v.data(), f.data(), &t, &d) == MOORDYN_SUCCESS);
	vp_eq("time after the first step", t, 0.02, 1e-9);
	eq3("coupled point after the first step", ppos(s, 2), vec(10, 0, x[14]), 1e-9);
}

// the waves are off while the initial condition is computed, and act from then on
static void still()
{
	Model m;
	const bool dyn = is("dyn", "1");
	const double a = vp_symtok("amplitude", 0.6, 1.4), c = vp_symtok("CdA", 2.1, 3.0);
	m.points.push_back("1 Free 0 0 -20 102.5 0.1 " + num(c) + " 0");
	m.points.push_back("2 Fixed 10 0 -60 0 0 0 0");
	m.points.push_back("3 Fixed 10 0 -15 0 0 0 0");
	m.ltypes.push_back("main 0.1 20 1e4 50 0 0 0 0 0");
	m.lines.push_back("1 main 2 3 40 1 -");
	opts(m, dyn ? "1" : "0");
	m.opt("dtIC", dyn ? 1.0 : 0.1);
	m.opt("TmaxIC", 0.15);
	m.opt("CdScaleIC", 4.0);
	m.opt("WaveKin", "7");
	wfile("wave_frequencies.txt", "0 0 0\n0.9 " + num(a) + " 0\n");
	MoorDyn s = m.create("a.txt"), n = m.create("b.txt");
	vp_assume(s && n);
	int err = MoorDyn_Init(s, nullptr, nullptr);
	vp_true("init", err == MOORDYN_SUCCESS);
	vp_assume(err == MOORDYN_SUCCESS);
	vp_assume(MoorDyn_Init_NoIC(n, nullptr, nullptr) == MOORDYN_SUCCESS);
	eq3("position after the initial condition", ppos(s, 1), vec(0, 0, -20), 1e-9);
	eq3("velocity after the initial condition", pvel(s, 1), vec(0, 0, 0), 1e-9);
	double t = 0, t2 = 0, d = 0.02, d2 = 0.02;
	for (int k = 0; k < 2; k++) {
		vp_true("step", MoorDyn_Step(s, nullptr, nullptr, nullptr, &t, &d) == MOORDYN_SUCCESS);
		vp_true("step", MoorDyn_Step(n, nullptr, nullptr, nullptr, &t2, &d2) == MOORDYN_SUCCESS);
		eq3("velocity in the waves", pvel(s, 1), pvel(n, 1), 1e-9);
	}
	vp_true("the waves act", std::fabs(pvel(s, 1)[0]) > 1e-6);
}

int main()
{
	if (is("mode", "duration"))
		duration();
	else if (is("mode", "converge"))
		converge();
	else if (is("mode", "scaled"))
		scaled();
	else if (is("mode", "held"))
		held();
	else if (is("mode", "still"))
		still();
	else
		vp_true("known mode", false);
	return 0;
}
