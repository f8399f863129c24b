// C17: what the output files and the query functions report
#include "md.hpp"
#include <fstream>
#include <functional>
#include <iostream>
#include <locale>
#include <map>
#include <sstream>

static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }

// every number written to a stream, with its text
struct Written
{
	std::vector<double> v;
	strs txt;
};
static std::map<std::ostream*, Written> W;
static bool spying = true;
extern "C" std::ostream& vp_stream_insert(std::ostream* o, double v) asm("_ZNSo9_M_insertIdEERSoT_");
extern "C" std::ostream& vp_stream_insert(std::ostream* o, double v)
{
	std::string t;
	double c = vp_conc(v);
	std::use_facet<std::num_put<char, std::back_insert_iterator<std::string>>>(std::locale(std::locale::classic(), new std::num_put<char, std::back_insert_iterator<std::string>>)).put(std::back_inserter(t), *o, o->fill(), c);
	o->write(t.data(), t.size());
	if (spying) {
		W[o].v.push_back(v);
		W[o].txt.push_back(t);
	}
	return *o;
}
static strs words(const std::string& s)
{
	std::stringstream ss(s);
	strs r;
	std::string w;
	while (ss >> w)
		r.push_back(w);
	return r;
}
struct Table
{
	strs names;
	std::vector<std::vector<double>> rows; // with their symbolic values
	bool ok = false;
	double at(size_t row, const std::string& n) const
	{
		for (size_t i = 0; i < names.size(); i++)
			if (names[i] == n && row < rows.size() && i < rows[row].size())
				return rows[row][i];
		vp_true(("column " + n + " is written").c_str(), 0);
		return 0;
	}
	bool has(const std::string& n) const
	{
		for (auto& x : names)
			if (x == n)
				return true;
		return false;
	}
};
// the file as text, its numbers taken from the stream they were written to
static Table table(const std::string& f, int headers)
{
	Table T;
	std::ifstream in(sc(f));
	std::string l;
	strs all;
	std::vector<size_t> cnt;
	int n = 0;
	while (std::getline(in, l)) {
		strs w = words(l);
		if (n == 0)
			T.names = w;
		else if (n >= headers) {
			cnt.push_back(w.size());
			all.insert(all.end(), w.begin(), w.end());
		}
		n++;
	}
	const Written* src = nullptr;
	for (auto& k : W)
		if (k.second.txt == all)
			src = &k.second;
	vp_true(("rows of " + f + " are the numbers written").c_str(), src != nullptr || all.empty());
	T.ok = src != nullptr;
	size_t p = 0;
	for (size_t c : cnt) {
		vp_true(("every column of " + f + " has a value").c_str(), c == T.names.size());
		std::vector<double> r;
		for (size_t i = 0; i < c; i++, p++)
			r.push_back(src ? src->v[p] : 0);
		T.rows.push_back(r);
	}
	return T;
}

static void channels()
{
	Model m;
	const bool bend = is("bend", "1");
	m.ltypes.push_back(bend ? "main 0.1 20 1e4 10 500 1.1 0.9 0.2 0.1" : "main 0.1 20 1e4 10 0 1.1 0.9 0.2 0.1");
	m.rtypes.push_back("bar 0.4 80 0.8 1 0.6 0.5");
	m.bodies.push_back("1 Free 3 1 -15 10 20 30 1000 0.1|0.2|-0.5 100 1 0.5 1");
	m.bodies.push_back("2 Coupled 30 1 -10 0 0 0 1000 0 100 1 0 0");
	m.rods.push_back("1 bar Free 6 2 -20 6 2 -16 2 pvf");
	m.rods.push_back("2 bar Coupled 12 2 -20 12 2 -16 1 -");
	m.points.push_back("1 Fixed 0 0 -39.5 0 0 0 0");
	m.points.push_back("2 Free 1 0 -20 100 0.05 0.3 0.2");
	m.points.push_back("3 Body1 0.2 0.1 -1 0 0 0 0");
	m.points.push_back("4 Coupled 20 0 -5 0 0 0 0");
	m.lines.push_back("1 main 1 2 18 3 pvUDtcsdbK");
	m.lines.push_back("2 main R1B 3 5 1 -");
	m.lines.push_back("3 main 2 4 24 2 pt");
	m.lines.push_back("4 main 1 R1A 19 2 -");
	m.basics("euler");
	m.opt("g", 9.81);
	m.opt("WtrDnsty", 1025.0);
	m.opt("WtrDpth", 40.0);
	m.opt("kBot", 1000.0);
	m.opt("cBot", 100.0);
	m.opt("WaveKin", "1");
	const bool units = !is("units", "0");
	m.opt("WriteUnits", units ? "1" : "0");
	typedef std::function<double()> F;
	std::vector<std::pair<std::string, F>> ch;
	MoorDyn s = nullptr;
	moordyn::StateVarDeriv<moordyn::XYZQuat, vec6>* dummy = nullptr;
	(void)dummy;
	vec pacc(0, 0, 0);
	vec6 racc, bacc;
	static const char* X[3] = { "X", "Y", "Z" };
	auto add = [&](const std::string& n, F f) { ch.push_back({ n, f }); };
	// lines
	auto lp = [&](int l, int n, int c) { double r[3]; MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, l), n, r); return r[c]; };
	auto lv = [&](int l, int n, int c) { double r[3]; MoorDyn_GetLineNodeVel(MoorDyn_GetLine(s, l), n, r); return r[c]; };
	auto lf = [&](int l, int n) { double r[3]; MoorDyn_GetLineNodeForce(MoorDyn_GetLine(s, l), n, r); return vec(r[0], r[1], r[2]); };
	auto lt = [&](int l, int n) { double r[3]; MoorDyn_GetLineNodeTen(MoorDyn_GetLine(s, l), n, r); return vec(r[0], r[1], r[2]); };
	auto pp = [&](int l, int c) { double r[3]; MoorDyn_GetPointPos(MoorDyn_GetPoint(s, l), r); return r[c]; };
	auto pv = [&](int l, int c) { double r[3]; MoorDyn_GetPointVel(MoorDyn_GetPoint(s, l), r); return r[c]; };
	auto pf = [&](int l) { double r[3]; MoorDyn_GetPointForce(MoorDyn_GetPoint(s, l), r); return vec(r[0], r[1], r[2]); };
	auto rp = [&](int l, int n, int c) { double r[3]; MoorDyn_GetRodNodePos(MoorDyn_GetRod(s, l), n, r); return r[c]; };
	auto rv = [&](int l, int n, int c) { double r[3]; MoorDyn_GetRodNodeVel(MoorDyn_GetRod(s, l), n, r); return r[c]; };
	auto rf = [&](int l, int c) { double r[6]; MoorDyn_GetRodForce(MoorDyn_GetRod(s, l), r); return r[c]; };
	auto bs = [&](int l, int c) { double r[6], v[6]; MoorDyn_GetBodyState(MoorDyn_GetBody(s, l), r, v); return c < 6 ? r[c] : v[c - 6]; };
	auto bf = [&](int l, int c) { double r[6]; MoorDyn_GetBodyForce(MoorDyn_GetBody(s, l), r); return r[c]; };
	const double D = 180.0 / PI;
	vec romega(0, 0, 0);
	add("FairTen1", [&] { return len(lf(1, 3)); });
	add("AnchTen3", [&] { return len(lf(3, 0)); });
	add("FAIRTEN2", [&] { return len(lf(2, 1)); });
	add("LINE3TENA", [&] { return len(lf(3, 0)); });
	add("LINE3TENB", [&] { return len(lf(3, 2)); });
	add("L1TA", [&] { return len(lf(1, 0)); });
	for (int c = 0; c < 3; c++) {
		add(std::string("L1N1P") + X[c], [&, c] { return lp(1, 1, c); });
		add(std::string("L1N2V") + X[c], [&, c] { return lv(1, 2, c); });
		add(std::string("LINE1N2F") + X[c], [&, c] { return lf(1, 2)[c]; });
		add(std::string("LINE3NBP") + X[c], [&, c] { return lp(3, 2, c); });
		add(std::string("LINE1NAF") + X[c], [&, c] { return lf(1, 0)[c]; });
		add(std::string("LINE3NBF") + X[c], [&, c] { return lf(3, 2)[c]; });
		add(std::string("P2P") + X[c], [&, c] { return pp(2, c); });
		add(std::string("Point2V") + X[c], [&, c] { return pv(2, c); });
		add(std::string("POINT2F") + X[c], [&, c] { return pf(2)[c]; });
		add(std::string("P2A") + X[c], [&, c] { return pacc[c]; });
		add(std::string("P1P") + X[c], [&, c] { return pp(1, c); });
		add(std::string("P4P") + X[c], [&, c] { return pp(4, c); });
		add(std::string("P4F") + X[c], [&, c] { return pf(4)[c]; });
		add(std::string("P3V") + X[c], [&, c] { return pv(3, c); });
		add(std::string("R1P") + X[c], [&, c] { return rp(1, 0, c); });
		add(std::string("Rod1V") + X[c], [&, c] { return rv(1, 0, c); });
		add(std::string("ROD1N1P") + X[c], [&, c] { return rp(1, 1, c); });
		add(std::string("R1NBV") + X[c], [&, c] { return rv(1, 2, c); });
		add(std::string("R1NAP") + X[c], [&, c] { return rp(1, 0, c); });
		for (int n = 0; n <= 2; n++) // (see below)
			add("R1N" + std::to_string(n) + "F" + X[c], [&, c] { return 0.0; });
		add(std::string("R1F") + X[c], [&, c] { return rf(1, c); });
		add(std::string("R1M") + X[c], [&, c] { return rf(1, 3 + c); });
		add(std::string("R1A") + X[c], [&, c] { return racc[c]; });
		if (c < 2) {
			add(std::string("R1RV") + X[c], [&, c] { return romega[c] * D; });
			add(std::string("R1RA") + X[c], [&, c] { return racc[3 + c] * D; });
		}
		add(std::string("B1P") + X[c], [&, c] { return bs(1, c); });
		add(std::string("Body1R") + X[c], [&, c] { return bs(1, 3 + c) * D; });
		add(std::string("B1V") + X[c], [&, c] { return bs(1, 6 + c); });
		add(std::string("BODY1RV") + X[c], [&, c] { return bs(1, 9 + c) * D; });
		add(std::string("B1A") + X[c], [&, c] { return bacc[c]; });
		add(std::string("B1RA") + X[c], [&, c] { return bacc[3 + c] * D; });
		add(std::string("B1F") + X[c], [&, c] { return bf(1, c); });
		add(std::string("B1M") + X[c], [&, c] { return bf(1, 3 + c); });
		add(std::string("B2P") + X[c], [&, c] { return bs(2, c); });
		add(std::string("R2P") + X[c], [&, c] { return rp(2, 0, c); });
	}
	add("L1N1T", [&] { return len(lt(1, 1)); });
	add("L1N2TEN", [&] { return len(lt(1, 2)); });
	add("L1N3TEN", [&] { return len(lf(1, 3)); });
	add("L1N0TEN", [&] { return len(lf(1, 0)); });
	add("P2T", [&] { return len(pf(2)); });
	add("B1TEN", [&] { return std::sqrt(bf(1, 0) * bf(1, 0) + bf(1, 1) * bf(1, 1) + bf(1, 2) * bf(1, 2)); });
	add("R1TENA", [&] { return len(lf(4, 2)); });
	add("R1TENB", [&] { return len(lf(2, 0)); });
	add("R1SUB", [&] { return 1.0; });
	// the rotation that takes the vertical to the rod's axis
	auto rot = [&](int c) {
		vec a(0, 0, 0);
		for (int i = 0; i < 3; i++)
			a[i] = rp(1, 2, i) - rp(1, 0, i);
		double h = std::sqrt(a[0] * a[0] + a[1] * a[1]), phi = std::atan2(h, a[2]);
		return (c ? a[0] : -a[1]) / h * phi * D;
	};
	add("R1RX", [&] { return rot(0); });
	add("Rod1RY", [&] { return rot(1); });
	for (auto& c : ch)
		m.outs.push_back(c.first);
	s = m.create();
	vp_true("create", s != nullptr);
	vp_assume(s != nullptr);
	double x[15] = { 30, 1, -10, 0, 0, 0, 12, 2, -20, 0, 0, 0, 20, 0, -5 }, xd[15] = { 0 };
	unsigned n = 0;
	MoorDyn_NCoupledDOF(s, &n);
	vp_true("coupled degrees of freedom", n == 15);
	vp_assume(n == 15);
	int err = MoorDyn_Init_NoIC(s, x, xd);
	vp_true("init", err == MOORDYN_SUCCESS);
	vp_assume(err == MOORDYN_SUCCESS);
	Flow fl;
	fl.init(s);
	for (size_t i = 0; i < fl.c.size(); i++) {
		fl.U[i] = vec(0.1 * i, 0.2, 0.05);
		fl.Ud[i] = vec(0.01 * i, 0.02, 0.03);
	}
	fl.apply();
	// any state
	// (one kind of quantity symbolic at a time)
	const bool vel = is("sym", "vel"), pos = is("sym", "pos"), att = is("sym", "att");
	auto on = [&](bool f, const char* n, const vec& at, double d) { return f ? sym3(n, -d, d) + at : at; };
	Quat qb{ 0.9, att ? vp_sym("qbx", 0.1, 0.3) : 0.2, 0.2, 0.1 }, qr{ 1.0, 0.1, 0.2, 0 };
	vec b = on(att, "b", vec(3, 1, -15), 1), p = on(pos, "p", vec(1, 0, -20), 0.1), r = on(att, "r", vec(6, 2, -20), 0.5);
	vec vb = on(vel, "vb", vec(0.1, 0.3, -0.2), 0.05), vpt = on(vel, "vp", vec(0.5, -0.2, 0.3), 0.1), vr = on(vel, "vr", vec(0.3, 0.4, 0.2), 0.1), l1 = on(pos, "l", vec(0.3, 0, -33), 0.1),
	    vl = on(vel, "vl", vec(0.2, -0.4, -0.3), 0.1);
	romega = vec(0.3, -0.2, 0.1);
	vec6 v6b, v6r;
	v6b << vb[0], vb[1], vb[2], 0.1, 0.2, 0.3;
	v6r << vr[0], vr[1], vr[2], romega[0], romega[1], romega[2];
	body(s, 1)->setState(moordyn::XYZQuat(b, qb.q().normalized()), v6b);
	rod(s, 1)->setState(moordyn::XYZQuat(r, qr.q().normalized()), v6r);
	point(s, 2)->setState(p, vpt);
	line(s, 1)->setState({ l1, vec(0.6, 0, -26) }, { vl, vec(0.1, 0.2, -0.1) });
	line(s, 2)->setState({}, {});
	line(s, 3)->setState({ vec(9, 0, -10) }, { vec(0.3, 0.1, 0.2) });
	line(s, 4)->setState({ vec(3, 1, -36) }, { vec(0.3, 0.1, 0.2) });
	for (int i = 1; i <= 4; i++)
		line(s, i)->getStateDeriv();
	decltype(rod(s, 1)->getStateDeriv()) dr;
	if (!att)
		dr = rod(s, 1)->getStateDeriv();
	else
		dr.second = vec6::Zero();
	auto dp = point(s, 2)->getStateDeriv();
	decltype(body(s, 1)->getStateDeriv()) db;
	if (!att) // (a symbolic mass matrix is out of reach of the solver)
		db = body(s, 1)->getStateDeriv();
	else
		db.second = vec6::Zero();
	double fc[15];
	((moordyn::MoorDyn*)s)->GetForces(fc);
	pacc = dp.second;
	racc = dr.second;
	bacc = db.second;
	const double t = vp_sym("t", 1, 100);
	err = ((moordyn::MoorDyn*)s)->AllOutput(t, 0.1);
	vp_true("output", err == MOORDYN_SUCCESS);
	// evaluate before the files are closed
	std::vector<double> want;
	for (auto& c : ch)
		want.push_back(c.second());
	vec rodF(0, 0, 0), rodP[3], rodV[3];
	for (int c = 0; c < 3; c++) {
		rodF[c] = rf(1, c);
		for (int n = 0; n <= 2; n++) {
			rodP[n][c] = rp(1, n, c);
			rodV[n][c] = rv(1, n, c);
		}
	}
	// line quantities
	std::vector<vec> P, V, DR, FK, SB, T;
	std::vector<double> K;
	MoorDynLine h = MoorDyn_GetLine(s, 1);
	for (int i = 0; i <= 3; i++) {
		double a[3], k;
		auto g3 = [&](int (*f)(MoorDynLine, unsigned int, double*)) {
			vp_true("line query", f(h, i, a) == MOORDYN_SUCCESS);
			return vec(a[0], a[1], a[2]);
		};
		P.push_back(g3(MoorDyn_GetLineNodePos));
		V.push_back(g3(MoorDyn_GetLineNodeVel));
		DR.push_back(g3(MoorDyn_GetLineNodeDrag));
		FK.push_back(g3(MoorDyn_GetLineNodeFroudeKrilov));
		SB.push_back(g3(MoorDyn_GetLineNodeSeabedForce));
		T.push_back(g3(MoorDyn_GetLineNodeTen));
		MoorDyn_GetLineNodeCurv(h, i, &k);
		K.push_back(k);
	}
	// the seabed only pushes nodes below it, upwards
	vp_eq("no seabed force above the seabed", std::fabs(SB[2][0]) + std::fabs(SB[2][1]) + std::fabs(SB[2][2]), 0, 0);
	vp_eq("no seabed force above the seabed (end)", std::fabs(SB[3][0]) + std::fabs(SB[3][1]) + std::fabs(SB[3][2]), 0, 0);
	// maxima and ends
	double fair, mx;
	MoorDyn_GetLineFairTen(h, &fair);
	vp_eq("fairlead tension query", fair, len(T[3]), 1e-6);
	MoorDyn_GetLineMaxTen(h, &mx);
	for (int i = 0; i <= 3; i++)
		vp_le(("maximum tension covers node " + std::to_string(i)).c_str(), len(T[i]), mx, 1e-6);
	int cea = -1;
	MoorDyn_IsLineConstantEA(h, &cea);
	vp_true("constant stiffness is told", cea == 1);
	float HF[4], VF[4], HA[4], VA[4];
	int nl = 4;
	vp_true("FAST tensions", MoorDyn_GetFASTtens(s, &nl, HF, VF, HA, VA) == MOORDYN_SUCCESS);
	for (int l = 1; l <= 4; l++) {
		const int N = l == 1 ? 3 : l == 2 ? 1 : 2;
		vec a = lf(l, 0), bb = lf(l, N);
		vp_eq(("horizontal anchor tension of line " + std::to_string(l)).c_str(), HA[l - 1], std::sqrt(a[0] * a[0] + a[1] * a[1]), 0.02);
		vp_eq(("horizontal fairlead tension of line " + std::to_string(l)).c_str(), HF[l - 1], std::sqrt(bb[0] * bb[0] + bb[1] * bb[1]), 0.02);
	}
	MoorDyn_Close(s);
	Table M = table("in.out", units ? 2 : 1);
	vp_true("initial and current rows", M.rows.size() >= 1);
	const size_t last = M.rows.size() - 1;
	vp_eq("time column", M.at(last, "Time"), t, 1e-9);
	for (size_t i = 0; i < ch.size(); i++) {
		std::string nm = ch[i].first;
		if (att && (nm.substr(0, 3) == "R1A" || nm.substr(0, 4) == "R1RA" || nm.substr(0, 3) == "B1A" || nm.substr(0, 4) == "B1RA" || nm.substr(0, 5) == "R1TEN" || nm == "R1RX" || nm == "Rod1RY"))
			continue;
		if (!M.has(nm)) {
			for (auto& c : nm)
				c = toupper(c);
		}
		if (nm.substr(0, 3) == "R1N" && nm[4] == 'F') {
			vp_true(("channel " + nm + " is there").c_str(), M.has(nm));
			continue;
		}
		vp_eq(("channel " + ch[i].first).c_str(), M.at(last, nm), want[i], 1e-6);
	}
	// the forces of the rod's nodes (line ends included) make the force of the rod
	if (!att)
		for (int c = 0; c < 3; c++) {
			double sum = 0;
			for (int n = 0; n <= 2; n++)
				sum = sum + M.at(last, "R1N" + std::to_string(n) + "F" + X[c]);
			vp_eq((std::string("node forces of the rod ") + X[c]).c_str(), sum, rodF[c], 1e-6);
		}
	if (units) {
		std::ifstream in(sc("in.out"));
		std::string l1, l2;
		std::getline(in, l1);
		std::getline(in, l2);
		strs n = words(l1), u = words(l2);
		vp_true("a unit for every channel", n.size() == u.size());
		for (size_t i = 0; i < n.size() && i < u.size(); i++) {
			std::string q = n[i], w;
			for (auto& c : q)
				c = toupper(c);
			auto ends = [&](const char* t) { return q.size() >= strlen(t) && q.substr(q.size() - strlen(t)) == t; };
			const std::string ax = q.empty() ? "" : q.substr(0, q.size() - 1);
			auto axis = [&](const char* t) { return q.size() > strlen(t) && strchr("XYZ", q.back()) && ax.substr(ax.size() - strlen(t)) == t; };
			if (q == "TIME")
				w = "(s)";
			else if (ends("SUB"))
				w = "(frac)";
			else if (q.find("TEN") != std::string::npos || ends("T") || ends("TA"))
				w = "(N)";
			else if (axis("RV"))
				w = "(deg/s)";
			else if (axis("RA"))
				w = "(deg/s2)";
			else if (axis("P"))
				w = "(m)";
			else if (axis("V"))
				w = "(m/s)";
			else if (axis("A"))
				w = "(m/s2)";
			else if (axis("F"))
				w = "(N)";
			else if (axis("M"))
				w = "(Nm)";
			else if (axis("R"))
				w = "(deg)";
			vp_true(("unit of " + q).c_str(), u[i] == w);
		}
	}
	{
		Table R = table("in_Rod1.out", units ? 2 : 1);
		const size_t rl = R.rows.size() - 1;
		vp_eq("rod file: time", R.at(rl, "Time"), t, 1e-9);
		static const char* x3[3] = { "x", "y", "z" };
		for (int i = 0; i <= 2; i++) {
			std::string N = "Node" + std::to_string(i);
			for (int c = 0; c < 3; c++) {
				vp_eq(("rod file: " + N + "p" + x3[c]).c_str(), R.at(rl, N + "p" + x3[c]), rodP[i][c], 1e-9);
				vp_eq(("rod file: " + N + "v" + x3[c]).c_str(), R.at(rl, N + "v" + x3[c]), rodV[i][c], 1e-9);
				vp_eq(("rod file: " + N + "F" + x3[c]).c_str(), R.at(rl, N + "F" + x3[c]), M.at(last, "R1N" + std::to_string(i) + "F" + X[c]), 1e-6);
			}
		}
	}
	Table L = table("in_Line1.out", units ? 2 : 1);
	const size_t ll = L.rows.size() - 1;
	vp_eq("line file: time", L.at(ll, "Time"), t, 1e-9);
	static const char* x3[3] = { "x", "y", "z" };
	for (int i = 0; i <= 3; i++) {
		std::string N = "Node" + std::to_string(i);
		for (int c = 0; c < 3; c++) {
			vp_eq(("line file: " + N + "p" + x3[c]).c_str(), L.at(ll, N + "p" + x3[c]), P[i][c], 1e-9);
			vp_eq(("line file: " + N + "v" + x3[c]).c_str(), L.at(ll, N + "v" + x3[c]), V[i][c], 1e-9);
			vp_eq(("line file: " + N + "D" + x3[c]).c_str(), L.at(ll, N + "D" + x3[c]), DR[i][c] + FK[i][c], 1e-6);
			vp_eq(("line file: " + N + "b" + x3[c]).c_str(), L.at(ll, N + "b" + x3[c]), SB[i][c], 1e-6);
		}
		vp_eq(("line file: " + N + "Ku").c_str(), L.at(ll, N + "Ku"), K[i], 1e-9);
	}
	for (int i = 1; i <= 3; i++) {
		std::string N = "Seg" + std::to_string(i);
		vec e = P[i] - P[i - 1], ed = V[i] - V[i - 1];
		double ls = len(e), l0 = 6.0, ld = dot(e, ed) / ls;
		vp_eq(("line file: " + N + "St").c_str(), L.at(ll, N + "St"), ls / l0 - 1.0, 1e-6);
		vp_eq(("line file: " + N + "dSt").c_str(), L.at(ll, N + "dSt"), ld / l0, 1e-6);
		double ten = ls / l0 > 1.0 ? 1e4 * (ls / l0 - 1.0) : 0.0;
		vp_eq(("line file: " + N + "Te").c_str(), L.at(ll, N + "Te"), len(ten * unit(e)), 1e-3);
		for (int c = 0; c < 3; c++)
			vp_eq(("line file: " + N + "c" + x3[c]).c_str(), L.at(ll, N + "c" + x3[c]), 10.0 * ld / l0 * e[c] / ls, 1e-3);
	}
}

// a row is written whenever a multiple of dtOut has been reached since the last step
static void cadence()
{
	Model m;
	m.ltypes.push_back("main 0.1 20 1e4 10 0 0 0 0 0");
	m.points.push_back("1 Fixed 0 0 -39.5 0 0 0 0");
	m.points.push_back("2 Coupled 1 0 -20 0 0 0 0");
	m.lines.push_back("1 main 1 2 18 1 p");
	m.opt("tScheme", "euler");
	m.opt("dtM", 10.0);
	m.opt("TmaxIC", 0.0);
	m.opt("writeLog", "0");
	m.opt("g", 9.81);
	m.opt("WtrDpth", 40.0);
	double dto = 0;
	const bool each = is("each", "1");
	if (!each) {
		dto = vp_symtok("dtOut", 0.31, 0.87);
		m.opt("dtOut", num(dto));
	}
	m.outs.push_back("P2PX");
	m.outs.push_back("L1N0PZ");
	MoorDyn s = m.create();
	vp_true("create", s != nullptr);
	vp_assume(s != nullptr);
	double x[3] = { 1, 0, -20 }, xd[3] = { 0, 0, 0 }, f[3];
	vp_true("init", MoorDyn_Init_NoIC(s, x, xd) == MOORDYN_SUCCESS);
	std::vector<double> tt, xx;
	if (each) {
		tt.push_back(0);
		xx.push_back(1);
	}
	double t = 0, sum = 0, px = 1;
	for (int i = 0; i < atoi(vp_arg("steps", "3")); i++) {
		double dt = vp_sym(("dt" + std::to_string(i)).c_str(), 0.11, 0.93), v = vp_sym(("v" + std::to_string(i)).c_str(), -1, 1);
		xd[0] = v;
		x[0] = px;
		double d = dt;
		vp_true("step", MoorDyn_Step(s, x, xd, f, &t, &d) == MOORDYN_SUCCESS);
		double before = sum;
		sum = sum + dt;
		px = px + v * dt;
		if (!each) { // at the very multiples the rounding decides
			double u = sum / dto, fl = std::floor(u);
			vp_assume_lt(1e-6, u - fl);
			vp_assume_lt(u - fl, 1 - 1e-6);
		}
		if (each || std::floor(before / dto) < std::floor(sum / dto)) {
			tt.push_back(sum);
			xx.push_back(px);
		}
	}
	MoorDyn_Close(s);
	for (std::string fn : { "in.out", "in_Line1.out" }) {
		Table M = table(fn, 2);
		// (whether the initial state is a row is left open with dtOut)
		if (!each && M.rows.size() && M.rows[0].size() && M.rows[0][0] == 0)
			M.rows.erase(M.rows.begin());
		vp_true(("rows of " + fn).c_str(), M.rows.size() == tt.size());
		if (M.rows.size() != tt.size())
			continue;
		for (size_t i = 0; i < tt.size(); i++) {
			vp_eq(("time column of " + fn).c_str(), M.at(i, "Time"), tt[i], 1e-9);
			vp_eq(("position column of " + fn).c_str(), M.at(i, fn == "in.out" ? "P2PX" : "Node1px"), xx[i], 1e-9);
		}
	}
}

int main()
{
	std::string mode = vp_arg("mode", "");
	if (mode == "channels")
		channels();
	else if (mode == "cadence")
		cadence();
	return 0;
}
