// Points, bodies: loads, masses, kinematics of what is attached to them.
#include "md.hpp"
using moordyn::XYZQuat;

static double g = 9.81, rw = 1025;
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }

static void start(Model& m, MoorDyn& sys, const std::vector<double>& x = {}, const std::vector<double>& xd = {})
{
	sys = m.create();
	vp_true("create", sys != nullptr);
	vp_assume(sys != nullptr);
	int err = MoorDyn_Init_NoIC(sys, x.empty() ? nullptr : x.data(), xd.empty() ? nullptr : xd.data());
	vp_true("init", err == MOORDYN_SUCCESS);
	vp_assume(err == MOORDYN_SUCCESS);
}
static void env(Model& m, bool ext, bool sym = true)
{
	m.basics();
	if (sym) {
		g = vp_symtok("g", 9, 10);
		rw = vp_symtok("rw", 900, 1100);
	}
	m.opt("g", g);
	m.opt("WtrDnsty", rw);
	m.opt("WtrDpth", 200.0);
	if (ext)
		m.opt("WaveKin", "1");
}
static const char* LT = "main 0.1 20 1e4 10 0 0 0 0 0";
static void lineForce(MoorDyn s, int l, int node, double f[3], double M[3][3])
{
	MoorDyn_GetLineNodeForce(MoorDyn_GetLine(s, l), node, f);
	MoorDyn_GetLineNodeM(MoorDyn_GetLine(s, l), node, M);
}

// -------------------------------------------------------------------- point
static void pointMode()
{
	Model m;
	MoorDyn sys;
	env(m, true, !is("lines", "1"));
	double mass = vp_symtok("mass", 10, 500), V = vp_symtok("V", 0.01, 2), CdA = vp_symtok("CdA", 0.1, 5), Ca = vp_symtok("Ca", 0.1, 2);
	bool lines = is("lines", "1");
	if (lines) {
		mass = 250;
		CdA = 0;
		V = 0;
		m.ltypes.push_back(LT);
		m.points.push_back("1 Fixed 20 0 -50 0 0 0 0");
		m.points.push_back("2 Fixed -20 5 -50 0 0 0 0");
	} else {
		m.points.push_back("1 Fixed 20 0 -50 0 0 0 0");
		m.points.push_back("2 Fixed -20 5 -50 0 0 0 0");
	}
	m.points.push_back(cat({ "3 Free 1 2 -20", num(mass), num(V), num(CdA), num(Ca) }));
	// two segments: the ends of a line differ in direction, so in added mass
	const int ns = is("segs", "2") ? 2 : 1;
	if (lines) {
		if (ns == 2)
			m.ltypes[0] = "main 0.1 20 1e4 10 0 1.2 1.0 0.3 0.4";
		m.lines.push_back(cat({ "1 main 1 3 30", std::to_string(ns), "-" }));
		m.lines.push_back(cat({ "2 main 3 2 25", std::to_string(ns), "-" }));
	}
	start(m, sys);
	Flow fl;
	fl.init(sys);
	vec U = sym3("U", -3, 3), rd = sym3("v", -3, 3), r(0, 0, 0);
	if (lines) {
		double x = vp_sym("x", -3, 3), y = vp_sym("y", -3, 3), z = vp_sym("z", -25, -15);
		r = vec(x, y, z);
		U = vec(0, 0, 0);
	} else {
		double x = vp_sym("x", -3, 3), y = vp_sym("y", -3, 3), z = vp_sym("z", -50, 50);
		r = vec(x, y, z);
		fl.at(vec(1, 2, -20), U, vec(0, 0, 0));
	}
	fl.apply();
	moordyn::Point* p = point(sys, 3);
	p->setState(r, rd);
	if (lines)
		for (int l = 1; l <= 2; l++) {
			if (ns == 2)
				line(sys, l)->setState({ vec(l == 1 ? 9 : -12, 3, -42) }, { vec(0, 0, 0) });
			else
				line(sys, l)->setState({}, {});
			line(sys, l)->getStateDeriv();
		}
	auto d = p->getStateDeriv();
	MoorDynPoint hp = MoorDyn_GetPoint(sys, 3);
	double f[3], M[3][3], q[3];
	MoorDyn_GetPointForce(hp, f);
	MoorDyn_GetPointM(hp, M);
	vec v = U - rd;
	vec F = 0.5 * rw * CdA * len(v) * v;
	F[2] = F[2] + g * (rw * V - mass);
	double Mr[3][3];
	for (int a = 0; a < 3; a++)
		for (int b = 0; b < 3; b++)
			Mr[a][b] = a == b ? mass + rw * V * Ca : 0.0;
	if (lines) {
		double lf[3], lm[3][3];
		int nodes[2] = { ns, 0 };
		for (int l = 0; l < 2; l++) {
			lineForce(sys, l + 1, nodes[l], lf, lm);
			for (int a = 0; a < 3; a++) {
				F[a] = F[a] + lf[a];
				for (int b = 0; b < 3; b++)
					Mr[a][b] = Mr[a][b] + lm[a][b];
			}
			MoorDyn_GetLineNodePos(MoorDyn_GetLine(sys, l + 1), nodes[l], lf);
			eq3("line end follows the point", vec(lf[0], lf[1], lf[2]), r, 1e-9);
			MoorDyn_GetLineNodeVel(MoorDyn_GetLine(sys, l + 1), nodes[l], lf);
			eq3("line end moves with the point", vec(lf[0], lf[1], lf[2]), rd, 1e-9);
			// the line really pulls: tension along the chord
		}
	}
	eq3("force", vec(f[0], f[1], f[2]), F, 1e-3);
	for (int a = 0; a < 3; a++)
		for (int b = 0; b < 3; b++)
			vp_eq("mass", M[a][b], Mr[a][b], 1e-6);
	MoorDyn_GetPointPos(hp, q);
	eq3("reported position", vec(q[0], q[1], q[2]), r, 1e-9);
	MoorDyn_GetPointVel(hp, q);
	eq3("reported velocity", vec(q[0], q[1], q[2]), rd, 1e-9);
	eq3("rate of position", d.first, rd, 1e-12);
	// (with directional added mass Newton's law would invert a symbolic matrix: left to one segment)
	for (int a = 0; a < 3 && ns == 1; a++)
		vp_eq("M a = F", Mr[a][0] * d.second[0] + Mr[a][1] * d.second[1] + Mr[a][2] * d.second[2], F[a], 1e-3);
}

// --------------------------------------------------------------------- body
struct BodyP
{
	double m, V;
	vec cg, I;
	double CdA[6], Ca[3];
	std::string row(const char* type, const char* pos) const
	{
		std::string cd, ca;
		for (int i = 0; i < 6; i++)
			cd += (i ? "|" : "") + num(CdA[i]);
		for (int i = 0; i < 3; i++)
			ca += (i ? "|" : "") + num(Ca[i]);
		return cat({ "1", type, pos, num(m), num(cg[0]) + "|" + num(cg[1]) + "|" + num(cg[2]),
			num(I[0]) + "|" + num(I[1]) + "|" + num(I[2]), num(V), cd, ca });
	}
};

// reference loads of the bare body about its origin, in global axes
static void bodyRef(const BodyP& b, const Quat& Q, const vec& v, const vec& w, const vec& U, double F[6], double M[6][6])
{
	vec cg = Q.rot(b.cg);
	// columns of the rotation
	vec e[3] = { Q.rot(vec(1, 0, 0)), Q.rot(vec(0, 1, 0)), Q.rot(vec(0, 0, 1)) };
	M66 R;
	double mm[3][3] = { { b.m, 0, 0 }, { 0, b.m, 0 }, { 0, 0, b.m } };
	R.add(cg, mm);
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			for (int k = 0; k < 3; k++) {
				R.a[i][j] = R.a[i][j] + e[k][i] * e[k][j] * rw * b.V * b.Ca[k];
				R.a[3 + i][3 + j] = R.a[3 + i][3 + j] + e[k][i] * e[k][j] * b.I[k];
			}
	memcpy(M, R.a, sizeof R.a);
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < 6; j++)
			M[i][j] = R.a[i][j];
	double W = g * (rw * b.V - b.m);
	vec f(0, 0, W);
	vec mo = cross(cg, f);
	vec c = cross(w, cross(w, cg));
	vec vr = U - v;
	double vn = len(vr), wn = len(w);
	vec vl = Q.irot(vr), wl = Q.irot(w);
	vec dl(b.CdA[0] * vl[0], b.CdA[1] * vl[1], b.CdA[2] * vl[2]);
	vec dm(b.CdA[3] * wl[0], b.CdA[4] * wl[1], b.CdA[5] * wl[2]);
	dl = Q.rot(dl);
	dm = Q.rot(dm);
	for (int i = 0; i < 3; i++) {
		F[i] = f[i] - (M[i][0] * c[0] + M[i][1] * c[1] + M[i][2] * c[2]) + 0.5 * rw * vn * dl[i];
		F[3 + i] = mo[i] - 0.5 * rw * wn * dm[i];
	}
}

static void bodyMode()
{
	Model m;
	MoorDyn sys;
	env(m, true);
	std::string what = vp_arg("what", "grav");
	BodyP b;
	bool pin = is("type", "pinned");
	b.m = vp_symtok("mass", 100, 5000);
	b.V = vp_symtok("V", 0.1, 5);
	for (int i = 0; i < 3; i++) {
		const char* ax[3] = { "x", "y", "z" };
		b.cg[i] = vp_symtok((std::string("cg") + ax[i]).c_str(), -2, 2);
		b.I[i] = vp_symtok((std::string("I") + ax[i]).c_str(), 100, 5000);
		b.Ca[i] = vp_symtok((std::string("Ca") + ax[i]).c_str(), 0.1, 2);
		b.CdA[i] = b.CdA[3 + i] = 0;
		if (what == "drag") {
			b.CdA[i] = vp_symtok((std::string("CdA") + ax[i]).c_str(), 0.1, 5);
			b.CdA[3 + i] = vp_symtok((std::string("CdR") + ax[i]).c_str(), 0.1, 5);
		}
	}
	if (what == "solve") {
		rw = 1000;
		m.opt("WtrDnsty", rw);
		for (int i = 0; i < 3; i++)
			b.Ca[i] = 0.5 + 0.2 * i;
		b.m = 1234;
		b.V = 1.7;
		b.cg = vec(0.3, -0.2, 0.7);
		b.I = vec(900, 1300, 2100);
	}
	m.points.push_back("1 Fixed 20 0 -50 0 0 0 0");
	m.bodies.push_back(b.row(pin ? "CoupledPinned" : "Free", "1 2 -20 0 0 0"));
	std::vector<double> x(6, 0.0), xd(6, 0.0);
	x[0] = 1; x[1] = 2; x[2] = -20;
	if (!pin) {
		x.clear();
		xd.clear();
	}
	start(m, sys, x, xd);
	Flow fl;
	fl.init(sys);
	Quat Q = symquat("q");
	vec v = sym3("v", -3, 3), w = sym3("w", -1, 1), U = vec(0, 0, 0), r = sym3("r", -30, 30);
	if (what == "drag")
		U = sym3("U", -3, 3);
	if (what == "solve")
		Q = Quat{ 0.8, 0.3, -0.2, 0.4 };
	fl.at(vec(1, 2, -20), U, vec(0, 0, 0));
	fl.apply();
	moordyn::Body* B = body(sys, 1);
	vec6 v6;
	v6 << v[0], v[1], v[2], w[0], w[1], w[2];
	vec acc(0, 0, 0);
	if (pin) {
		acc = sym3("a", -2, 2);
		vec6 r6, a6;
		r6 << r[0], r[1], r[2], 0, 0, 0;
		a6 << acc[0], acc[1], acc[2], 0, 0, 0;
		B->initiateStep(r6, v6, a6);
		B->updateFairlead(0.0);
	}
	XYZQuat X(r, Q.q());
	B->setState(X, v6);
	std::pair<XYZQuat, vec6> d;
	if (what == "solve" || pin)
		d = B->getStateDeriv();
	else
		B->doRHS();
	double F[6], M[6][6], f[6], MM[6][6];
	bodyRef(b, Q, v, w, U, F, M);
	MoorDynBody hb = MoorDyn_GetBody(sys, 1);
	MoorDyn_GetBodyForce(hb, f);
	MoorDyn_GetBodyM(hb, MM);
	if (what != "solve") {
		eq66("mass", MM, M, 1e-4);
		if (!pin)
			eqn("force", f, F, 6, 1e-3);
	}
	if (what != "solve" && !pin)
		return;
	if (!pin) {
		eq3("rate of position", d.first.pos, v, 1e-12);
		if (what == "solve")
			for (int i = 0; i < 6; i++) {
				double s = 0;
				for (int j = 0; j < 6; j++)
					s = s + M[i][j] * d.second[j];
				vp_eq(("M a = F." + std::to_string(i)).c_str(), s, F[i], 1e-3);
			}
	} else {
		eq3("no free translation", d.first.pos, vec(0, 0, 0), 1e-12);
		// rotation: I alpha = moment - S a ; reported force F - M a - S alpha
		for (int i = 0; i < 3; i++) {
			double s = 0, t = 0;
			for (int j = 0; j < 3; j++) {
				s = s + M[3 + i][j] * acc[j] + M[3 + i][3 + j] * d.second[3 + j];
				t = t + M[i][j] * acc[j] + M[i][3 + j] * d.second[3 + j];
			}
			if (what == "solve") {
				vp_eq(("moment balance." + std::to_string(i)).c_str(), s, F[3 + i], 1e-3);
				vp_eq(("force on the driver." + std::to_string(i)).c_str(), f[i], F[i] - t, 1e-3);
				vp_eq(("no moment on the driver." + std::to_string(i)).c_str(), f[3 + i], 0, 1e-9);
			}
		}
		double p[3];
		MoorDyn_GetBodyPos(hb, p);
		eq3("prescribed position", vec(p[0], p[1], p[2]), r, 1e-9);
		MoorDyn_GetBodyVel(hb, p);
		eq3("prescribed velocity", vec(p[0], p[1], p[2]), v, 1e-9);
	}
	// dq/dt = 1/2 (0,w) q
	auto dq = d.first.quat;
	vp_eq("attitude rate.w", dq.w(), 0.5 * (-w[0] * Q.x - w[1] * Q.y - w[2] * Q.z), 1e-9);
	vp_eq("attitude rate.x", dq.x(), 0.5 * (w[0] * Q.w + w[1] * Q.z - w[2] * Q.y), 1e-9);
	vp_eq("attitude rate.y", dq.y(), 0.5 * (w[1] * Q.w + w[2] * Q.x - w[0] * Q.z), 1e-9);
	vp_eq("attitude rate.z", dq.z(), 0.5 * (w[2] * Q.w + w[0] * Q.y - w[1] * Q.x), 1e-9);
}

// ------------------------------------------ what is attached to a free body
static void attachMode()
{
	Model m;
	MoorDyn sys;
	std::string what = vp_arg("what", "point");
	env(m, false, what == "point");
	const bool hasLine = what == "line" || what == "rodline";
	const bool hasRod = what == "rod" || what == "rodline" || what == "pinrod";
	vec rel(1.5, -0.7, -0.6), relB(1.5, -0.7, 2.4);
	// (the rod is parallel to a body axis; the body attitude is arbitrary)
	double pm = 0, pV = 0, pCd = 0, pCa = 0, rm = 30;
	if (what == "point") {
		rel = vec(vp_symtok("relx", -5, 5), vp_symtok("rely", -5, 5), vp_symtok("relz", -5, 5));
		pm = vp_symtok("pm", 10, 500);
		pV = vp_symtok("pV", 0.01, 2);
		pCd = vp_symtok("pCd", 0.1, 5);
		pCa = vp_symtok("pCa", 0.1, 2);
	}
	if (hasRod) {
		rm = vp_symtok("rm", 5, 50);
		m.rtypes.push_back(cat({ "bar 0.5", num(rm), "0 0 0 0" }));
	}
	if (hasLine)
		m.ltypes.push_back(LT);
	m.bodies.push_back("1 Free 1 2 -20 0 0 0 1000 0 100 0.5 0 0");
	if (hasRod)
		m.rods.push_back(cat({ "1 bar", what == "pinrod" ? "Body1Pinned" : "Body1", num(rel[0]), num(rel[1]), num(rel[2]),
			num(relB[0]), num(relB[1]), num(relB[2]), "2 -" }));
	m.points.push_back("1 Fixed 20 0 -50 0 0 0 0");
	m.points.push_back(cat({ "2 Body1", num(rel[0]), num(rel[1]), num(rel[2]), num(pm), num(pV), num(pCd), num(pCa) }));
	if (what == "line") {
		m.lines.push_back("1 main 1 2 30 1 -");
		m.lines.push_back("2 main 2 1 35 1 -");
	} else if (what == "rodline") {
		m.lines.push_back("1 main 1 R1A 30 1 -");
		m.lines.push_back("2 main R1B 1 35 1 -");
	}
	start(m, sys);
	Quat Q = symquat("q");
	vec v = sym3("v", -3, 3), w = sym3("w", -1, 1), r;
	double x = vp_sym("x", -3, 3), y = vp_sym("y", -3, 3);
	// rods: well above the water, where only the dry weight acts
	double z = hasRod ? vp_sym("z", 20, 40) : vp_sym("z", -40, -10);
	r = vec(x, y, z);
	moordyn::Body* B = body(sys, 1);
	vec6 v6;
	v6 << v[0], v[1], v[2], w[0], w[1], w[2];
	B->setState(XYZQuat(r, Q.q()), v6);
	vec arm = Q.rot(rel), end = r + arm, endv = v + cross(w, arm);
	vec arm2 = Q.rot(relB), end2 = r + arm2, endv2 = v + cross(w, arm2);
	double f[6], p[3];
	auto same = [&](const char* lab, const vec& ref) { eq3(lab, vec(p[0], p[1], p[2]), ref, 1e-7); };
	MoorDyn_GetPointPos(MoorDyn_GetPoint(sys, 2), p);
	same("point rides on the body", end);
	MoorDyn_GetPointVel(MoorDyn_GetPoint(sys, 2), p);
	same("point velocity", endv);
	if (hasRod && what != "pinrod") {
		MoorDynRod h = MoorDyn_GetRod(sys, 1);
		MoorDyn_GetRodNodePos(h, 0, p);
		same("rod end A", end);
		MoorDyn_GetRodNodePos(h, 2, p);
		same("rod end B", end2);
		MoorDyn_GetRodNodeVel(h, 0, p);
		same("rod end A velocity", endv);
		MoorDyn_GetRodNodeVel(h, 2, p);
		same("rod end B velocity", endv2);
	}
	if (what == "pinrod") {
		rod(sys, 1)->setState(XYZQuat::Zero(), vec6::Zero());
		MoorDynRod h = MoorDyn_GetRod(sys, 1);
		MoorDyn_GetRodNodePos(h, 0, p);
		same("pinned rod end A", end);
		MoorDyn_GetRodNodeVel(h, 0, p);
		same("pinned rod end A velocity", endv);
		return;
	}
	if (hasLine) {
		int nodes[2] = { 1, 0 };
		for (int l = 0; l < 2; l++) {
			MoorDynLine h = MoorDyn_GetLine(sys, l + 1);
			bool second = what == "rodline" && l == 1;
			MoorDyn_GetLineNodePos(h, nodes[l], p);
			same("line end position", second ? end2 : end);
			MoorDyn_GetLineNodeVel(h, nodes[l], p);
			same("line end velocity", second ? endv2 : endv);
			MoorDyn_GetLineNodePos(h, 1 - nodes[l], p);
			same("anchor stays", vec(20, 0, -50));
		}
		for (int l = 0; l < 2; l++) {
			line(sys, l + 1)->setState({}, {});
			line(sys, l + 1)->getStateDeriv();
		}
	}
	B->doRHS();
	double F[6], M[6][6], MM[6][6];
	BodyP b;
	b.m = 1000; b.V = 0.5; b.cg = vec(0, 0, 0); b.I = vec(100, 100, 100);
	for (int i = 0; i < 3; i++)
		b.CdA[i] = b.CdA[i + 3] = b.Ca[i] = 0;
	bodyRef(b, Q, v, w, vec(0, 0, 0), F, M);
	M66 R;
	for (int i = 0; i < 6; i++)
		for (int j = 0; j < 6; j++)
			R.a[i][j] = M[i][j];
	vec f3, mo;
	if (what == "point") {
		double mp = pm + rw * pV * pCa;
		double mm[3][3] = { { mp, 0, 0 }, { 0, mp, 0 }, { 0, 0, mp } };
		R.add(arm, mm);
		f3 = -0.5 * rw * pCd * len(endv) * endv;
		f3[2] = f3[2] + g * (rw * pV - pm);
		mo = cross(arm, f3);
		f3 = f3 - mp * cross(w, cross(w, arm));
	} else if (what == "line") {
		// what the point carries (decided with the points) reaches the body
		double pf[3], pmm[3][3];
		MoorDynPoint hp = MoorDyn_GetPoint(sys, 2);
		MoorDyn_GetPointForce(hp, pf);
		MoorDyn_GetPointM(hp, pmm);
		R.add(arm, pmm);
		f3 = vec(pf[0], pf[1], pf[2]);
		mo = cross(arm, f3);
		vec c = cross(w, cross(w, arm));
		for (int i = 0; i < 3; i++)
			f3[i] = f3[i] - (pmm[i][0] * c[0] + pmm[i][1] * c[1] + pmm[i][2] * c[2]);
	} else {
		// rod: uniform mass, dry; thin cylinder inertia added at its centre
		double Lr = len(relB - rel), mt = rm * Lr, rr = 0.25;
		vec ax = (1 / Lr) * (arm2 - arm), c = 0.5 * (arm + arm2);
		double mm[3][3] = { { mt, 0, 0 }, { 0, mt, 0 }, { 0, 0, mt } };
		R.add(c, mm);
		// the rotary inertia of the rod itself is decided with the rods;
		// here: what the body receives is the rod's matrix, moved
		double A6[6][6];
		MoorDyn_GetRodM(MoorDyn_GetRod(sys, 1), A6);
		double G[6][6] = { { 1, 0, 0, 0, arm[2], -arm[1] }, { 0, 1, 0, -arm[2], 0, arm[0] }, { 0, 0, 1, arm[1], -arm[0], 0 },
			{ 0, 0, 0, 1, 0, 0 }, { 0, 0, 0, 0, 1, 0 }, { 0, 0, 0, 0, 0, 1 } };
		for (int i = 3; i < 6; i++)
			for (int j = 3; j < 6; j++) {
				double s = M[i][j];
				for (int k = 0; k < 6; k++)
					for (int l = 0; l < 6; l++)
						if ((k < 3 || k == i) && (l < 3 || l == j))
							s = s + G[k][i] * A6[k][l] * G[l][j];
				R.a[i][j] = s;
			}
		(void)rr; (void)ax;
		f3 = vec(0, 0, -mt * g);
		mo = cross(c, f3);
		f3 = f3 - mt * cross(w, cross(w, c));
		if (what == "rodline") {
			double lf[3], lm[3][3];
			for (int l = 0; l < 2; l++) {
				vec at = l ? arm2 : arm;
				lineForce(sys, l + 1, 1 - l, lf, lm);
				vec fl(lf[0], lf[1], lf[2]);
				f3 = f3 + fl;
				mo = mo + cross(at, fl);
				vec cc = cross(w, cross(w, at));
				for (int i = 0; i < 3; i++)
					f3[i] = f3[i] - (lm[i][0] * cc[0] + lm[i][1] * cc[1] + lm[i][2] * cc[2]);
				// (R.a[3..5][3..5] already has them, from the rod's own matrix)
				M66 E;
				E.add(at, lm);
				for (int i = 0; i < 6; i++)
					for (int j = 0; j < 6; j++)
						if (i < 3 || j < 3)
							R.a[i][j] = R.a[i][j] + E.a[i][j];
			}
		}
	}
	for (int i = 0; i < 3; i++) {
		F[i] = F[i] + f3[i];
		F[3 + i] = F[3 + i] + mo[i];
	}
	MoorDynBody hb = MoorDyn_GetBody(sys, 1);
	MoorDyn_GetBodyForce(hb, f);
	MoorDyn_GetBodyM(hb, MM);
	eqn("force and moment", f, F, 6, 1e-2);
	eq66("mass", MM, R.a, 1e-2);
}

int main()
{
	std::string mode = vp_arg("mode", "");
	if (mode == "point")
		pointMode();
	else if (mode == "attach")
		attachMode();
	else if (mode == "body")
		bodyMode();
	return 0;
}
