// Queries by index and by handle: answered exactly for what exists.
#include "md.hpp"
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }
static const int OK = MOORDYN_SUCCESS, BAD = MOORDYN_INVALID_VALUE;

static MoorDyn make(bool coupled, int* N)
{
	Model m;
	m.ltypes.push_back("main 0.1 20 1e4 10 0 0 0 0 0");
	m.rtypes.push_back("bar 0.5 40 0 0 0 0");
	m.bodies.push_back("1 Free 0 0 -20 0 0 0 500 0 100 0.5 0 0");
	m.bodies.push_back("2 Free 0 40 -20 0 0 0 400 0 100 0.5 0 0");
	m.rods.push_back("1 bar Free 10 0 -20 10 0 -16 3 -");
	m.rods.push_back("2 bar Free 30 0 -20 30 0 -16 2 -");
	m.points.push_back("1 Fixed 0 0 -60 0 0 0 0");
	m.points.push_back("2 Body1 0 0 0 0 0 0 0");
	m.points.push_back(std::string("3 ") + (coupled ? "Coupled" : "Fixed") + " 10 0 -60 0 0 0 0");
	m.lines.push_back("1 main 1 2 38 3 -");
	m.lines.push_back("2 main 3 R1A 39 2 -");
	m.lines.push_back("3 main 2 1 41 1 -");
	m.opt("dtM", 0.01);
	m.opt("writeLog", "0");
	m.opt("g", 9.81);
	m.opt("WtrDpth", 200.0);
	N[0] = 3;
	N[1] = 2;
	return m.create();
}
static unsigned any(const char* n) { return (unsigned)vp_symint(n, -2147483647 - 1, 2147483647); }

// objects by number
static void index()
{
	int N[2];
	MoorDyn s = make(false, N);
	vp_assume(s != nullptr);
	unsigned nb, nr, np, nl;
	vp_true("numbers", MoorDyn_GetNumberBodies(s, &nb) == OK && MoorDyn_GetNumberRods(s, &nr) == OK && MoorDyn_GetNumberPoints(s, &np) == OK &&
	                       MoorDyn_GetNumberLines(s, &nl) == OK && nb == 2 && nr == 2 && np == 3 && nl == 3);
	int id = -7;
	unsigned i = 0;
	const std::string K = vp_arg("kind", "");
	if (K == "body") {
	i = any("body");
	MoorDynBody b = MoorDyn_GetBody(s, i);
	if (i >= 1 && i <= 2)
		vp_true("body", b && MoorDyn_GetBodyID(b, &id) == OK && id == (int)i);
	else
		vp_true("no such body", !b);
	}
	
	if (K == "rod") {
	i = any("rod");
	MoorDynRod r = MoorDyn_GetRod(s, i);
	if (i >= 1 && i <= 2)
		vp_true("rod", r && MoorDyn_GetRodID(r, &id) == OK && id == (int)i);
	else
		vp_true("no such rod", !r);
	}
	
	if (K == "point") {
	i = any("point");
	MoorDynPoint p = MoorDyn_GetPoint(s, i);
	if (i >= 1 && i <= 3)
		vp_true("point", p && MoorDyn_GetPointID(p, &id) == OK && id == (int)i);
	else
		vp_true("no such point", !p);
	}
	
	if (K == "line") {
	i = any("line");
	MoorDynLine l = MoorDyn_GetLine(s, i);
	if (i >= 1 && i <= 3)
		vp_true("line", l && MoorDyn_GetLineID(l, &id) == OK && id == (int)i);
	else
		vp_true("no such line", !l);
	}
	if (K != "attached")
		return;
	i = any("attached");
	MoorDynLine al = nullptr;
	int e = -5;
	unsigned na = 0;
	vp_true("lines attached", MoorDyn_GetPointNAttached(MoorDyn_GetPoint(s, 2), &na) == OK && na == 2);
	int err = MoorDyn_GetPointAttached(MoorDyn_GetPoint(s, 2), i, &al, &e);
	if (i == 0)
		vp_true("first line attached", err == OK && al == MoorDyn_GetLine(s, 1) && e == moordyn::ENDPOINT_B);
	else if (i == 1)
		vp_true("second line attached", err == OK && al == MoorDyn_GetLine(s, 3) && e == moordyn::ENDPOINT_A);
	else
		vp_true("no such attached line", err == BAD && !al && e == -5);
}

// nodes of lines and rods
static void nodes()
{
	int N[2];
	MoorDyn s = make(false, N);
	vp_assume(s != nullptr);
	vp_assume(MoorDyn_Init_NoIC(s, nullptr, nullptr) == OK);
	const bool rods = is("what", "rod");
	MoorDynLine L = MoorDyn_GetLine(s, 1);
	MoorDynRod R = MoorDyn_GetRod(s, 1);
	const unsigned n = 3;
	unsigned a = 0, c = 0;
	vp_true("number of segments", (rods ? MoorDyn_GetRodN(R, &a) : MoorDyn_GetLineN(L, &a)) == OK && a == n);
	vp_true("number of nodes", (rods ? MoorDyn_GetRodNumberNodes(R, &c) : MoorDyn_GetLineNumberNodes(L, &c)) == OK && c == n + 1);
	// recognisable nodes
	std::vector<vec> x, v;
	for (unsigned k = 0; k <= n; k++) {
		x.push_back(sym3(("x" + std::to_string(k)).c_str(), 10 * k, 10 * k + 5));
		v.push_back(sym3(("v" + std::to_string(k)).c_str(), 2 * k, 2 * k + 1));
		if (rods) {
			rod(s, 1)->r[k] = x[k];
			rod(s, 1)->rd[k] = v[k];
		} else {
			line(s, 1)->r[k] = x[k];
			line(s, 1)->rd[k] = v[k];
		}
	}
	unsigned i = any("node");
	const bool ok = i <= n;
	double o[3] = { 77, 78, 79 }, u[3] = { 77, 78, 79 }, M[3][3] = { { 77 } }, k = 77;
	auto kept = [&](const char* w, int err, const double* p) {
		if (ok)
			vp_true(w, err == OK);
		else
			vp_true((std::string(w) + " of no node").c_str(), err == BAD && p[0] == 77);
	};
	int e1 = rods ? MoorDyn_GetRodNodePos(R, i, o) : MoorDyn_GetLineNodePos(L, i, o);
	int e2 = rods ? MoorDyn_GetRodNodeVel(R, i, u) : MoorDyn_GetLineNodeVel(L, i, u);
	kept("position", e1, o);
	kept("velocity", e2, u);
	if (ok) {
		eq3("position of the node", vec(o[0], o[1], o[2]), x[i], 1e-9);
		eq3("velocity of the node", vec(u[0], u[1], u[2]), v[i], 1e-9);
	}
	if (rods)
		return;
	typedef int (*get3)(MoorDynLine, unsigned, double*);
	struct { const char* n; get3 f; } q[] = { { "force", MoorDyn_GetLineNodeForce }, { "tension", MoorDyn_GetLineNodeTen },
		{ "bending", MoorDyn_GetLineNodeBendStiff }, { "weight", MoorDyn_GetLineNodeWeight }, { "drag", MoorDyn_GetLineNodeDrag },
		{ "Froude-Krylov", MoorDyn_GetLineNodeFroudeKrilov }, { "seabed", MoorDyn_GetLineNodeSeabedForce } };
	for (auto& f : q) {
		double w[3] = { 77, 78, 79 };
		kept(f.n, f.f(L, i, w), w);
	}
	kept("curvature", MoorDyn_GetLineNodeCurv(L, i, &k), &k);
	kept("mass", MoorDyn_GetLineNodeM(L, i, M), &M[0][0]);
	int nl = vp_symint("numLines", -5, 100);
	float F[4][4] = { { 77 }, { 77 }, { 77 }, { 77 } };
	int err = MoorDyn_GetFASTtens(s, &nl, F[0], F[1], F[2], F[3]);
	if (nl < 0 || nl > 3)
		vp_true("tensions of more lines than there are", err == BAD && F[0][0] == 77);
	else
		vp_true("tensions of the first lines", err == OK && F[0][3] == 0);
}

// missing arrays and handles
static void missing()
{
	int N[2];
	MoorDyn s = make(true, N);
	vp_assume(s != nullptr);
	unsigned n = 0;
	vp_true("number of coupled DOF", MoorDyn_NCoupledDOF(s, &n) == OK && n == 3);
	double x[3] = { 10, 0, -60 }, xd[3] = { 0, 0, 0 }, f[3] = { 7, 7, 7 };
	int w = vp_symint("init", 0, 3);
	int err = MoorDyn_Init_NoIC(s, w & 1 ? x : nullptr, w & 2 ? xd : nullptr);
	if (w != 3) {
		vp_true("start without the coupled motion", err == BAD);
		err = MoorDyn_Init_NoIC(s, x, xd);
	}
	vp_true("start", err == OK);
	vp_assume(err == OK);
	w = vp_symint("step", 0, 7);
	double t = 0, dt = 0.02;
	err = MoorDyn_Step(s, w & 1 ? x : nullptr, w & 2 ? xd : nullptr, w & 4 ? f : nullptr, &t, &dt);
	if (w != 7) {
		vp_true("step without the coupled motion", err == BAD && t == 0);
		err = MoorDyn_Step(s, x, xd, f, &t, &dt);
	}
	vp_true("step", err == OK);
	vp_eq("time", t, 0.02, 1e-12);
	// no step at all: the forces are still reported
	dt = 0;
	f[0] = f[1] = f[2] = 777;
	vp_true("zero step", MoorDyn_Step(s, x, xd, f, &t, &dt) == OK && f[2] != 777);
	vp_eq("time after a zero step", t, 0.02, 1e-12);
}

static void null()
{
	double d = 0, v[6], M[6][6], m3[3][3];
	int i = 0;
	unsigned u = 0;
	MoorDynLine l;
	size_t z = 0;
	vp_true("objects of no system", !MoorDyn_GetBody(nullptr, 1) && !MoorDyn_GetRod(nullptr, 1) && !MoorDyn_GetPoint(nullptr, 1) && !MoorDyn_GetLine(nullptr, 1) &&
	                                    !MoorDyn_GetWaves(nullptr) && !MoorDyn_GetSeafloor(nullptr));
	int c = vp_symint("call", 0, 60), k = 0, err = BAD;
#define TRY(x) if (c == k++) err = (x)
	TRY(MoorDyn_Init(nullptr, v, v));
	TRY(MoorDyn_Init_NoIC(nullptr, v, v));
	TRY(MoorDyn_Step(nullptr, v, v, v, &d, &d));
	TRY(MoorDyn_Close(nullptr));
	TRY(MoorDyn_NCoupledDOF(nullptr, &u));
	TRY(MoorDyn_SetVerbosity(nullptr, 1));
	TRY(MoorDyn_GetNumberBodies(nullptr, &u));
	TRY(MoorDyn_GetNumberRods(nullptr, &u));
	TRY(MoorDyn_GetNumberPoints(nullptr, &u));
	TRY(MoorDyn_GetNumberLines(nullptr, &u));
	TRY(MoorDyn_GetDt(nullptr, &d));
	TRY(MoorDyn_SetDt(nullptr, 1));
	TRY(MoorDyn_GetCFL(nullptr, &d));
	TRY(MoorDyn_SetCFL(nullptr, 1));
	TRY(MoorDyn_GetTimeScheme(nullptr, nullptr, &z));
	TRY(MoorDyn_SetTimeScheme(nullptr, "rk4"));
	TRY(MoorDyn_Save(nullptr, "/nonexistent/x"));
	TRY(MoorDyn_Load(nullptr, "/nonexistent/x"));
	TRY(MoorDyn_Serialize(nullptr, &z, nullptr));
	TRY(MoorDyn_ExternalWaveKinInit(nullptr, &u));
	TRY(MoorDyn_ExternalWaveKinGetN(nullptr, &u));
	TRY(MoorDyn_ExternalWaveKinSet(nullptr, v, v, 0));
	TRY(MoorDyn_GetBodyID(nullptr, &i));
	TRY(MoorDyn_GetBodyType(nullptr, &i));
	TRY(MoorDyn_GetBodyState(nullptr, v, v));
	TRY(MoorDyn_GetBodyPos(nullptr, v));
	TRY(MoorDyn_GetBodyAngle(nullptr, v));
	TRY(MoorDyn_GetBodyVel(nullptr, v));
	TRY(MoorDyn_GetBodyAngVel(nullptr, v));
	TRY(MoorDyn_GetBodyForce(nullptr, v));
	TRY(MoorDyn_GetBodyM(nullptr, M));
	TRY(MoorDyn_GetRodID(nullptr, &i));
	TRY(MoorDyn_GetRodForce(nullptr, v));
	TRY(MoorDyn_GetRodM(nullptr, M));
	TRY(MoorDyn_GetRodN(nullptr, &u));
	TRY(MoorDyn_GetRodNodePos(nullptr, 0, v));
	TRY(MoorDyn_GetRodNodeVel(nullptr, 0, v));
	TRY(MoorDyn_GetPointID(nullptr, &i));
	TRY(MoorDyn_GetPointPos(nullptr, v));
	TRY(MoorDyn_GetPointVel(nullptr, v));
	TRY(MoorDyn_GetPointForce(nullptr, v));
	TRY(MoorDyn_GetPointM(nullptr, m3));
	TRY(MoorDyn_GetPointNAttached(nullptr, &u));
	TRY(MoorDyn_GetPointAttached(nullptr, 0, &l, &i));
	TRY(MoorDyn_GetLineID(nullptr, &i));
	TRY(MoorDyn_GetLineN(nullptr, &u));
	TRY(MoorDyn_GetLineUnstretchedLength(nullptr, &d));
	TRY(MoorDyn_SetLineUnstretchedLength(nullptr, 1));
	TRY(MoorDyn_IsLineConstantEA(nullptr, &i));
	TRY(MoorDyn_GetLineConstantEA(nullptr, &d));
	TRY(MoorDyn_SetLineConstantEA(nullptr, 1));
	TRY(MoorDyn_GetLineNodePos(nullptr, 0, v));
	TRY(MoorDyn_GetLineNodeTen(nullptr, 0, v));
	TRY(MoorDyn_GetLineFairTen(nullptr, &d));
	TRY(MoorDyn_GetLineMaxTen(nullptr, &d));
	TRY(MoorDyn_GetDepthAt(nullptr, 0, 0, &d));
	TRY(MoorDyn_GetAverageDepth(nullptr, &d));
	TRY(MoorDyn_GetMinDepth(nullptr, &d));
	vp_true("no handle", err == BAD);
}

int main()
{
	if (is("mode", "index"))
		index();
	else if (is("mode", "nodes"))
		nodes();
	else if (is("mode", "missing"))
		missing();
	else
		null();
	return 0;
}
