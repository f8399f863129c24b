// The input file: every accepted spelling and layout of the same system is the
// same system; indices refer to what exists; incomplete files are refused.
#include "look.hpp"
#include <unistd.h>
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }
static const int OK = MOORDYN_SUCCESS;
typedef std::vector<strs> Rows;

// how a file is written
struct Style
{
	int word = 0;            // which synonym of the attachment types
	int head = 0;            // which synonym of the section headers
	int opt = 0;             // which synonym of the option names
	int vec = 0;             // how vectors of bodies are written
	std::string sep = " ", eol = "\n", lead = "", trail = "";
	std::vector<int> order;  // of the sections
	bool close = true;       // last line closes the last section
	bool fullpoints = false; // points with the optional force
	int defaults = 0;        // options written out (0), left out (1)
	int outcase = 0;
	int bare = 0;            // file named from its own directory
};
static std::string pick(const strs& v, int k) { return v[k % v.size()]; }
static Style W;
static std::string fixed() { return pick({ "Fixed", "Anchor", "Fix", "FIXED", "anchor" }, W.word); }
static std::string coupled(bool pt)
{
	return pt ? pick({ "Coupled", "Vessel", "Ves", "Cpld", "Fairlead", "vessel" }, W.word) : pick({ "Coupled", "Vessel", "Ves", "Cpld", "COUPLED", "vessel" }, W.word);
}
static std::string cpldpin() { return pick({ "CoupledPinned", "VesselPinned", "VesPin", "CpldPin", "vesselpinned" }, W.word); }
static std::string pinned() { return pick({ "Pinned", "Pin", "PINNED" }, W.word); }
static std::string freePoint() { return pick({ "Free", "Point", "Connect", "Con", "free" }, W.word); }
static std::string freeRod() { return pick({ "Free", "Point", "Con", "FREE" }, W.word); }
static std::string freeBody() { return pick({ "Free", "free", "FREE" }, W.word); }
static std::string onBody(int i) { return pick({ "Body", "BODY", "body" }, W.word) + std::to_string(i); }
static std::string onBodyPin(int i) { return onBody(i) + pinned(); }
static std::string atPoint(int i) { return pick({ "", "P", "C", "Con", "Point", "p" }, W.word) + std::to_string(i); }
static std::string atRod(int i, const char* e) { return pick({ "R", "Rod", "ROD", "r" }, W.word) + std::to_string(i) + e; }
static std::string head(int k)
{
	static const std::vector<strs> H = { { "LINE TYPES", "LINE DICTIONARY", "Line Types" },
		                                 { "ROD TYPES", "ROD DICTIONARY", "Rod Types" },
		                                 { "BODIES", "BODY LIST", "BODY PROPERTIES", "Bodies" },
		                                 { "RODS", "ROD LIST", "ROD PROPERTIES", "Rods" },
		                                 { "POINTS", "POINT LIST", "POINT PROPERTIES", "CONNECTION PROPERTIES", "NODE PROPERTIES", "Points" },
		                                 { "LINES", "LINE LIST", "LINE PROPERTIES", "Lines" },
		                                 { "OPTIONS", "SOLVER OPTIONS", "Options" },
		                                 { "OUTPUTS", "OUTPUT LIST", "Outputs" } };
	return pick(H[k], W.head);
}
static std::string opt(const char* n)
{
	static const std::vector<strs> O = { { "dtM", "DT" }, { "CFL", "cfl" }, { "g", "gravity" }, { "rho", "Rho", "WtrDnsty" }, { "kBot", "kbot", "kb" },
		                                 { "cBot", "cbot", "cb" }, { "dtIC", "ICdt" }, { "TmaxIC", "ICTmax" }, { "CdScaleIC", "ICDfac" }, { "threshIC", "ICthresh" } };
	for (auto& o : O)
		if (o[0] == n)
			return pick(o, W.opt);
	return n;
}
static std::string sectext(int k, const Rows& rows)
{
	if (rows.empty())
		return "";
	std::string t = W.lead + "---------- " + head(k) + " ----------" + W.trail + W.eol;
	if (k < 6)
		t += "some names" + W.eol + "(and) (units)" + W.eol;
	for (auto& r : rows)
		t += W.lead + cat(r, W.sep.c_str()) + W.trail + W.eol;
	return t;
}
static std::string filetext(const Rows* sec)
{
	std::string t = "my system" + W.eol + "of notes" + W.eol;
	std::vector<int> o = W.order;
	if (o.empty())
		o = { 0, 1, 2, 3, 4, 5, 6, 7 };
	for (int k : o)
		t += sectext(k, sec[k]);
	if (W.close)
		t += "------------- need this line -------------" + W.eol;
	else
		t.erase(t.size() - W.eol.size());
	return t;
}

// every number of the file that may be any: declared once, spelled the same in
// both files
static std::map<std::string, std::string> NUM;
static std::string n(const std::string& name, double lo, double hi)
{
	auto& s = NUM[name];
	if (s.empty()) {
		double v;
		s = S(name.c_str(), lo, hi, &v);
	}
	return s;
}
static std::string three(const std::string& a, const std::string& b, const std::string& c) { return a + "|" + b + "|" + c; }

static Rows SEC[8];
static void lines()
{
	SEC[0] = { { "main", n("d1", 0.05, 0.2), n("w1", 10, 30), n("EA1", 1e4, 1e5), n("BA1", 10, 100), "0", n("Cd1", 0.5, 2), n("Ca1", 0.5, 1), n("Cdt1", 0.1, 0.5), n("Cat1", 0.1, 0.4) },
		       { "thin", n("d2", 0.01, 0.04), n("w2", 1, 5), n("EA2", 2e5, 3e5), n("BA2", 200, 300), "0", n("Cd2", 3, 4), n("Ca2", 2, 3), n("Cdt2", 0.6, 0.7), n("Cat2", 0.5, 0.6) } };
	strs p3 = { "3", freePoint(), "20", "0", "-60", n("M3", 10, 50), n("V3", 0.01, 0.02) };
	strs p2 = { "2", coupled(true), "0", "0", "-20", "0", "0" };
	strs p1 = { "1", fixed(), "0", "0", "-102", "0", "0" };
	strs p4 = { "4", fixed(), "20", "0", "-115", "0", "0" };
	for (strs* p : { &p1, &p2, &p3, &p4 }) {
		if (W.fullpoints)
			for (int i = 0; i < 3; i++)
				p->push_back("0");
		bool f = p == &p3;
		p->push_back(f ? n("CdA3", 0.1, 0.3) : "0");
		p->push_back(f ? n("Ca3", 0.7, 0.9) : "0");
	}
	SEC[4] = { p1, p2, p3, p4 };
	SEC[5] = { { "1", "thin", atPoint(1), atPoint(2), n("L1", 80.5, 81.5), "2", "p" }, { "2", "main", atPoint(4), atPoint(3), n("L2", 47, 50), "2", "-" } };
	NL = 2;
	NP = 4;
}
static void rigid()
{
	const std::string cx = n("cgx", 0.1, 0.3), cz = n("cgz", -0.9, -0.4);
	const std::string zero = "0";
	SEC[0] = { { "main", "0.1", "20", "1e4", "10", "0", "0", "0", "0", "0" } };
	SEC[1] = { { "bar", n("rd", 0.3, 0.5), n("rw", 60, 90), n("rCd", 0.5, 0.9), n("rCa", 0.8, 1), n("rCdE", 0.2, 0.4), n("rCaE", 1.1, 1.3) },
		       { "rope", "0.2", "40", "0", "0", "0", "0" } };
	std::string I = n("I", 100, 200), c = n("c", 1.5, 2.5), c2 = n("c2", 3, 4), a = n("a", 0.25, 0.45);
	// 0: as short as possible; 1: written out
	std::string I3 = W.vec ? three(I, I, I) : I;
	std::string C1 = W.vec ? cat({ c, c, c, c, c, c }, "|") : c;
	std::string C2 = W.vec == 1 ? cat({ c, c, c, c2, c2, c2 }, "|") : c + "|" + c2;
	std::string C3 = W.vec ? cat({ c, c2, a, c, c2, a }, "|") : three(c, c2, a);
	std::string A = W.vec ? three(a, a, a) : a;
	std::string G = W.vec ? three("0", "0", cz) : cz;
	SEC[2] = { { "1", freeBody(), "30", "1", "-10", "10", "0", "0", n("M1", 1000, 2000), three(cx, "0", cz), I3, n("V1", 0.6, 1.2), is("cd", "2") ? C2 : C1, A },
		       { "2", fixed(), "0", "0", "-20", "0", "0", n("yaw2", 10, 20), "100", G, I3, "0.125", C1, A },
		       { "3", cpldpin(), "50", "1", "-10", "0", "0", "0", n("M3", 2100, 3000), G, three(I, n("I2", 210, 290), n("I3", 300, 400)), n("V3", 1.3, 1.5), C3, three(a, n("a2", 0.55, 0.75), n("a3", 1.6, 1.8)) } };
	SEC[3] = { { "1", "bar", coupled(false), "12", "2", "-20", "12", "2", "-16", "2", "-" },
		       { "2", "rope", fixed(), "12", "2", "-40", "12", "2", "-36", "1", "-" },
		       { "3", "bar", onBody(3), "1", "1", "-2", "1", "1", "-4", "1", "-" } };
	SEC[4] = { { "1", onBody(1), "1", "1", "0", "10", "0", "0", "0" }, { "2", coupled(true), "60", "0", "-10", "20", "0", "0", "0" }, { "3", fixed(), "60", "0", "-52", "20", "0", "0", "0" } };
	SEC[5] = { { "1", "main", atPoint(2), atPoint(3), "43", "1", "-" }, { "2", "main", atRod(1, "A"), atRod(2, "B"), n("LR", 14, 15), "1", "-" } };
	NL = 2;
	NP = 3;
	NR = 3;
	NB = 3;
}
static void types()
{
	SEC[0] = { { "main", "0.1", "20", "1e4", "10", "0", "0", "0", "0", "0" } };
	SEC[1] = { { "bar", "0.5", "100", "0", "0", "0", "0" } };
	SEC[2] = { { "1", freeBody(), "0", "0", "-10", "0", "0", "0", "1000", "0", "200", n("V1", 0.6, 1.2), "0", "0" },
		       { "2", cpldpin(), "10", "0", "-10", "0", "0", "0", "1000", "0", "300", n("V2", 1.3, 1.5), "0", "0" } };
	SEC[3] = { { "1", "bar", freeRod(), "20", "0", "-20", "20", "0", "-16", "1", "-" },
		       { "2", "bar", pinned(), "30", "0", "-20", "30", "0", "-16", "1", "-" },
		       { "3", "bar", cpldpin(), "40", "0", "-20", "40", "0", "-16", "1", "-" },
		       { "4", "bar", onBodyPin(2), "1", "0", "1", "1", "0", "5", "1", "-" } };
	SEC[4] = { { "1", fixed(), "60", "0", "-52", "20", "0", "0", "0" }, { "2", fixed(), "60", "0", "-10", "0", "0", "0", "0" }, { "3", onBody(1), "0", "0", "1", "10", "0", "0", "0" } };
	SEC[5] = { { "1", "main", atPoint(1), atPoint(2), n("L1", 43, 44), "1", "-" } };
	NL = 1;
	NP = 3;
	NR = 4;
	NB = 2;
}
static void options()
{
	const bool all = !W.defaults;
	auto o = [&](const char* k, const std::string& v) { SEC[6].push_back({ v, opt(k), "a note" }); };
	o("writeLog", "0");
	o("dtM", "0.03");
	o("WtrDpth", "130");
	if (is("what", "defaults")) {
		o("TmaxIC", "0");
		o("g", "9.81");  // the default has more digits
		if (!all)
			return;
		o("tScheme", "RK2");
		o("rho", "1025");
		o("kBot", "3.0e6");
		o("cBot", "3.0e5");
		o("dtIC", "1.0");
		o("CdScaleIC", "5.0");
		o("threshIC", "0.001");
		o("WaveKin", "0");
		o("dtWave", "0.25");
		o("Currents", "0");
		o("UnifyCurrentGrid", "1");
		o("WriteUnits", "1");
		o("FrictionCoefficient", "0.0");
		o("FricDamp", "200.0");
		o("StatDynFricScale", "1.0");
		o("dtOut", "0");
		o("ICgenDynamic", "0");
		return;
	}
	o("g", "9.75");
	o("rho", n("rho", 990, 1040));
	o("kBot", n("kb", 1e5, 2e5));
	o("cBot", n("cb", 1e3, 2e3));
	o("dtIC", "0.1");
	o("TmaxIC", is("model", "lines") ? "0.01" : "0");
	o("CdScaleIC", n("scale", 2, 3));
	o("threshIC", "0.002");
	o("ICgenDynamic", "1");
	o("tScheme", "rk2");
	if (is("what", "files")) {
		o("Currents", "1");
		wfile("current_profile.txt", "--- currents ---\nz ux uy uz\n(m) (m/s)\n-130 " + n("cu1", 0.3, 0.6) + " 0 0\n0 " + n("cu2", 0.7, 0.9) + " 0 0\n");
		wfile("stiff.txt", "curve\nstrain tension\n0 0\n0.5 " + n("T1", 1e4, 2e4) + "\n10 " + n("T2", 3e5, 4e5) + "\n");
		SEC[0][1][3] = "stiff.txt";
	}
}
static void write()
{
	for (auto& s : SEC)
		s.clear();
	if (is("model", "lines"))
		lines();
	else if (is("model", "rigid"))
		rigid();
	else
		types();
	options();
	SEC[7] = { { pick({ "FAIRTEN1", "FairTen1" }, W.outcase) }, { pick({ "LINE1N1PZ", "L1N1pZ" }, W.outcase), pick({ "POINT1FZ", "P1fZ" }, W.outcase) } };
}
static std::string slurp(const std::string& f)
{
	std::string r;
	if (FILE* i = fopen(sc(f).c_str(), "r")) {
		char b[4096];
		size_t k;
		while ((k = fread(b, 1, sizeof b, i)) > 0)
			r.append(b, k);
		fclose(i);
	}
	return r;
}
static std::vector<double> rest()
{
	if (is("model", "lines"))
		return { 0, 0, -140 };  // below the seabed
	if (is("model", "rigid"))
		return { 50, 1, -10, 0, 0, 0, 12, 2, -20, 0, 0, 0, 60, 0, -10 };
	return { 10, 0, -10, 0, 0, 0, 40, 0, -20 };
}
static std::vector<double> V0, V1;
static double STEP;
static Seen run(const char* f)
{
	Seen bad;
	write();
	wfile(f, filetext(SEC));
	MoorDyn s;
	if (W.bare) {
		char old[4096];
		vp_assume(getcwd(old, sizeof old) && chdir(vp_scratch()) == 0);
		s = MoorDyn_Create(W.bare == 1 ? f : (std::string("./") + f).c_str());
		vp_assume(chdir(old) == 0);
	} else
		s = MoorDyn_Create(sc(f).c_str());
	vp_true("created", s != nullptr);
	if (!s)
		return bad;
	MoorDyn_SetVerbosity(s, MOORDYN_NO_OUTPUT);
	unsigned c[5];
	MoorDyn_GetNumberLines(s, c);
	MoorDyn_GetNumberPoints(s, c + 1);
	MoorDyn_GetNumberRods(s, c + 2);
	MoorDyn_GetNumberBodies(s, c + 3);
	MoorDyn_NCoupledDOF(s, c + 4);
	vp_true("numbers of objects", c[0] == (unsigned)NL && c[1] == (unsigned)NP && c[2] == (unsigned)NR && c[3] == (unsigned)NB);
	vp_true("coupled degrees of freedom", c[4] == rest().size());
	std::vector<double> x = rest(), z(x.size(), 0.0), F(x.size(), 0.0);
	if (c[4] != x.size())
		return bad;
	vp_true("init", MoorDyn_Init(s, x.data(), z.data()) == OK);
	Seen a = look(s, true);
	double t = 0, dt = STEP;
	if (is("model", "rigid")) {
		for (int k = 1; k <= NB; k++)
			if (k != 2) {
				auto B = body(s, k);
				vec6 v;
				for (int i = 0; i < 6; i++)
					v[i] = V1[i];
				B->setState(B->getState().first, v);
				B->doRHS();
			}
		rod(s, 1)->doRHS();
	} else
		vp_true("step", MoorDyn_Step(s, x.data(), V1.data(), F.data(), &t, &dt) == OK);
	Seen b = look(s, true);
	a.n.insert(a.n.end(), b.n.begin(), b.n.end());
	a.v.insert(a.v.end(), b.v.begin(), b.v.end());
	a.add("returned force", F.data(), (int)F.size());
	double q;
	MoorDyn_GetDt(s, &q);
	a.add("time step", &q, 1);
	a.add("time", &t, 1);
	int st;
	for (int l = 1; l <= NP; l++) {
		MoorDyn_GetPointType(MoorDyn_GetPoint(s, l), &st);
		q = st;
		a.add("type of point", &q, 1);
	}
	for (int l = 1; l <= NR; l++) {
		MoorDyn_GetRodType(MoorDyn_GetRod(s, l), &st);
		q = st;
		a.add("type of rod", &q, 1);
	}
	for (int l = 1; l <= NB; l++) {
		MoorDyn_GetBodyType(MoorDyn_GetBody(s, l), &st);
		q = st;
		a.add("type of body", &q, 1);
	}
	MoorDyn_Close(s);
	return a;
}
static void alike()
{
	for (size_t i = 0; i < rest().size(); i++)
		V1.push_back(is("model", "rigid") ? vp_sym(("v" + std::to_string(i)).c_str(), 0.5, 1) : i % 6 < 3 ? 0.25 * (i + 1) : 0.0);
	STEP = 0.03;
	Seen a = run("one.txt");
	std::string out1 = slurp("one.out");
	W.word = atoi(vp_arg("word", "0"));
	W.head = atoi(vp_arg("head", "0"));
	W.opt = atoi(vp_arg("opt", "0"));
	W.vec = atoi(vp_arg("vec", "0"));
	W.fullpoints = is("full", "1");
	W.outcase = is("outcase", "1");
	W.bare = atoi(vp_arg("bare", "0"));
	W.defaults = is("what", "defaults");
	W.close = !is("close", "0");
	if (is("layout", "wide")) {
		W.sep = "     ";
		W.lead = "  ";
		W.trail = "    ";
	} else if (is("layout", "dos"))
		W.eol = "\r\n";
	if (is("order", "reversed"))
		W.order = { 7, 6, 5, 4, 3, 2, 1, 0 };
	if (is("order", "mixed"))
		W.order = { 6, 5, 0, 4, 2, 1, 3, 7 };
	Seen b = run("two.txt");
	vp_true("the same quantities", a.n == b.n && a.n.size() > 20);
	if (a.n == b.n)
		same("the same system", a, b);
	std::string out2 = slurp("two.out");
	vp_true("output written", out1.size() > 20 && (W.outcase || out1 == out2));
}

// ---------------------------------------------------------------------------
// numbers that refer to something: exactly those that exist are accepted
static std::string base(const std::string& pts, const std::string& end2, const std::string& rods, const std::string& outs = "", const std::string& nseg = "2")
{
	std::string t = "--- x ---\n---- LINE TYPES ----\nh\nu\nmain 0.1 20 1e4 10 0 0 0 0 0\n---- ROD TYPES ----\nh\nu\nbar 0.5 100 0 0 0 0\n";
	t += "---- BODIES ----\nh\nu\n1 Fixed 100 0 -10 0 0 0 100 0 10 0 0 0\n2 Fixed 200 0 -10 0 0 0 100 0 10 0 0 0\n";
	t += "---- RODS ----\nh\nu\n1 bar Fixed 40 0 -20 40 0 -16 1 -\n2 bar Fixed 50 0 -20 50 0 -16 1 -\n" + rods;
	t += "---- POINTS ----\nh\nu\n1 Fixed 0 0 -60 0 0 0 0\n2 Fixed 10 0 -20 0 0 0 0\n3 Fixed 20 0 -20 0 0 0 0\n" + pts;
	t += "---- LINES ----\nh\nu\n1 main 1 2 44 2 -\n2 main 1 " + end2 + " 80 " + nseg + " -\n";
	t += "---- OPTIONS ----\n0.01 dtM\n0 writeLog\n9.81 g\n200 WtrDpth\n";
	if (!outs.empty())
		t += "---- OUTPUTS ----\n" + outs;
	return t + "---- end ----\n";
}
static MoorDyn make(const std::string& text)
{
	wfile("in.txt", text);
	MoorDyn s = MoorDyn_Create(sc("in.txt").c_str());
	if (s)
		MoorDyn_SetVerbosity(s, MOORDYN_NO_OUTPUT);
	return s;
}
static void refs()
{
	int i;
	const char* k = vp_symtokint("number", 0, 1000000, &i);
	const std::string what = vp_arg("what", ""), K(k);
	std::string end = "3", pts, rods, outs;
	const bool p = what == "point", ra = what == "rodA", rb = what == "rodB", bp = what == "bodypoint", br = what == "bodyrod", ou = what == "output";
	if (p)
		end = "P" + K;
	if (ra || rb)
		end = "R" + K + (ra ? "A" : "B");
	if (bp)
		pts = "4 Body" + K + " 1 0 -2 0 0 0 0\n";
	if (br)
		rods = "3 bar Body" + K + " 1 0 -2 1 0 2 1 -\n";
	if (ou)
		outs = "LINE" + K + "N1PZ\nLINE1NBPX\nFAIRTEN" + K + "\nROD" + K + "NBPZ\nPOINT" + K + "PX\nBODY" + K + "PX\n";
	MoorDyn s = make(base(pts, end, rods, outs));
	const int n = p ? 3 : 2;
	if (!ou) {
		if (i < 1 || i > n) {
			vp_true("a reference to nothing is refused", s == nullptr);
			return;
		}
		vp_true("a reference to what exists is accepted", s != nullptr);
		if (!s)
			return;
		vp_true("init", MoorDyn_Init(s, nullptr, nullptr) == OK);
		double r[3];
		if (p || ra || rb) {
			MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, 2), 2, r);
			const double px[3] = { 0, 10, 20 }, pz[3] = { -60, -20, -20 };
			if (p)
				vp_true("line ends there", std::fabs(r[0] - px[i - 1]) < 1e-9 && std::fabs(r[2] - pz[i - 1]) < 1e-9);
			else
				vp_true("line ends at the rod", std::fabs(r[0] - (i == 1 ? 40 : 50)) < 1e-9 && std::fabs(r[2] - (ra ? -20 : -16)) < 1e-9);
		} else if (bp) {
			MoorDyn_GetPointPos(MoorDyn_GetPoint(s, 4), r);
			vp_true("point is on the body", std::fabs(r[0] - (100 * i + 1)) < 1e-9 && std::fabs(r[2] + 12) < 1e-9);
		} else {
			MoorDyn_GetRodNodePos(MoorDyn_GetRod(s, 3), 0, r);
			vp_true("rod is on the body", std::fabs(r[0] - (100 * i + 1)) < 1e-9 && std::fabs(r[2] + 12) < 1e-9);
		}
		return;
	}
	// a channel of something that is not there is left out, the others stay
	vp_true("created", s != nullptr);
	if (!s)
		return;
	vp_true("init", MoorDyn_Init(s, nullptr, nullptr) == OK);
	double t = 0, dt = 0.01, f[1];
	vp_true("step", MoorDyn_Step(s, nullptr, nullptr, f, &t, &dt) == OK);
	MoorDyn_Close(s);
	std::string o = slurp("in.out");
	std::string first = o.substr(0, o.find('\n'));
	auto has = [&](const std::string& w) { return first.find(w) != std::string::npos; };
	vp_true("channels of what exists", has("LINE1NBPX"));
	const bool two = i >= 1 && i <= 2, thr = i >= 1 && i <= 3;
	vp_true("channels of lines", has("LINE" + K + "N1PZ") == two && has("FAIRTEN" + K) == two);
	vp_true("channels of rods", has("ROD" + K + "NBPZ") == two);
	vp_true("channels of points", has("POINT" + K + "PX") == thr);
	vp_true("channels of bodies", has("BODY" + K + "PX") == two);
}
// the number of segments is the one written
static void segments()
{
	int i;
	const char* k = vp_symtokint("segments", 1, 6, &i);
	MoorDyn s = make(base("", "3", std::string("3 bar Fixed 60 0 -20 60 0 -16 ") + k + " -\n", "", k));
	vp_true("created", s != nullptr);
	if (!s)
		return;
	unsigned n = 0, r = 0, nn = 0, rn = 0;
	MoorDyn_GetLineN(MoorDyn_GetLine(s, 2), &n);
	MoorDyn_GetRodN(MoorDyn_GetRod(s, 3), &r);
	MoorDyn_GetLineNumberNodes(MoorDyn_GetLine(s, 2), &nn);
	MoorDyn_GetRodNumberNodes(MoorDyn_GetRod(s, 3), &rn);
	vp_true("segments of the line", n == (unsigned)i && nn == (unsigned)i + 1);
	vp_true("segments of the rod", r == (unsigned)i && rn == (unsigned)i + 1);
	vp_true("init", MoorDyn_Init(s, nullptr, nullptr) == OK);
	double a[3], b[3];
	MoorDyn_GetLineNodePos(MoorDyn_GetLine(s, 2), i, a);
	MoorDyn_GetRodNodePos(MoorDyn_GetRod(s, 3), i, b);
	vp_true("last nodes", std::fabs(a[0] - 20) < 1e-9 && std::fabs(b[2] + 16) < 1e-9);
}
// incomplete rows are refused
static void fields()
{
	const std::string what = vp_arg("what", "");
	static const std::map<std::string, std::pair<int, std::string>> ROW = {
		{ "line type", { 0, "two 0.1 20 1e4 10 0 0 0 0 0" } }, { "rod type", { 1, "two 0.5 100 0 0 0 0" } },
		{ "body", { 2, "3 Fixed 300 0 -10 0 0 0 100 0 10 0 0 0" } }, { "rod", { 3, "3 bar Fixed 60 0 -20 60 0 -16 1 -" } },
		{ "point", { 4, "4 Fixed 30 0 -20 0 0 0 0" } }, { "line", { 5, "3 main 1 3 80 2 -" } }
	};
	std::string row;
	std::string H[] = { "LINE TYPES", "ROD TYPES", "BODIES", "RODS", "POINTS", "LINES" };
	std::string key = what;
	for (auto& c : key)
		if (c == '_')
			c = ' ';
	auto& r = ROW.at(key);
	strs f;
	for (size_t i = 0; i < r.second.size();) {
		size_t j = r.second.find(' ', i);
		if (j == std::string::npos)
			j = r.second.size();
		f.push_back(r.second.substr(i, j - i));
		i = j + 1;
	}
	int k = vp_symint("fields", 1, (int)f.size());
	for (int i = 0; i < (int)f.size(); i++)
		if (i < k)
			row += (i ? " " : "") + f[i];
	std::string t = base("", "3", "");
	size_t at = t.find("---- " + H[r.first]);
	at = t.find("\n----", at + 1);
	t.insert(at + 1, row + "\n");
	MoorDyn s = make(t);
	if (k < (int)f.size())
		vp_true("incomplete row refused", s == nullptr);
	else {
		vp_true("complete row accepted", s != nullptr);
		if (s)
			vp_true("init", MoorDyn_Init(s, nullptr, nullptr) == OK);
	}
}
int main()
{
	if (is("mode", "alike"))
		alike();
	else if (is("mode", "refs"))
		refs();
	else if (is("mode", "segments"))
		segments();
	else
		fields();
	return 0;
}
