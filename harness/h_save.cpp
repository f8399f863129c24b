// C15: a saved simulation goes on after it is loaded as if nothing happened
#include "md.hpp"
#include <istream>
#include <map>
#include <ostream>
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }

// bytes through a file keep their symbolic identity
static std::map<std::ostream*, std::vector<unsigned>> LOGS;
extern "C" std::ostream& vp_write(std::ostream* o, const char* p, long n) asm("_ZNSo5writeEPKcl");
extern "C" std::ostream& vp_write(std::ostream* o, const char* p, long n)
{
	auto& l = LOGS[o];
	for (long i = 0; i < n; i++)
		l.push_back(vp_shadow_of(p + i));
	if (o->rdbuf()->sputn(p, n) != n)
		o->setstate(std::ios::badbit);
	return *o;
}
extern "C" std::istream& vp_read(std::istream* i, char* p, long n) asm("_ZNSi4readEPcl");
extern "C" std::istream& vp_read(std::istream* in, char* p, long n)
{
	long at = in->rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in);
	long k = in->rdbuf()->sgetn(p, n);
	in->_M_gcount = k;
	if (k < n)
		in->setstate(std::ios::eofbit | std::ios::failbit);
	const std::vector<unsigned>* l = nullptr;
	for (auto& q : LOGS)
		if (!l || q.second.size() > l->size())
			l = &q.second;
	for (long i = 0; i < k; i++)
		vp_shadow_set(p + i, l && at + i < (long)l->size() ? (*l)[at + i] : 0);
	return *in;
}

#include "look.hpp"

static Model model()
{
	Model m;
	const bool rigid = is("what", "rigid");
	const bool bend = is("bend", "1");
	m.ltypes.push_back(bend ? "main 0.1 20 1e4 50 300 1 0.5 0.2 0.1" : "main 0.1 20 1e4 50 0 0 0 0 0");
	if (!rigid) {
		m.points.push_back("1 Coupled 0 0 -20 0 0 0 0");
		m.points.push_back("2 Free 3 2 -60 30 0 0 0");
		m.points.push_back("3 Fixed 10 5 -100 0 0 0 0");
		m.lines.push_back("1 main 1 2 38 2 -");
		m.lines.push_back("2 main 2 3 39 2 -");
		NL = 2;
		NP = 3;
	} else {
		m.rtypes.push_back("bar 0.4 80 0 0 0 0");
		m.bodies.push_back("1 Free 3 1 -15 10 20 30 1000 0.1|0.2|-0.5 100 1 0 0");
		m.bodies.push_back("2 Coupled 30 1 -10 10 0 0 1000 0 100 1 0 0");
		m.bodies.push_back("3 CoupledPinned 50 1 -10 0 5 0 1000 0 100 1 0 0");
		m.rods.push_back("1 bar Free 6 2 -20 6.5 2 -16 2 -");
		m.rods.push_back("2 bar Coupled 12 2 -20 12 3 -16 1 -");
		m.rods.push_back("3 bar CoupledPinned 22 2 -20 22 3 -16 1 -");
		m.rods.push_back("4 bar Body2 1 1 -2 1 2 -4 1 -");
		m.points.push_back("1 Body1 1 1 0 10 0 0 0");
		m.points.push_back("2 Coupled 60 0 -10 20 0 0 0");
		m.points.push_back("3 Fixed 60 0 -50 20 0 0 0");
		m.lines.push_back("1 main 2 3 39 2 -");
		NL = 1;
		NP = 3;
		NR = 4;
		NB = 3;
	}
	m.opt("tScheme", vp_arg("scheme", "rk2"));
	m.opt("dtM", atof(vp_arg("dtM", "0.5")));
	m.opt("writeLog", "0");
	m.opt("g", 9.81);
	m.opt("WtrDpth", 200.0);
	return m;
}
static V rest(bool rigid)
{
	if (!rigid)
		return { 0, 0, -20 };
	return { 30, 1, -10, 10 * PI / 180, 0, 0, 50, 1, -10, 0, 5 * PI / 180, 0, 12, 2, -20, 0, 0, 0, 22, 2, -20, 60, 0, -10 };
}
int main()
{
	const bool rigid = is("what", "rigid"), reel = is("reel", "1");
	const int pre = atoi(vp_arg("pre", "1")), post = atoi(vp_arg("post", "1"));
	Model m = model();
	MoorDyn s = m.create("a.txt"), r = m.create("b.txt");
	vp_true("create", s && r);
	vp_assume(s && r);
	unsigned n;
	MoorDyn_NCoupledDOF(s, &n);
	V x = rest(rigid), xd(x.size(), 0.0), f(x.size());
	vp_true("coupled degrees of freedom", n == x.size());
	x.resize(n);
	xd.resize(n);
	f.resize(n);
	vp_true("init", MoorDyn_Init_NoIC(s, x.data(), xd.data()) == MOORDYN_SUCCESS);
	V y = x;
	if (!rigid)
		y[0] += 1;
	vp_true("init", MoorDyn_Init_NoIC(r, y.data(), xd.data()) == MOORDYN_SUCCESS);
	const double h = vp_sym("h", 0.005, 0.02);
	if (reel) {
		double w = vp_sym("reel", -1, 1);
		MoorDyn_SetLineUnstretchedLengthVel(MoorDyn_GetLine(s, 1), w);
	}
	double t = 0;
	auto drive = [&](const std::string& k) {
		for (unsigned i = 0; i < n; i++)
			xd[i] = 0;
		for (unsigned i = 0; i < n; i++) {
			// linear velocities, and the rate of one rotation of the coupled rod
			if (rigid && ((i >= 3 && i < 6) || (i >= 9 && i < 12) || (i >= 15 && i < 18)))
				continue;
			xd[i] = vp_sym(("v" + k + "_" + std::to_string(i)).c_str(), -1, 1);
		}
	};
	auto step = [&](MoorDyn q, V& F, double& tt) {
		double d = h;
		int err = MoorDyn_Step(q, x.data(), xd.data(), F.data(), &tt, &d);
		vp_true("step", err == MOORDYN_SUCCESS);
		vp_assume(err == MOORDYN_SUCCESS);
	};
	for (int i = 0; i < pre; i++) {
		drive("a" + std::to_string(i));
		step(s, f, t);
		for (unsigned j = 0; j < n; j++)
			x[j] += xd[j] * h;
	}
	Seen before = look(s, true);
	int err;
	std::vector<uint64_t> data;
	if (is("via", "file")) {
		err = MoorDyn_Save(s, sc("saved").c_str());
		vp_true("save", err == MOORDYN_SUCCESS);
		err = MoorDyn_Load(r, sc("saved").c_str());
		vp_true("load", err == MOORDYN_SUCCESS);
	} else {
		size_t sz = 0;
		err = MoorDyn_Serialize(s, &sz, nullptr);
		vp_true("serialize", err == MOORDYN_SUCCESS && sz % 8 == 0);
		data.resize(sz / 8);
		err = MoorDyn_Serialize(s, nullptr, data.data());
		vp_true("serialize", err == MOORDYN_SUCCESS);
		err = MoorDyn_Deserialize(r, data.data());
		vp_true("deserialize", err == MOORDYN_SUCCESS);
	}
	same("saving changes nothing", before, look(s, true));
	same("restored", before, look(r, true));
	vp_eq("restored: time", ((moordyn::MoorDyn*)r)->GetTimeScheme()->GetTime(), ((moordyn::MoorDyn*)s)->GetTimeScheme()->GetTime(), 1e-12);
	const V x0 = x;
	std::vector<V> drv;
	std::vector<Seen> went;
	double tr = t;
	V g = f;
	for (int i = 0; i < post; i++) {
		std::string k = "step " + std::to_string(i + 1) + " after";
		drive("b" + std::to_string(i));
		drv.push_back(xd);
		step(s, f, t);
		step(r, g, tr);
		went.push_back(look(s, true));
		same(k, went.back(), look(r, true));
		eqn(k + ": returned forces", g, f, n, 1e-9);
		vp_eq((k + ": time").c_str(), tr, t, 1e-12);
		for (unsigned j = 0; j < n; j++)
			x[j] += xd[j] * h;
	}
	if (!data.empty()) {
		// rewinding the same system
		err = MoorDyn_Deserialize(s, data.data());
		vp_true("rewind", err == MOORDYN_SUCCESS);
		same("rewound", before, look(s, true));
		x = x0;
		for (int i = 0; i < post; i++) {
			xd = drv[i];
			step(s, f, t);
			same("step " + std::to_string(i + 1) + " after rewinding", went[i], look(s, true));
			for (unsigned j = 0; j < n; j++)
				x[j] += xd[j] * h;
		}
	}
	return 0;
}
