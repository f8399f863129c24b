// Seafloor: bathymetry grids, contact of lines and rods on them.
#include "md.hpp"
#include "Seafloor.h"
using moordyn::XYZQuat;
static bool is(const char* k, const char* v) { return !strcmp(vp_arg(k, ""), v); }

struct Grid
{
	std::vector<double> X, Y;
	std::vector<std::vector<double>> Z;
	// the depths' ranges are disjoint, in an order given by "perm": the order
	// of the depths is concrete, their values are not
	void make(const char* file, bool symticks, bool shuffle)
	{
		const int perm = atoi(vp_arg("perm", "0"));
		int nx = atoi(vp_arg("nx", "3")), ny = atoi(vp_arg("ny", "2"));
		for (int i = 0; i < nx; i++)
			X.push_back(symticks && i != 1 ? vp_symtok(("X" + std::to_string(i)).c_str(), -50 + 30 * i, -35 + 30 * i) : -40 + 30.0 * i);
		for (int i = 0; i < ny; i++)
			Y.push_back(symticks && i == 1 ? vp_symtok(("Y" + std::to_string(i)).c_str(), -10, 20) : -30 + 40.0 * i);
		std::string t = std::to_string(nx) + " " + std::to_string(ny) + "\n";
		strs a, b, rows;
		for (double v : X)
			a.push_back(num(v));
		for (double v : Y)
			b.push_back(num(v));
		t += cat(a) + "\n" + cat(b) + "\n";
		for (int i = 0; i < nx; i++) {
			Z.push_back({});
			for (int j = 0; j < ny; j++) {
				int n = nx * ny, k = i * ny + j;
				k = perm == 0 ? k : perm == 1 ? n - 1 - k : (k * 5 + 2) % n;
				double lo = -130 + 45.0 * k / n;
				Z[i].push_back(vp_symtok(("Z" + std::to_string(i) + std::to_string(j)).c_str(), lo, lo + 40.0 / n));
				rows.push_back(cat({ num(X[i]), num(Y[j]), num(Z[i][j]) }));
			}
		}
		if (shuffle) {
			std::swap(rows[0], rows[3]);
			std::swap(rows[1], rows.back());
		}
		wfile(file, t + cat(rows, "\n") + "\n");
	}
	static int cell(const std::vector<double>& X, double x, double& f)
	{
		int n = (int)X.size();
		if (x <= X[0]) {
			f = 0;
			return 0;
		}
		for (int i = 1; i < n; i++)
			if (x <= X[i]) {
				f = (x - X[i - 1]) / (X[i] - X[i - 1]);
				return i - 1;
			}
		f = 1;
		return n - 2;
	}
	double at(double x, double y) const
	{
		double fx, fy;
		int i = cell(X, x, fx), j = cell(Y, y, fy);
		double lo = Z[i][j] + fx * (Z[i + 1][j] - Z[i][j]), hi = Z[i][j + 1] + fx * (Z[i + 1][j + 1] - Z[i][j + 1]);
		return lo + fy * (hi - lo);
	}
};

// depths reported by the library
static void bathy()
{
	Grid G;
	G.make("sea.txt", is("ticks", "1"), is("shuffle", "1"));
	Model m;
	m.points.push_back("1 Fixed 0 0 -40 0 0 0 0");
	m.ltypes.push_back("main 0.1 20 1e4 10 0 0 0 0 0");
	m.points.push_back("2 Fixed 5 0 -40 0 0 0 0");
	m.lines.push_back("1 main 1 2 10 1 -");
	m.basics();
	m.opt("SeafloorFile", sc("sea.txt"));
	MoorDyn s = m.create();
	vp_true("create", s != nullptr);
	vp_assume(s != nullptr);
	MoorDynSeafloor sf = MoorDyn_GetSeafloor(s);
	vp_true("seafloor", sf != nullptr);
	double x = vp_sym("x", -70, 70), y = vp_sym("y", -60, 60), d = 0;
	vp_true("query", MoorDyn_GetDepthAt(sf, x, y, &d) == MOORDYN_SUCCESS);
	vp_eq("depth", d, G.at(x, y), 1e-4);
	double a = 0, mn = 0, avg = 0;
	MoorDyn_GetAverageDepth(sf, &a);
	MoorDyn_GetMinDepth(sf, &mn);
	int n = 0;
	for (auto& r : G.Z)
		for (double z : r) {
			avg = avg + z;
			n++;
		}
	vp_eq("average depth", a, avg / n, 1e-4);
	{
		int hit = 0;
		for (auto& r : G.Z)
			for (double z : r) {
				vp_le("minimum depth is the shallowest", z, mn, 1e-4);
				if (std::fabs(z - mn) < 1e-4)
					hit = 1;
			}
		vp_true("minimum depth is one of the depths", hit);
	}
	// the file's points are reproduced
	for (size_t i = 0; i < G.X.size(); i++)
		for (size_t j = 0; j < G.Y.size(); j++) {
			MoorDyn_GetDepthAt(sf, G.X[i], G.Y[j], &d);
			vp_eq("depth at the grid points", d, G.Z[i][j], 1e-4);
		}
}

// contact of a line or rod against the local depth
static void contact()
{
	Grid G;
	G.make("sea.txt", false, false);
	Model m;
	bool rodc = is("what", "rod");
	double kb = vp_symtok("kb", 1e3, 1e4), cb = vp_symtok("cb", 0, 1e3), d = vp_symtok("d", 0.2, 1), w = 40;
	m.points.push_back("1 Fixed 0 0 -40 0 0 0 0");
	m.points.push_back("2 Fixed 0 0 -10 0 0 0 0");
	m.points.push_back("3 Fixed 0 10 -10 0 0 0 0");
	if (rodc) {
		m.rtypes.push_back(cat({ "bar", num(d), num(w), "0 0 0 0" }));
		m.rods.push_back("1 bar Free 1 2 -20 1 2 -16 1 -");
	}
	m.ltypes.push_back(cat({ "main", num(rodc ? 0.1 : d), "40 0 0 0 0 0 0 0" }));
	m.lines.push_back("1 main 1 2 30 1 -");
	m.basics();
	m.opt("kBot", kb);
	m.opt("cBot", cb);
	m.opt("SeafloorFile", sc("sea.txt"));
	m.opt("g", 9.81);
	m.opt("WtrDnsty", 1025.0);
	m.opt("FrictionCoefficient", "0.5");
	m.opt("FricDamp", "200");
	m.opt("StatDynFricScale", "1.0");
	MoorDyn s = m.create();
	vp_true("create", s != nullptr);
	vp_assume(s != nullptr);
	int err = MoorDyn_Init_NoIC(s, nullptr, nullptr);
	vp_true("init", err == MOORDYN_SUCCESS);
	vp_assume(err == MOORDYN_SUCCESS);
	double x = vp_sym("x", -60, 60), y = vp_sym("y", -40, 40), z = vp_sym("z", -150, -70);
	double vz = vp_sym("vz", -2, 2), vx = rodc ? 0 : vp_sym("vx", -2, 2);
	if (rodc) {
		vec6 v6 = vec6::Zero();
		v6[2] = vz;
		rod(s, 1)->setState(XYZQuat(vec(x, y, z), moordyn::quaternion::Identity()), v6);
		rod(s, 1)->doRHS();
		double f[6];
		MoorDyn_GetRodForce(MoorDyn_GetRod(s, 1), f);
		double F = 9.81 * 4.0 * (1025.0 * PI / 4 * d * d - w);
		for (int i = 0; i <= 1; i++) {
			double pen = G.at(x, y) - (z + 4.0 * i);
			if (pen > 0)
				F = F + (kb * pen - cb * vz) * d * 2.0;
		}
		vp_eq("vertical force on the rod", f[2], F, 2.0);
	} else {
		moordyn::Line* l = line(s, 1);
		l->setEndKinematics(vec(x, y, z), vec(vx, 0, vz), moordyn::ENDPOINT_BOTTOM);
		l->setEndKinematics(vec(x, y, z + 25), vec(0, 0, 0), moordyn::ENDPOINT_TOP);
		l->setState({}, {});
		l->getStateDeriv();
		double f[3];
		MoorDyn_GetLineNodeSeabedForce(MoorDyn_GetLine(s, 1), 0, f);
		double dep = G.at(x, y), pen = dep - z;
		if (pen > 0) {
			double N = (kb * pen - cb * vz) * d * 15.0;
			vp_eq("normal force", f[2], N, 5.0);
			vp_le("friction opposes", f[0] * vx, 0, 1e-9);
			vp_le("friction is bounded", f[0], 0.5 * 200 * std::fabs(vx), 1e-6);
			vp_eq("no side force", f[1], 0, 0);
		} else
			eq3("no contact above the seabed", vec(f[0], f[1], f[2]), vec(0, 0, 0), 0);
		MoorDyn_GetLineNodeSeabedForce(MoorDyn_GetLine(s, 1), 1, f);
		if (dep - (z + 25) <= 0)
			eq3("no contact of the upper end", vec(f[0], f[1], f[2]), vec(0, 0, 0), 0);
	}
}

int main()
{
	std::string mode = vp_arg("mode", "");
	if (mode == "bathy")
		bathy();
	else
		contact();
	return 0;
}
