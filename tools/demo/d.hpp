// helpers for the demonstrations: write an input file, start a system, compare
#pragma once
#include "MoorDyn2.h"
#include "Waves.h"
#include "Seafloor.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
static int bad = 0;
static void near(const char* what, double got, double want, double tol)
{
	bool ok = std::fabs(got - want) <= tol;
	printf("%s %s: got %.10g expected %.10g\n", ok ? "ok " : "BAD", what, got, want);
	if (!ok)
		bad++;
}
static void must(const char* what, bool ok)
{
	if (!ok) {
		printf("BAD %s\n", what);
		bad++;
	}
}
struct In
{
	std::string lt, rt, bo, ro, po, li, fa, op, ou;
	std::string text() const
	{
		std::string t = "--- input ---\ndemo\n";
		auto sec = [&](const char* n, const std::string& v) {
			if (!v.empty())
				t += std::string("---- ") + n + " ----\nheader\n(-)\n" + v;
		};
		sec("LINE TYPES", lt);
		sec("ROD TYPES", rt);
		sec("BODIES", bo);
		sec("RODS", ro);
		sec("POINTS", po);
		sec("LINES", li);
		sec("FAILURE", fa);
		t += "---- OPTIONS ----\n" + op + "0 writeLog\n";
		if (!ou.empty())
			t += "---- OUTPUTS ----\n" + ou;
		return t + "---- end ----\n";
	}
};
static void put(const char* f, const std::string& t)
{
	FILE* o = fopen(f, "w");
	fwrite(t.data(), 1, t.size(), o);
	fclose(o);
}
static MoorDyn make(const In& in, const char* f = "in.txt")
{
	put(f, in.text());
	MoorDyn s = MoorDyn_Create(f);
	must("create", s != nullptr);
	if (!s)
		exit(4);
	MoorDyn_SetVerbosity(s, MOORDYN_NO_OUTPUT);
	return s;
}
static void init(MoorDyn s, std::vector<double> x = {}, std::vector<double> v = {})
{
	int e = MoorDyn_Init_NoIC(s, x.empty() ? nullptr : x.data(), v.empty() ? nullptr : v.data());
	must("init", e == MOORDYN_SUCCESS);
	if (e)
		exit(4);
}
static std::vector<double> step(MoorDyn s, std::vector<double> x, std::vector<double> v, double& t, double dt)
{
	std::vector<double> f(x.size(), 0.0);
	int e = MoorDyn_Step(s, x.empty() ? nullptr : x.data(), v.empty() ? nullptr : v.data(), x.empty() ? nullptr : f.data(), &t, &dt);
	must("step", e == MOORDYN_SUCCESS);
	if (e)
		exit(4);
	return f;
}
static int done() { printf("%d failures\n", bad); return bad ? 1 : 0; }
