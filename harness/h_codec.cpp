// C15: one number through the save format (replay of codec.py)
#include "md.hpp"
namespace moordyn {
namespace io {
__attribute__((weak)) long long pack754(long double f, unsigned bits, unsigned expbits);
__attribute__((weak)) long double unpack754(long long i, unsigned bits, unsigned expbits);
}
}
int main()
{
	if (!strcmp(vp_arg("tiny", ""), "1")) {
		// below the smallest normal number
		double f = vp_sym("f", 1e-310, 2e-308);
		double g = f;
		if (moordyn::io::pack754 && moordyn::io::unpack754)
			g = (double)moordyn::io::unpack754(moordyn::io::pack754(f, 64, 11), 64, 11);
		vp_eq("a subnormal number stays negligible", g, f, 1e-300);
		return 0;
	}
	double f = vp_sym("f", -1, 1);
	moordyn::Log log(MOORDYN_NO_OUTPUT);
	struct L : public moordyn::io::IO
	{
		L(moordyn::Log* l) : IO(l) {}
		std::vector<uint64_t> Serialize() { return {}; }
		uint64_t* Deserialize(const uint64_t* p) { return (uint64_t*)p; }
	} io(&log);
	uint64_t w = ((moordyn::io::IO&)io).Serialize((const moordyn::real&)f);
	moordyn::real g = 0;
	((moordyn::io::IO&)io).Deserialize(&w, g);
	vp_eq("the number is restored", g, f, 0);
	return 0;
}
