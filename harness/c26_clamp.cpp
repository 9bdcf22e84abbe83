// C26: box wrapping.
#include "nb.h"
using namespace nb;
int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	std::vector<QVariantMap> engines = {params({{"engine", "simple"}}), params({{"engine", "openmp"}}), params({{"engine", "block"}}),
		params({{"engine", "ah"}}), params({{"engine", "simple_bh"}}), params({{"engine", "simple_bh"}, {"tree_layout", "heap_stackless"}})};
	size_t runs = c.n(1500, 40000);
	for(size_t k = 0; k < runs; ++k)
	{
		if(!c.begin("clamp", r)) { continue; }
		size_t n = k < 70 ? k + 1 : r.range(1, 200);
		QVariantMap ep = engines[k % engines.size()];
		double box = r.chance(0.6) ? double(r.range(1, 1000)) : r.logu(1e-3, 1e6);
		bodies b;
		bool far = r.chance(0.3);
		auto coord = [&]() -> double
		{
			switch(r.below(8))
			{
			case 0: return box;
			case 1: return -box;
			case 2: return std::nextafter(box, 2 * box);
			case 3: return -std::nextafter(box, 2 * box);
			case 4: return (r.chance(0.5) ? 1 : -1) * r.uni(1, 3) * box;
			case 5: return far ? r.uni(-40, 40) * box : r.uni(-3, 3) * box;
			case 6: return std::nextafter(box, 0.0);
			default: return r.uni(-1, 1) * box;
			}
		};
		for(size_t i = 0; i < n; ++i) { b.add(coord(), coord(), coord(), coord() * 5, coord() * 5, coord() * 5, 1); }
		std::string en = ep["engine"].toString().toStdString();
		c.set_desc(fmt("engine=%s n=%zu box=%g", en.c_str(), n, box));
		engine_run e(b, ep);
		if(!c.check(e.ok, "init", "engine creation or init failed")) { continue; }
		std::vector<double> s = b.state(), got(6 * n);
		nbody_engine::memory* y = e.eng->get_y();
		if(r.chance(0.5)) { y = e.y = e.eng->create_buffer(6 * n * sizeof(nbcoord_t)); e.eng->write_buffer(y, s.data()); }
		e.eng->clamp(y, box);
		e.eng->read_buffer(got.data(), y);
		size_t moved = 0;
		for(size_t i = 0; i < 6 * n; ++i)
		{
			double x = s[i], want = x;
			if(i < 3 * n)
			{
				if(x > box) { want = x - 2 * box; }
				else if(x < -box) { want = x + 2 * box; }
				moved += want != x;
			}
			bool ok = got[i] == want;
			// wrapping by exactly one box length; rounding of the shift may reach the opposite edge
			if(!ok && want != x) { ok = std::fabs(got[i] - want) <= 4e-16 * (std::fabs(x) + 2 * box); }
			if(!c.check(ok, fmt("%s:%s", i < 3 * n ? "position" : "velocity", en.c_str()), fmt("element %zu of %zu: %.17g became %.17g, expected %.17g", i, 6 * n, x, got[i], want))) { break; }
			if(i < 3 * n && std::fabs(x) <= 3 * box)
			{
				c.check(std::fabs(got[i]) <= box * (1 + 1e-15), "inside:" + en, fmt("%.17g wrapped to %.17g, outside box %g", x, got[i], box));
			}
		}
		c.ev("coordinates", 3 * n);
		c.ev("coordinates_moved", moved);
		if(moved) { c.seen(fmt("%s %zu %g", en.c_str(), n, box)); }
		c.sample(fmt("%zu of %zu coordinates wrapped", moved, 3 * n));
	}
	return c.done();
}
