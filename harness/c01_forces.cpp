// C01: exact engines against an extended-precision direct sum.
#include "nb.h"
using namespace nb;

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	const char* engines[] = {"simple", "openmp", "block"};
	std::vector<size_t> counts;
	for(size_t n = 1; n <= 20; ++n) { counts.push_back(n); }
	for(size_t n : {31, 32, 33, 63, 64, 65, 66, 95, 96, 100, 127, 128, 129, 130, 191, 192, 193, 200, 255, 256, 257}) { counts.push_back(n); }
	size_t rnd = c.n(60, 1500);
	for(size_t k = 0; k < rnd; ++k) { counts.push_back(0); }
	for(size_t k = 0; k < c.n(2, 40); ++k) { counts.push_back(r.range(500, 3000)); }
	for(size_t ci = 0; ci < counts.size(); ++ci)
	{
		for(const char* en : engines)
		{
			size_t reps = counts[ci] && counts[ci] <= 130 ? c.n(3, 16) : 1;
			for(size_t rep = 0; rep < reps; ++rep)
			{
				if(!c.begin(fmt("engine=%s n=%zu rep=%zu", en, counts[ci], rep), r)) { continue; }
				size_t n = counts[ci] ? counts[ci] : r.range(1, c.n(160, 400));
				bodies b = make_bodies(r, n);
				c.set_desc(fmt("engine=%s n=%zu kind=%s", en, n, b.kind.c_str()));
				engine_run e(b, params({{"engine", en}}));
				if(!c.check(e.ok, std::string("init:") + en, "engine creation or init failed")) { continue; }
				// the state handed over by init is the state of the data set
				std::vector<double> y0(6 * n);
				c.check(e.eng->problem_size() == 6 * n, "problem-size", fmt("problem size %zu for %zu bodies", e.eng->problem_size(), n));
				e.eng->read_buffer(y0.data(), e.eng->get_y());
				std::vector<double> st = b.state();
				c.check(memcmp(y0.data(), st.data(), st.size() * 8) == 0, std::string("init-state:") + en, "engine state after init differs from the data set");
				int evals = n > 400 ? 1 : 1 + int(r.below(3));
				for(int k = 0; k < evals; ++k)
				{
					if(k)
					{
						bodies b2 = make_bodies(r, n);
						b2.m = b.m;
						b2.kind = b.kind;
						b = b2;
						st = b.state();
						e.eng->set_step(r.below(1000));
						e.eng->set_time(r.uni(-10, 10));
					}
					std::vector<double> f = e.eval(st, r.uni(-100, 100));
					accel a = direct(b);
					std::vector<ld> bound(n);
					for(size_t i = 0; i < n; ++i) { bound[i] = a.mag[i] * rounding_tol(n) + 1e-300L; }
					std::string where;
					double q = compare(b, a, f, bound, where);
					c.ev("bodies_compared", n);
					c.ev(std::string("eval_") + en);
					c.check(q <= 1, std::string("force:") + en, where);
					c.check(!e.input_changed, std::string("input:") + en, "fcompute changed its input state");
					// total momentum change vanishes
					ld px = 0, pm = 0;
					for(size_t i = 0; i < n; ++i) { px += ld(b.m[i]) * f[3 * n + i]; pm += b.m[i] * a.mag[i]; }
					c.check(fabsl(px) <= 4 * pm * rounding_tol(n) + 1e-290L, std::string("momentum:") + en, fmt("sum m*ax = %Lg of %Lg", px, pm));
					if(n > 1) { c.seen(fmt("%s %zu %s", en, n, b.kind.c_str())); }
					c.sample(fmt("max error/bound %.3g", q));
				}
				// the state is reported back unchanged
				nbody_data back;
				bodies z = b;
				z.fill(back);
				e.eng->get_data(&back);
				bool same = true;
				for(size_t i = 0; i < n; ++i)
				{
					const nbvertex_t& p = back.get_vertites()[i];
					const nbvertex_t& v = back.get_velosites()[i];
					same = same && p.x == y0[i] && p.y == y0[n + i] && p.z == y0[2 * n + i] &&
						   v.x == y0[3 * n + i] && v.y == y0[4 * n + i] && v.z == y0[5 * n + i];
				}
				c.check(same, std::string("get-data:") + en, "state read back differs from the engine state");
			}
		}
		if(ci % 16 == 15) { c.flush(); }
	}
	return c.done();
}
