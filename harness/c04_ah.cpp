// C04: neighbour-list engine against an independent model of the full/sparse evaluation.
#include "nb.h"
using namespace nb;

struct model
{
	std::vector<std::vector<char>> near;	// near[i][j]: 1 near, 0 far, 2 undecided (too close to a limit)
	std::vector<ld> fx, fy, fz;				// far force per unit mass recorded at the last full evaluation
	std::vector<ld> slack;					// uncertainty from undecided pairs
	bool have = false;
};

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	size_t runs = c.n(900, 20000);
	for(size_t k = 0; k < runs; ++k)
	{
		if(!c.begin("history", r)) { continue; }
		size_t n = k < 20 ? k + 1 : r.range(1, r.chance(0.01) ? 700 : (r.chance(0.1) ? 120 : 40));
		bodies b = make_bodies(r, n, r.chance(0.5) ? 0 : -1);
		size_t rate = r.chance(0.2) ? 1000 : r.range(1, 7);
		double max_dist = r.chance(0.1) ? 0 : r.logu(0.5, 40), min_force = r.chance(0.2) ? 1e30 : r.logu(1e-4, 10);
		c.set_desc(fmt("n=%zu kind=%s rate=%zu max_dist=%g min_force=%g", n, b.kind.c_str(), rate, max_dist, min_force));
		engine_run e(b, params({{"engine", "ah"}, {"full_recompute_rate", uint(rate)}, {"max_dist", max_dist}, {"min_force", min_force}}));
		if(!c.check(e.ok, "init", "engine creation or init failed")) { continue; }
		// the engine may be given another data set, of the same or another size
		size_t sets = r.chance(0.25) ? r.range(2, 3) : 1;
		for(size_t set = 0; set < sets; ++set)
		{
			if(set)
			{
				if(r.chance(0.5)) { n = r.range(1, 40); }
				b = make_bodies(r, n);
				c.set_desc(fmt("data set %zu of one engine: n=%zu kind=%s rate=%zu max_dist=%g min_force=%g", set, n, b.kind.c_str(), rate, max_dist, min_force));
				if(!c.check(e.reinit(b), "reinit", "init with another data set failed")) { break; }
				c.ev("data sets on one engine");
			}
			size_t step = r.chance(0.7) ? 0 : r.below(30);
			int len = 2 + int(r.below(10));
			model m;
			for(int i = 0; i < len; ++i)
			{
				e.eng->set_step(step);
				std::vector<double> f = e.eval(b.state());
				bool full = step % rate == 0 || !m.have;
				accel a = direct(b), want = a;
				std::vector<ld> bound(n);
				for(size_t q = 0; q < n; ++q) { bound[q] = a.mag[q] * rounding_tol(n) + 1e-300L; }
				if(full)
				{
					m.have = true;
					m.near.assign(n, std::vector<char>(n, 0));
					m.fx.assign(n, 0); m.fy = m.fz = m.slack = m.fx;
					for(size_t p = 0; p < n; ++p)
					{
						for(size_t q = 0; q < n; ++q)
						{
							if(p == q) { continue; }
							ld fx, fy, fz, mg;
							pair(b, p, q, fx, fy, fz, mg);
							ld dx = ld(b.x[p]) - b.x[q], dy = ld(b.y[p]) - b.y[q], dz = ld(b.z[p]) - b.z[q];
							ld d = sqrtl(dx * dx + dy * dy + dz * dz), F = mg * b.m[p];
							bool tie = fabsl(d - max_dist) < 1e-9L * (d + max_dist) || fabsl(F - min_force) < 1e-9L * (F + min_force);
							bool nr = d < max_dist || F > min_force;
							if(tie && !(d < max_dist * (1 - 1e-8) || F > min_force * (1 + 1e-8))) { m.near[p][q] = 2; c.ev("undecided_pairs"); continue; }
							m.near[p][q] = nr;
							if(!nr) { m.fx[p] += fx; m.fy[p] += fy; m.fz[p] += fz; m.slack[p] += mg; }
						}
					}
				}
				else
				{
					for(size_t p = 0; p < n; ++p)
					{
						want.ax[p] = m.fx[p]; want.ay[p] = m.fy[p]; want.az[p] = m.fz[p];
						ld s = m.slack[p] * rounding_tol(n);
						for(size_t q = 0; q < n; ++q)
						{
							if(p == q || m.near[p][q] == 0) { continue; }
							ld fx, fy, fz, mg;
							pair(b, p, q, fx, fy, fz, mg);
							want.ax[p] += fx; want.ay[p] += fy; want.az[p] += fz;
							s += mg * rounding_tol(n);
							if(m.near[p][q] == 2) { s = INFINITY; }
							c.ev("near_pairs");
						}
						bound[p] = s + 1e-300L;
					}
				}
				std::string where;
				double q = compare(b, want, f, bound, where);
				c.ev(full ? "full_evaluations" : "sparse_evaluations");
				c.check(q <= 1, full ? "full" : "sparse", fmt("evaluation %d at step %zu: ", i, step) + where);
				c.check(!e.input_changed, "input", "fcompute changed its input state");
				c.sample(fmt("evaluation %d at step %zu (%s): error/bound %.3g", i, step, full ? "full" : "sparse", q));
				if(n > 1) { c.seen(fmt("%zu %zu %g %g %d", n, rate, max_dist, min_force, full)); }
				for(size_t j = 0; j < n; ++j)
				{
					double w = r.chance(0.3) ? 5 : 0.1;
					b.x[j] += r.uni(-w, w); b.y[j] += r.uni(-w, w); b.z[j] += r.uni(-w, w);
					b.vx[j] += 0.25;
				}
				step += r.chance(0.8) ? r.below(2) : r.below(9);
			}
		}
		if(k % 128 == 127) { c.flush(); }
	}
	return c.done();
}
