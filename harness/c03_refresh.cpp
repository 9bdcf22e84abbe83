// C03: histories of tree refreshes between full builds, with bodies moved arbitrarily.
#include "bh_bound.h"
using namespace nb;

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	const char* layouts[] = {"tree", "heap", "heap_stackless"};
	const char* trav[] = {"cycle", "nested_tree"};
	const double ratios[] = {1.5, 3, 10, 30, 1e9};
	size_t runs = c.n(500, 9000);
	for(size_t k = 0; k < runs; ++k)
	{
		if(!c.begin("history", r)) { continue; }
		size_t n = k < 40 ? k + 1 : r.range(1, r.chance(0.2) ? 200 : 70);
		bodies b = make_bodies(r, n);
		double ratio = ratios[r.below(5)];
		std::vector<size_t> host(n);	// heavy bodies with light companions, which leave for other bodies
		bool comp = k % 4 == 3 && n >= 3;
		if(comp)
		{
			b.kind = "companions";
			for(size_t i = 0; i < n; ++i)
			{
				host[i] = i;
				if(i == 0 || r.chance(0.35)) { b.x[i] = r.uni(-20, 20); b.y[i] = r.uni(-20, 20); b.z[i] = r.uni(-20, 20); b.m[i] = r.logu(10, 1e4); continue; }
				size_t h = r.below(i);
				host[i] = host[h];
				double w = r.logu(1e-3, 0.3);
				b.x[i] = b.x[h] + r.uni(-w, w); b.y[i] = b.y[h] + r.uni(-w, w); b.z[i] = b.z[h] + r.uni(-w, w);
				b.m[i] = r.logu(1e-3, 1);
			}
			ratio = ratios[1 + r.below(3)];
		}
		size_t rate = r.chance(0.3) ? 1000000 : r.range(1, 6);
		const char* l = layouts[r.below(3)];
		const char* t = trav[r.below(2)];
		c.set_desc(fmt("n=%zu kind=%s ratio=%g rate=%zu layout=%s traverse=%s", n, b.kind.c_str(), ratio, rate, l, t));
		engine_run e(b, params({{"engine", "simple_bh"}, {"tree_layout", l}, {"traverse_type", t},
			{"distance_to_node_radius_ratio", ratio}, {"tree_build_rate", qulonglong(rate)}}));
		if(!c.check(e.ok, "init", "engine creation or init failed")) { continue; }
		size_t step = r.chance(0.5) ? 0 : r.below(20);
		int len = 2 + int(r.below(7));
		for(int i = 0; i < len; ++i)
		{
			e.eng->set_step(step);
			accel a = direct(b);
			size_t inexact = 0;
			std::vector<ld> bound = bh_bound(b, a, ratio, &inexact);
			std::vector<double> f = e.eval(b.state());
			std::string where;
			double q = compare(b, a, f, bound, where);
			bool refresh = i > 0 && step % rate != 0;
			c.ev(refresh ? "evaluations_after_refresh" : "evaluations_after_build");
			c.ev("pairs_allowed_inexact", inexact);
			c.check(q <= 1, fmt("accuracy:%s:%s:%s", refresh ? "refresh" : "build", l, t), fmt("evaluation %d at step %zu: ", i, step) + where);
			c.check(!e.input_changed, "input", "fcompute changed its input state");
			c.sample(fmt("evaluation %d at step %zu: error/bound %.3g", i, step, q));
			// move: small drift, large drift, permutation of places, collapse or a new configuration
			int mv = comp ? 5 : r.below(5);
			bodies o = b;
			for(size_t j = 0; j < n; ++j)
			{
				double w = mv == 0 ? 0.01 : 20;
				if(mv <= 1) { b.x[j] += r.uni(-w, w); b.y[j] += r.uni(-w, w); b.z[j] += r.uni(-w, w); }
				else if(mv == 2) { size_t q2 = r.below(n); b.x[j] = o.x[q2]; b.y[j] = o.y[q2]; b.z[j] = o.z[q2]; }
				else if(mv == 3 && j % 2) { b.x[j] = b.x[0]; b.y[j] = b.y[0]; b.z[j] = b.z[0]; }
				b.vx[j] += 0.5;
			}
			for(size_t j = 0; mv == 5 && j < n; ++j)
			{
				if(host[j] == j || r.chance(0.5)) { continue; }
				size_t q4 = r.below(n);
				double w = r.logu(0.01, 1);
				b.x[j] = o.x[q4] + r.uni(-w, w); b.y[j] = o.y[q4] + r.uni(-w, w); b.z[j] = o.z[q4] + r.uni(-w, w);
			}
			if(mv == 4) { bodies q3 = make_bodies(r, n); q3.m = b.m; b = q3; }
			step += r.chance(0.8) ? r.below(2) : r.below(7);	// several evaluations may share a step
			if(n > 1) { c.seen(fmt("%zu %g %zu %s %s %d %d", n, ratio, rate, l, t, mv, refresh)); }
		}
		if(k % 64 == 63) { c.flush(); }
	}
	// Large sets, sampled bodies
	size_t large = c.n(2, 40);
	for(size_t p = 0; p < large; ++p)
	{
		if(!c.begin("large", r)) { continue; }
		double k = ratios[r.below(5)];
		size_t n = static_cast<size_t>(r.logu(300, k > 100 ? 2000 : (k > 8 ? 6000 : 25000)));
		bodies b = make_bodies(r, n, r.chance(0.5) ? 0 : (r.chance(0.5) ? 1 : 4));
		const char* l = layouts[r.below(3)];
		const char* t = trav[r.below(2)];
		size_t rate = r.chance(0.5) ? 1000 : 3;
		c.set_desc(fmt("large n=%zu kind=%s ratio=%g rate=%zu layout=%s traverse=%s", n, b.kind.c_str(), k, rate, l, t));
		engine_run e(b, params({{"engine", "simple_bh"}, {"tree_layout", l}, {"traverse_type", t}, {"distance_to_node_radius_ratio", k}, {"tree_build_rate", qulonglong(rate)}}));
		if(!c.check(e.ok, "init", "engine creation or init failed")) { continue; }
		for(size_t step = 0; step < 3; ++step)
		{
			e.eng->set_step(step);
			std::string where;
			double q = bh_sampled(b, e.eval(b.state()), k, r, 25, where);
			c.ev("large sets");
			c.check(q <= 1, fmt("large:%s:%s", l, t), fmt("step %zu: ", step) + where);
			c.sample(fmt("error/bound %.3g", q));
			double w = r.logu(1e-3, 10);
			for(size_t j = 0; j < n; ++j) { b.x[j] += r.uni(-w, w); b.y[j] += r.uni(-w, w); b.z[j] += r.uni(-w, w); b.vx[j] += 0.5; }
		}
		c.seen(fmt("%zu %g %zu %s %s", n, k, rate, l, t));
	}
	return c.done();
}
