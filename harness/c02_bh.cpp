// C02: Barnes-Hut forces against the error bound of the opening rule; layouts and traversals.
#include "bh_bound.h"
using namespace nb;

static QVariantMap bh(const char* layout, const char* tt, double k, int rate = 0)
{
	return params({{"engine", "simple_bh"}, {"tree_layout", layout}, {"traverse_type", tt},
		{"distance_to_node_radius_ratio", k}, {"tree_build_rate", rate}});
}
static const char* layouts[] = {"tree", "heap", "heap_stackless"};
static const char* trav[] = {"cycle", "nested_tree"};

static double maxdiff(const std::vector<double>& f, const std::vector<double>& g, const accel& a)
{
	size_t n = a.ax.size();
	double w = 0;
	for(size_t i = 0; i < n; ++i)
	{
		for(int k = 0; k < 6; ++k)
		{
			double e = std::fabs(f[k * n + i] - g[k * n + i]);
			double s = k < 3 ? 1e-300 : double(a.newt[i]) * 1e-12 + 1e-300;
			w = std::max(w, std::isnan(e) ? INFINITY : e / s);
		}
	}
	return w;
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	std::vector<size_t> counts;
	for(size_t n = 1; n <= 18; ++n) { counts.push_back(n); }
	for(size_t n : {23, 31, 32, 33, 47, 63, 64, 65, 66, 67, 96, 100, 127, 128, 129, 131, 192, 200, 256}) { counts.push_back(n); }
	size_t rnd = c.n(50, 1200);
	for(size_t k = 0; k < rnd; ++k) { counts.push_back(0); }
	const double ratios[] = {1.3, 2, 3, 5, 10, 30, 1000, 1e9};
	for(size_t ci = 0; ci < counts.size(); ++ci)
	{
		size_t reps = counts[ci] && counts[ci] < 70 ? c.n(4, 20) : 1;
		for(size_t rep = 0; rep < reps; ++rep)
		{
			if(!c.begin(fmt("n=%zu", counts[ci]), r)) { continue; }
			size_t n = counts[ci] ? counts[ci] : r.range(1, c.n(150, 300));
			bodies b = make_bodies(r, n);
			double k = ratios[r.below(8)];
			if(n >= 3 && r.chance(0.2))	// light companions far from heavy bodies and close to others
			{
				b.kind = "companions";
				for(size_t i = 0; i < n; ++i)
				{
					bool heavy = i == 0 || r.chance(0.3);
					b.m[i] = heavy ? r.logu(10, 1e5) : r.logu(1e-4, 1);
					if(heavy || r.chance(0.3)) { b.x[i] = r.uni(-20, 20); b.y[i] = r.uni(-20, 20); b.z[i] = r.uni(-20, 20); continue; }
					size_t h = r.below(i);
					double w = r.logu(0.01, 5);
					b.x[i] = b.x[h] + r.uni(-w, w); b.y[i] = b.y[h] + r.uni(-w, w); b.z[i] = b.z[h] + r.uni(-w, w);
				}
				k = ratios[1 + r.below(5)];
			}
			c.set_desc(fmt("n=%zu kind=%s ratio=%g", n, b.kind.c_str(), k));
			accel a = direct(b);
			size_t inexact = 0;
			std::vector<ld> bound = bh_bound(b, a, k, &inexact);
			std::vector<double> res[3][2];
			for(int l = 0; l < 3; ++l)
			{
				for(int t = 0; t < 2; ++t)
				{
					c.set_desc(fmt("n=%zu kind=%s ratio=%g layout=%s traverse=%s", n, b.kind.c_str(), k, layouts[l], trav[t]));
					engine_run e(b, bh(layouts[l], trav[t], k));
					if(!c.check(e.ok, "init", "engine creation or init failed")) { continue; }
					res[l][t] = e.eval(b.state());
					std::string where;
					double q = compare(b, a, res[l][t], bound, where);
					c.ev("evaluations");
					c.ev("pairs_allowed_inexact", inexact);
					c.check(q <= 1, fmt("accuracy:%s:%s", layouts[l], trav[t]), where);
					c.check(!e.input_changed, "input", "fcompute changed its input state");
					c.sample(fmt("error/bound %.3g, %zu of %zu pairs may be grouped", q, inexact, n * (n - 1)));
				}
				c.check(maxdiff(res[l][0], res[l][1], a) <= 1, fmt("traversals:%s", layouts[l]), "cycle and nested_tree traversal differ");
			}
			c.check(maxdiff(res[1][0], res[2][0], a) <= 1, "heap-layouts", "heap and heap_stackless differ");
			if(n > 1) { c.seen(fmt("%zu %s %g", n, b.kind.c_str(), k)); }
		}
		if(ci % 16 == 15) { c.flush(); }
	}
	// A close pair seen by a third body just inside the opening distance must not be lumped
	size_t probes = c.n(600, 12000);
	for(size_t p = 0; p < probes; ++p)
	{
		if(!c.begin("probe", r)) { continue; }
		double k = r.chance(0.3) ? 10 : r.logu(1.5, 60);
		double h = r.logu(1e-2, 10), mr = r.logu(1e-3, 1e3);
		double u = r.uni(-1, 1), ph = r.uni(0, 6.2831853), s = std::sqrt(1 - u * u);
		double ox = s * std::cos(ph), oy = s * std::sin(ph), oz = u;
		if(r.chance(0.3)) { ox = oy = oz = 0; (r.below(3) == 0 ? ox : r.below(2) ? oy : oz) = 1; }
		bodies b;
		b.kind = "probe";
		double cx = r.uni(-5, 5), cy = r.uni(-5, 5), cz = r.uni(-5, 5);
		double m1 = 1, m2 = mr;
		double com = (m2 - m1) / (m1 + m2) * h;	// offset of the centre of mass along the axis
		double R = h + std::fabs(com);
		double frac = r.uni(0.3, 1.3);
		double D = k * R * frac;
		double u2 = r.uni(-1, 1), p2 = r.uni(0, 6.2831853), s2 = std::sqrt(1 - u2 * u2);
		b.add(cx - ox * h, cy - oy * h, cz - oz * h, 0.1, 0.2, 0.3, m1);
		b.add(cx + ox * h, cy + oy * h, cz + oz * h, -0.1, 0.2, 0.3, m2);
		b.add(cx + ox * com + D * s2 * std::cos(p2), cy + oy * com + D * s2 * std::sin(p2), cz + oz * com + D * u2, 0, 0, 1, r.uni(0.5, 2));
		size_t probe_idx = r.below(3);
		std::swap(b.x[2], b.x[probe_idx]); std::swap(b.y[2], b.y[probe_idx]); std::swap(b.z[2], b.z[probe_idx]);
		std::swap(b.m[2], b.m[probe_idx]);
		accel a = direct(b);
		std::vector<ld> bound = bh_bound(b, a, k);
		bool inside = frac < 1 - 1e-6;
		if(inside) { bound[probe_idx] = a.newt[probe_idx] * 1e-12L; }
		else { bound[probe_idx] = std::max(bound[probe_idx], a.newt[probe_idx] * ld(4.0 / k / k + 1e-12)); }
		for(int l = 0; l < 3; ++l)
		{
			int t = r.below(2);
			c.set_desc(fmt("pair-probe layout=%s traverse=%s ratio=%g distance/limit=%.4f masses=1:%.3g", layouts[l], trav[t], k, frac, mr));
			engine_run e(b, bh(layouts[l], trav[t], k));
			std::vector<double> f = e.eval(b.state());
			std::string where;
			double q = compare(b, a, f, bound, where);
			c.ev(inside ? "probe_inside" : "probe_outside");
			c.check(q <= 1, fmt("%s:%s:%s", inside ? "opening-rule" : "probe-accuracy", layouts[l], trav[t]), where);
		}
		c.seen(fmt("probe %g %g %g", k, frac, mr));
	}
	// Large sets, sampled bodies
	size_t large = c.n(3, 60);
	for(size_t p = 0; p < large; ++p)
	{
		if(!c.begin("large", r)) { continue; }
		double k = ratios[1 + r.below(r.chance(0.3) ? 7 : 5)];
		size_t n = static_cast<size_t>(r.logu(300, k > 100 ? 2500 : (k > 8 ? 8000 : 40000)));
		if(r.chance(0.2)) { n = size_t(1) << r.range(9, k > 100 ? 11 : 13); n += r.below(3); n -= 1; }
		bodies b = make_bodies(r, n, r.chance(0.5) ? 0 : (r.chance(0.5) ? 1 : 4));
		int l = r.below(3), t = r.below(2);
		c.set_desc(fmt("large n=%zu kind=%s ratio=%g layout=%s traverse=%s", n, b.kind.c_str(), k, layouts[l], trav[t]));
		engine_run e(b, bh(layouts[l], trav[t], k));
		if(!c.check(e.ok, "init", "engine creation or init failed")) { continue; }
		size_t inexact = 0;
		std::string where;
		double q = bh_sampled(b, e.eval(b.state()), k, r, 40, where, &inexact);
		c.ev("large sets");
		c.ev("sampled bodies", 40);
		c.check(q <= 1, fmt("large:%s:%s", layouts[l], trav[t]), where);
		c.seen(fmt("%zu %s %g", n, b.kind.c_str(), k));
		c.sample(fmt("error/bound %.3g, %zu pairs may be grouped", q, inexact));
	}
	// One engine object used for several data sets in turn
	size_t again = c.n(250, 4000);
	for(size_t p = 0; p < again; ++p)
	{
		if(!c.begin("reinit", r)) { continue; }
		const char* lay = layouts[r.below(3)];
		const char* tt = trav[r.below(2)];
		double k = ratios[r.below(8)];
		std::unique_ptr<nbody_engine> e(nbody_create_engine(bh(lay, tt, k, r.below(4))));
		if(!c.check(bool(e), "init", "engine creation failed")) { continue; }
		for(int set = 0; set < 4; ++set)
		{
			size_t n = r.range(1, r.chance(0.2) ? 150 : 20);
			bodies b = make_bodies(r, n);
			c.set_desc(fmt("data set %d of one engine: n=%zu kind=%s ratio=%g layout=%s traverse=%s", set, n, b.kind.c_str(), k, lay, tt));
			nbody_data d;
			b.fill(d);
			d.set_step(r.below(4));
			if(!c.check(e->init(&d), "reinit", "init failed")) { break; }
			nbody_engine::memory* f = e->create_buffer(8 * e->problem_size());
			std::vector<double> res(6 * n);
			e->fcompute(0, e->get_y(), f);
			e->read_buffer(res.data(), f);
			e->free_buffer(f);
			accel a = direct(b);
			std::vector<ld> bound = bh_bound(b, a, k);
			std::string where;
			c.check(compare(b, a, res, bound, where) <= 1, fmt("reinit:%s:%s", lay, tt), where);
			c.ev("data sets on one engine");
		}
	}
	return c.done();
}
