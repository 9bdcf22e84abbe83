// C28: OpenCL engines on the device simulator (oclgrind, which reports invalid and racing accesses to a log)
// against the direct sum, the opening-rule bound, the CPU engines and a host model of the vector operations.
#include "bh_bound.h"
#include "any_solver.h"
#include <exception>
using namespace nb;

struct setup
{
	std::string dev;
	size_t dc, bs, n;
};
static setup make_setup(context& c, rng& r, size_t limit)
{
	static const struct { const char* d; size_t n; } devs[] = {{"0:0", 1}, {"0:0,0", 2}, {"0:0;0:0", 2}, {"0:0,0,0,0", 4}, {"0:0,0;0:0,0", 4},
		{"0:0;0:0;0:0;0:0", 4}, {"0:0,0,0,0,0,0,0,0", 8}};
	static const size_t sizes[] = {4, 8, 16, 32, 64, 64, 2, 1};
	setup s;
	for(;;)
	{
		size_t k = r.below(7);
		if(r.chance(0.3) || (k == 6 && limit < 60)) { k = 0; }
		s.dev = devs[k].d; s.dc = devs[k].n; s.bs = sizes[r.below(8)];
		if(s.dc * s.bs > limit) { continue; }
		// oclgrind loses track of initialised memory when part of a buffer is copied to another (devices sharing a context)
		if(c.arg == "uninit" && s.dc > 1 && s.dev.find(';') == std::string::npos) { continue; }
		s.n = s.dc * s.bs * r.range(1, limit / (s.dc * s.bs));
		return s;
	}
}
static QVariantMap cl(const setup& s)
{
	return params({{"engine", "opencl"}, {"device", s.dev.c_str()}, {"block_size", int(s.bs)}});
}
static std::string text(const setup& s) { return fmt("devices=%s block=%zu n=%zu", s.dev.c_str(), s.bs, s.n); }

static void forces(context& c, rng& r)
{
	setup s = make_setup(c, r, c.thorough ? 512 : 128);
	bodies b = make_bodies(r, s.n);
	c.set_desc("forces " + text(s) + " kind=" + b.kind);
	engine_run e(b, cl(s));
	if(!c.check(e.ok, "init", "engine creation or init failed")) { return; }
	for(int k = 0; k < 2; ++k)
	{
		if(k) { std::vector<double> st = b.state(); for(double& v : st) { v += r.uni(-1, 1); } b.set_state(st); }
		accel a = direct(b);
		std::vector<ld> bound(s.n);
		for(size_t i = 0; i < s.n; ++i) { bound[i] = a.mag[i] * rounding_tol(s.n) + 1e-300L; }
		std::string where;
		std::vector<double> f = e.eval(b.state(), r.uni(0, 10));
		c.check(compare(b, a, f, bound, where) <= 1, "forces", where);
		c.check(!e.input_changed, "input", "fcompute changed its input state");
		c.ev("force evaluations");
	}
	nbody_data copy(*e.data);
	e.eng->get_data(&copy);
	for(size_t i = 0; i < s.n; ++i)
	{
		if(!c.check(copy.get_vertites()[i] == e.data->get_vertites()[i] && copy.get_velosites()[i] == e.data->get_velosites()[i], "get-data", "state read back differs from the initial one")) { break; }
	}
}

static void tree(context& c, rng& r)
{
	setup s = make_setup(c, r, c.thorough ? 384 : 96);
	bool sl = r.chance(0.5), nested = r.chance(0.5);
	const double ratios[] = {1.3, 2.1, 3.3, 5.7, 10.1, 1e9};
	double k = ratios[r.below(6)];
	int rate = r.below(5);
	bodies b = make_bodies(r, s.n);
	QVariantMap p = params({{"engine", "opencl_bh"}, {"device", s.dev.c_str()}, {"block_size", int(s.bs)}, {"tree_layout", sl ? "heap_stackless" : "heap"},
		{"traverse_type", nested ? "nested_tree" : "cycle"}, {"distance_to_node_radius_ratio", k}, {"tree_build_rate", rate}});
	QVariantMap q = p;
	q["engine"] = "simple_bh";
	c.set_desc(fmt("tree %s kind=%s ratio=%g rate=%d %s %s", text(s).c_str(), b.kind.c_str(), k, rate, sl ? "stackless" : "heap", nested ? "nested" : "cycle"));
	engine_run e(b, p), cpu(b, q);
	if(!c.check(e.ok && cpu.ok, "init", "engine creation or init failed")) { return; }
	bool ties = b.kind == "grid" || b.kind == "coincident" || b.kind == "collinear" || b.kind == "near-softening";
	size_t step = r.below(5), evals = r.range(2, 5);
	for(size_t t = 0; t < evals; ++t)
	{
		e.eng->set_step(step);
		cpu.eng->set_step(step);
		accel a = direct(b);
		std::vector<ld> bound = bh_bound(b, a, k);
		std::vector<double> f = e.eval(b.state()), g = cpu.eval(b.state());
		std::string where;
		bool refreshed = t && rate && step % rate;
		c.ev(refreshed ? "evaluations on a refreshed tree" : "evaluations on a built tree");
		c.check(compare(b, a, f, bound, where) <= 1, fmt("tree-accuracy:%s", refreshed ? "refreshed" : "built"), where);
		c.check(!e.input_changed, "input", "fcompute changed its input state");
		if(!ties)
		{
			for(size_t i = 0; i < s.n; ++i)
			{
				ld d = 0;
				for(int w = 3; w < 6; ++w) { d = std::max(d, fabsl(ld(f[w * s.n + i]) - g[w * s.n + i])); }
				if(!c.check(d <= a.newt[i] * 1e-10L, "tree-vs-cpu", fmt("evaluation %zu, body %zu differs from the CPU tree engine by %.3Lg of %.3Lg", t, i, d, a.newt[i]))) { break; }
			}
			c.ev("comparisons with the CPU tree engine");
		}
		step += r.below(3);
		std::vector<double> st = b.state();
		double w = r.logu(1e-3, 20);
		for(double& v : st) { v += r.uni(-w, w); }
		b.set_state(st);
	}
	c.seen(c.desc);
}

static void vectors(context& c, rng& r)
{
	setup s = make_setup(c, r, c.thorough ? 512 : 128);
	c.set_desc("vectors " + text(s));
	bodies b = make_bodies(r, s.n, 0);
	engine_run e(b, cl(s));
	if(!c.check(e.ok, "init", "engine creation or init failed")) { return; }
	nbody_engine* g = e.eng.get();
	size_t ps = g->problem_size(), nv = r.range(4, 6);
	std::vector<nbody_engine::memory*> m(nv);
	std::vector<std::vector<double>> v(nv, std::vector<double>(ps));
	auto num = [&]() { return (r.chance(0.5) ? -1 : 1) * r.logu(1e-3, 1e3); };
	for(size_t i = 0; i < nv; ++i)
	{
		m[i] = g->create_buffer(ps * sizeof(nbcoord_t));
		c.check(m[i]->size() == ps * sizeof(nbcoord_t), "buffer-size", "buffer reports another size than requested");
		for(double& x : v[i]) { x = num(); }
		g->write_buffer(m[i], v[i].data());
	}
	int ops = 5 + int(r.below(c.thorough ? 20 : 8));
	for(int o = 0; o < ops; ++o)
	{
		size_t a = r.below(nv), p = r.below(nv), q = r.below(nv), corr = nv - 1;
		double k = r.chance(0.1) ? 0 : num();
		std::vector<double> want = v[a];
		std::vector<ld> tol(ps, 0);
		std::string key;
		switch(r.below(10))
		{
		case 0: key = "copy"; g->copy_buffer(m[a], m[p]); want = v[p]; break;
		case 1: key = "fill"; g->fill_buffer(m[a], k); want.assign(ps, k); break;
		case 2:
			key = "fmadd_inplace";
			if(p == a) { p = (a + 1) % nv; }
			g->fmadd_inplace(m[a], m[p], k);
			for(size_t i = 0; i < ps; ++i) { want[i] = double(ld(v[a][i]) + ld(v[p][i]) * k); tol[i] = (fabsl(v[a][i]) + fabsl(ld(v[p][i]) * k)) * 4e-16L; }
			break;
		case 3:
			key = "fmadd";
			g->fmadd(m[a], m[p], m[q], k);
			for(size_t i = 0; i < ps; ++i) { want[i] = double(ld(v[p][i]) + ld(v[q][i]) * k); tol[i] = (fabsl(v[p][i]) + fabsl(ld(v[q][i]) * k)) * 4e-16L; }
			break;
		case 4: case 5: case 6:
		{
			int kind = r.below(3);
			key = kind == 0 ? "fmaddn_inplace" : kind == 1 ? "fmaddn" : "fmaddn_corr";
			if(kind == 2 && a == corr) { a = 0; want = v[a]; }
			nbody_engine::memory_array arr;
			std::vector<double> cf;
			std::vector<size_t> tm;
			size_t na = r.range(1, 4), nc = r.below(na + 1);
			for(size_t i = 0; i < na; ++i)
			{
				size_t t;
				do { t = r.below(nv); } while(t == a || t == corr);
				tm.push_back(t); arr.push_back(m[t]); cf.push_back(r.chance(0.3) ? 0 : num());
			}
			bool base = r.chance(0.7);
			if(kind == 2) { g->fill_buffer(m[corr], 0); g->fmaddn_corr(m[a], m[corr], arr, cf.data(), nc); g->read_buffer(v[corr].data(), m[corr]); }
			else if(kind == 0) { g->fmaddn_inplace(m[a], arr, cf.data(), nc); }
			else { g->fmaddn(m[a], base ? m[p] : nullptr, arr, cf.data(), nc); }
			for(size_t i = 0; i < ps; ++i)
			{
				ld x = kind == 1 ? (base ? v[p][i] : 0) : v[a][i], sc = fabsl(x);
				for(size_t w = 0; w < nc; ++w) { ld t = ld(v[tm[w]][i]) * cf[w]; x += t; sc += fabsl(t); }
				want[i] = double(x); tol[i] = sc * (nc + 2) * 3e-16L;
			}
			break;
		}
		case 7: case 8:
		{
			key = "fmaxabs";
			double res = -1, mx = 0;
			if(r.chance(0.7))	// a maximum at an end of a device's part, where a reduction loses it first
			{
				size_t part = ps / s.dc, at = part * r.below(s.dc) + (r.chance(0.5) ? part - 1 : r.chance(0.5) ? 0 : r.below(part));
				v[a][at] = (r.chance(0.5) ? -1 : 1) * r.logu(2e3, 1e4);
				g->write_buffer(m[a], v[a].data());
				want = v[a];
			}
			for(double x : v[a]) { mx = std::max(mx, std::fabs(x)); }
			g->fmaxabs(m[a], res);
			c.check(res == mx, "fmaxabs", fmt("fmaxabs returned %.17g, maximum is %.17g", res, mx));
			break;
		}
		default:
		{
			key = "clamp";
			double box = r.logu(1, 100);
			g->clamp(m[a], box);
			for(size_t i = 0; i < ps / 2; ++i)
			{
				if(want[i] > box) { want[i] -= 2 * box; tol[i] = 4e-16L * (fabsl(v[a][i]) + 2 * box); }
				else if(want[i] < -box) { want[i] += 2 * box; tol[i] = 4e-16L * (fabsl(v[a][i]) + 2 * box); }
			}
		}
		}
		c.ev("op_" + key);
		for(size_t j = 0; j < nv; ++j)
		{
			std::vector<double> got(ps);
			g->read_buffer(got.data(), m[j]);
			for(size_t i = 0; i < ps; ++i)
			{
				ld d = fabsl(ld(got[i]) - (j == a ? want[i] : v[j][i]));
				if(!(d <= (j == a ? tol[i] : 0)))
				{
					c.violation(key + (j == a ? "" : ":side-effect"), fmt("operation %d: element %zu of vector %zu (destination %zu) is %.17g, expected %.17g", o, i, j, a, got[i], j == a ? want[i] : v[j][i]));
					break;
				}
			}
			c.ev("elements compared", ps);
			v[j] = got;
		}
		c.seen(fmt("%s %s", key.c_str(), c.desc.c_str()));
	}
	for(auto p : m) { g->free_buffer(p); }
	// buffers of other sizes are filled, copied, written and read whole
	size_t os = r.chance(0.3) ? r.range(1, 4) : r.range(1, 3 * ps);
	auto p = g->create_buffer(os * sizeof(nbcoord_t)), q = g->create_buffer(os * sizeof(nbcoord_t));
	std::vector<double> src(os), got(os);
	for(double& x : src) { x = num(); }
	g->write_buffer(p, src.data());
	g->copy_buffer(q, p);
	g->read_buffer(got.data(), q);
	c.check(got == src, "copy:size", fmt("a copied buffer of %zu numbers differs (problem size %zu)", os, ps));
	double fv = num();
	g->fill_buffer(q, fv);
	g->read_buffer(got.data(), q);
	c.check(std::all_of(got.begin(), got.end(), [&](double d) { return d == fv; }), "fill:size", fmt("a filled buffer of %zu numbers is not uniform (problem size %zu)", os, ps));
	g->free_buffer(p); g->free_buffer(q);
	c.ev("buffers of other sizes", 2);
}

//! Compensated addition: the relaxed floating-point mode of the kernels must not remove the compensation
static void compensated(context& c, rng& r)
{
	setup s = make_setup(c, r, 16);
	s.n = s.dc * s.bs;
	c.set_desc("compensated " + text(s));
	bodies b = make_bodies(r, s.n, 0);
	engine_run e(b, cl(s));
	if(!c.check(e.ok, "init", "engine creation or init failed")) { return; }
	nbody_engine* g = e.eng.get();
	size_t ps = g->problem_size(), calls = c.thorough ? 400 : 60;
	auto a = g->create_buffer(8 * ps), corr = g->create_buffer(8 * ps), t = g->create_buffer(8 * ps);
	std::vector<double> st(ps), inc(ps), out(ps);
	for(size_t i = 0; i < ps; ++i) { st[i] = r.uni(1, 2); inc[i] = r.uni(1, 9) * 1e-17; }	// every increment is below half an ulp
	g->write_buffer(a, st.data()); g->write_buffer(t, inc.data()); g->fill_buffer(corr, 0);
	double k = 1;
	for(size_t q = 0; q < calls; ++q) { g->fmaddn_corr(a, corr, {t}, &k, 1); }
	g->read_buffer(out.data(), a);
	for(size_t i = 0; i < ps; ++i)
	{
		ld ref = ld(st[i]) + ld(inc[i]) * calls;
		if(!c.check(fabsl(out[i] - ref) <= 4.5e-16L, "compensation", fmt("element %zu: %.17g after %zu increments of %g, expected %.17g", i, out[i], calls, inc[i], double(ref)))) { break; }
	}
	c.ev("compensated additions", calls * ps);
	g->free_buffer(a); g->free_buffer(corr); g->free_buffer(t);
}

static void trajectory(context& c, rng& r)
{
	setup s = make_setup(c, r, c.thorough ? 128 : 64);
	std::string name;
	QVariantMap sp = any_solver(r, name, true);
	sp["max_level"] = 2u;
	sp["refine_steps_count"] = 1u;
	bool box = r.chance(0.3);
	bodies b = make_bodies(r, s.n, 0);
	bool bh = r.chance(0.5);
	c.set_desc(fmt("trajectory %s solver %s%s%s", text(s).c_str(), name.c_str(), box ? " wrapped" : "", bh ? " tree" : ""));
	QVariantMap p = cl(s);
	if(bh)	// a ratio this large opens every group
	{
		p["engine"] = "opencl_bh"; p["tree_build_rate"] = int(r.below(4)); p["distance_to_node_radius_ratio"] = 1e9; p["traverse_type"] = r.chance(0.5) ? "cycle" : "nested_tree";
		p["tree_layout"] = r.chance(0.5) ? "heap" : "heap_stackless";
	}
	engine_run e(b, p), o(b, params({{"engine", "openmp"}}));
	if(!c.check(e.ok && o.ok, "init", "engine creation or init failed")) { return; }
	std::unique_ptr<nbody_solver> s1(nbody_create_solver(sp)), s2(nbody_create_solver(sp));
	s1->set_engine(e.eng.get()); s2->set_engine(o.eng.get());
	double dt = 1e-3;
	s1->set_time_step(dt, dt); s2->set_time_step(dt, dt);
	size_t steps = c.thorough ? 8 : 4;
	for(size_t k = 0; k < steps; ++k)
	{
		if(box && k) { e.eng->clamp(e.eng->get_y(), 8); o.eng->clamp(o.eng->get_y(), 8); }
		s1->advise(dt); s2->advise(dt);
		c.ev("solver steps compared");
	}
	c.check(e.eng->get_step() == o.eng->get_step() && e.eng->get_time() == o.eng->get_time(), "clock", "time or step differs from the CPU engine");
	std::vector<double> x(6 * s.n), y(6 * s.n);
	e.eng->read_buffer(x.data(), e.eng->get_y()); o.eng->read_buffer(y.data(), o.eng->get_y());
	// distances keep above 1e-2 with overwhelming probability, so rounding is amplified by at most ~1e6
	for(size_t i = 0; i < x.size(); ++i)
	{
		if(!c.check(std::fabs(x[i] - y[i]) <= 1e-8 * (1 + std::fabs(y[i])), "trajectory", fmt("element %zu is %.17g, on the CPU engine %.17g", i, x[i], y[i]))) { break; }
	}
	nbody_data& d1 = *e.data; nbody_data& d2 = *o.data;
	e.eng->get_data(&d1); o.eng->get_data(&d2);
	d1.print_statistics(e.eng.get()); d2.print_statistics(o.eng.get());
	nbvertex_t i = d1.get_last_total_impulce() - d2.get_last_total_impulce();
	nbvertex_t l = d1.get_last_total_impulce_moment() - d2.get_last_total_impulce_moment();
	nbvertex_t m = d1.get_last_mass_center() - d2.get_last_mass_center();
	c.check(i.length() < 1e-6 && l.length() < 1e-5 && m.length() < 1e-6, "statistics", "reported momentum, angular momentum or mass centre differ from the CPU engine");
	c.seen(c.desc);
}

//! One engine object used for several data sets in turn
static void reinit(context& c, rng& r)
{
	setup s = make_setup(c, r, 64);
	bool bh = r.chance(0.6);
	QVariantMap p = cl(s);
	if(bh) { p["engine"] = "opencl_bh"; p["tree_build_rate"] = 3; p["distance_to_node_radius_ratio"] = 1e9; p["traverse_type"] = r.chance(0.5) ? "cycle" : "nested_tree";
		p["tree_layout"] = r.chance(0.5) ? "heap" : "heap_stackless"; }
	std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
	if(!c.check(bool(e), "init", "engine creation failed")) { return; }
	for(int k = 0; k < 3; ++k)
	{
		size_t n = s.dc * s.bs * r.range(1, 128 / (s.dc * s.bs));
		bodies b = make_bodies(r, n, 0);
		c.set_desc(fmt("reinit %s data set %d with %zu bodies %s", text(s).c_str(), k, n, bh ? "tree" : "direct"));
		nbody_data d;
		b.fill(d);
		d.set_step(r.below(3));
		if(!c.check(e->init(&d), "reinit", "init failed")) { return; }
		auto f = e->create_buffer(8 * e->problem_size());
		std::vector<double> res(6 * n);
		e->fcompute(0, e->get_y(), f);
		e->read_buffer(res.data(), f);
		accel a = direct(b);
		std::vector<ld> bound(n);
		for(size_t i = 0; i < n; ++i) { bound[i] = a.mag[i] * rounding_tol(n) + a.newt[i] * 1e-13L; }
		std::string where;
		c.check(compare(b, a, res, bound, where) <= 1, "reinit-forces", where);
		e->free_buffer(f);
		c.ev("data sets on one engine");
	}
}

//! Body counts the engine does not support must be refused by init, not fail later
static void unsupported(context& c, rng& r)
{
	setup s = make_setup(c, r, 64);
	bool bh = r.chance(0.5), odd = c.arg != "uninit" && r.chance(0.3);
	size_t n = r.chance(0.2) ? r.below(2) : r.range(1, 150);
	if(odd)	// device counts that are not a power of two
	{
		static const char* list[] = {"0:0,0,0", "0:0;0:0;0:0", "0:0,0;0:0", "0:0,0,0,0,0"};
		s.dev = list[r.below(4)]; s.dc = s.dev == list[3] ? 5 : 3; s.bs = size_t(1) << r.below(4);
		n = s.dc * s.bs * r.range(1, 3);
	}
	QVariantMap p = cl(s);
	if(bh) { p["engine"] = "opencl_bh"; p["distance_to_node_radius_ratio"] = 1e9; p["traverse_type"] = r.chance(0.5) ? "cycle" : "nested_tree"; }
	bodies b = make_bodies(r, n, 0);
	c.set_desc(fmt("any count %s: %zu bodies %s", text(s).c_str(), n, bh ? "tree" : "direct"));
	engine_run e(b, p);
	c.ev(e.ok ? "counts accepted" : "counts refused");
	bool supported = !odd && n > 0 && n % (s.dc * s.bs) == 0;
	c.check(e.ok || !supported, "refused", "a supported body count was refused");
	if(!e.ok || n == 0) { return; }
	accel a = direct(b);
	std::vector<ld> bound(n);
	for(size_t i = 0; i < n; ++i) { bound[i] = a.mag[i] * rounding_tol(n) + a.newt[i] * 1e-13L; }
	std::string where;
	c.check(compare(b, a, e.eval(b.state()), bound, where) <= 1, "unsupported-forces", where);
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	long pos = 0;
	void (*kinds[])(context&, rng&) = {forces, tree, tree, vectors, vectors, trajectory, reinit, unsupported, compensated};
	size_t runs = c.arg == "uninit" ? c.n(72, 1500) : c.n(144, 3000);
	for(size_t k = 0; k < runs; ++k)
	{
		size_t kind = (k / c.shards) % 9;
		if(!c.begin("case", r)) { continue; }
		try { kinds[kind](c, r); }
		catch(std::exception& x) { c.violation(fmt("exception:%zu", kind), fmt("uncaught exception: %s", x.what())); }
		c.ev("cases");
		device_log(c, pos);
		if(k % 64 == 63) { c.flush(); }
	}
	return c.done();
}
