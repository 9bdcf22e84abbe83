// C07: compensated accumulation over long runs.
#include "any_solver.h"
#include <omp.h>
using namespace nb;
static double ulp(double x) { x = std::fabs(x); return std::nextafter(x, 1e308) - x; }

//! The operation itself: many calls with several terms, against a long-double sum of the same products
static void operation(context& c, rng& r)
{
	static const std::vector<std::string> en = {"simple", "openmp", "block", "simple_bh", "ah"};
	std::string name = r.pick(en);
	size_t n = r.range(1, 4), terms = r.range(1, 5), calls = r.logu(50, c.thorough ? 200000 : 30000);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params({{"engine", QString(name.c_str())}})));
	nbody_data d;
	make_bodies(r, n, 0).fill(d);
	if(!c.check(e && e->init(&d), "init", name)) { return; }
	size_t ps = e->problem_size();
	auto a = e->create_buffer(8 * ps), corr = e->create_buffer(8 * ps);
	auto b = e->create_buffers(8 * ps, terms);
	std::vector<double> start(ps), big(ps);
	for(auto& v : start) { v = r.uni(0.5, 2) * (r.chance(0.5) ? 1 : -1) * (r.chance(0.2) ? 1000 : 1); }
	double scale = r.logu(1e-12, 1e-3);
	int sign = r.range(0, 2);	// one-sided or mixed increments
	e->write_buffer(a, start.data());
	e->fill_buffer(corr, 0);
	std::vector<__float128> ref(start.begin(), start.end());
	std::vector<double> mx(ps), tot(ps, 0);
	for(size_t i = 0; i < ps; ++i) { mx[i] = std::fabs(start[i]); }
	std::vector<std::vector<double>> t(terms, std::vector<double>(ps));
	std::vector<double> co(terms);
	c.set_desc(fmt("operation %s bodies=%zu terms=%zu calls=%zu scale=%.3g", name.c_str(), n, terms, calls, scale));
	for(size_t k = 0; k < calls; ++k)
	{
		if(k % 16 == 0)
		{
			for(size_t q = 0; q < terms; ++q)
			{
				for(auto& v : t[q]) { v = scale * r.uni(sign == 0 ? -1 : 0.1, 1) * (sign == 2 ? -1 : 1); }
				e->write_buffer(b[q], t[q].data());
				co[q] = r.chance(0.1) ? 0 : r.uni(0.5, 1);
			}
		}
		e->fmaddn_corr(a, corr, b, co.data(), terms);
		for(size_t i = 0; i < ps; ++i)
		{
			for(size_t q = 0; q < terms; ++q) { ref[i] += (__float128)t[q][i] * co[q]; tot[i] += std::fabs(t[q][i] * co[q]); }
			mx[i] = std::max(mx[i], std::fabs((double)ref[i]));
		}
	}
	std::vector<double> out(ps);
	e->read_buffer(out.data(), a);
	double worst = 0;
	for(size_t i = 0; i < ps; ++i)
	{
		double er = std::fabs((double)(ref[i] - out[i]));
		// few ulps of the state plus the rounding of the increments themselves
		double tol = 4 * ulp(mx[i]) + 4 * 2.3e-16 * tot[i];
		worst = std::max(worst, er / tol);
	}
	c.ev("compensated additions", calls * ps);
	c.check(worst <= 1, "operation:" + name, fmt("error after %zu calls is %.3g times the bound", calls, worst));
	c.seen(c.desc);
	c.sample(fmt("worst error/bound %.3g", worst));
	e->free_buffer(a);
	e->free_buffer(corr);
	e->free_buffers(b);
}

//! Solvers on y' = const: the state must not drift
static void solver(context& c, rng& r)
{
	static const std::vector<std::string> names = {"adams", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc"};
	std::string name = r.pick(names);
	bool adaptive = name != "adams" && r.chance(0.35);
	size_t rank = r.range(1, 5);
	size_t steps = r.logu(100, c.thorough ? 20000 : 3000);
	std::map<QString, QVariant> m{{"solver", QString(name.c_str())}, {"correction", true}, {"rank", (uint)rank}, {"starter_solver", "rkdp"},
		{"max_recursion", adaptive ? 2 : 0}, {"substep_subdivisions", 3}, {"refine_steps_count", 1}, {"error_threshold", adaptive ? -1.0 : 1.0}};
	std::vector<double> rate(6);
	double scale = r.logu(1e-9, 1e-2);
	for(auto& v : rate) { v = scale * r.uni(0.3, 1) * (r.chance(0.3) ? -1 : 1); }
	rhs_t f = [&](double, const double*, double* o, size_t n) { for(size_t i = 0; i < n; ++i) { o[i] = rate[i % 6]; } };
	double dt = r.logu(1e-3, 1);
	std::vector<double> y0(6);
	for(auto& v : y0) { v = r.uni(0.5, 2) * (r.chance(0.5) ? 1 : -1); }
	ode_engine e(y0, f, 0);
	auto so = make_solver(QVariantMap(m));
	so->set_engine(&e);
	so->set_time_step(1e-12, dt);
	c.set_desc(fmt("solver %s rank=%zu adaptive=%d steps=%zu dt=%.3g scale=%.3g", name.c_str(), rank, adaptive, steps, dt, scale));
	size_t parts = r.range(1, 2);
	double worst = 0, ratio = 0;
	for(size_t part = 0; part < parts; ++part)
	{
		auto s0 = e.state();
		if(part > 0)
		{
			so->reset();
			for(auto& v : s0) { v = r.uni(0.5, 2); }
			e.set_state(s0);
		}
		for(size_t i = 0; i < steps; ++i) { so->advise(dt); }
		auto y = e.state();
		for(size_t i = 0; i < 6; ++i)
		{
			long double ref = (long double)s0[i] + (long double)rate[i] * dt * steps;
			double inc = std::fabs(rate[i]) * dt * steps;
			double er = std::fabs((double)(ref - y[i]));
			// weights of the methods sum to 1 with an absolute sum up to about 15; each step may round dt*b[i] and the product
			double tol = 6 * ulp(std::max(std::fabs(s0[i]), std::fabs((double)ref))) + 40 * 2.3e-16 * inc * (name == "rkgl" || name == "rklc" ? 2 : 1);
			worst = std::max(worst, er / tol);
			ratio = std::max(ratio, er / ulp(y[i]));
		}
		c.ev("compensated steps", steps);
	}
	if(getenv("SHOW")) { fprintf(stderr, "%s adaptive=%d steps=%zu worst %.3g ulps %.3g\n", name.c_str(), adaptive, steps, worst, ratio); }
	c.check(worst <= 1, "solver:" + name, fmt("state drifts to %.3g times the bound (%.3g ulps) in %zu steps", worst, ratio, steps));
	so.reset();
	c.seen(c.desc);
	c.sample(fmt("worst error %.3g ulps", ratio));
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	for(size_t k = 0; k < c.n(300, 5000); ++k)
	{
		if(!c.begin("kahan", r)) { continue; }
		if(k % 3 == 0) { operation(c, r); }
		else { solver(c, r); }
	}
	return c.done();
}
