// C10: order of convergence, quadrature exactness and evaluation times of every solver.
#include "solvers.h"
#include <omp.h>
using namespace nb;

static double err_of(const std::vector<double>& y, const std::vector<double>& x)
{
	double s = 0;
	for(size_t i = 0; i < x.size(); ++i) { s += (y[i] - x[i]) * (y[i] - x[i]); }
	return std::isfinite(s) ? std::sqrt(s) : 1e300;
}

template<class E>
static void convergence(context& c, const solver_kind& k, rng& r, const QVariantMap& par, double floor_order, double doc, const std::string& tag)
{
	problem p(r);
	double T = r.uni(1.5, 2.5);
	c.set_desc(fmt("%s T=%.17g w=%.17g a=%.17g s=%.17g c=%.17g e=%.17g", tag.c_str(), T, p.w, p.a, p.s, p.c, p.e));
	static const int ns[] = {1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512, 768};
	std::vector<double> lx, ly;
	double best = 1e300;
	for(int n : ns)
	{
		E e(p.exact(0), p.rhs(), 0);
		e.record = true;
		auto so = make_solver(par);
		if(!c.check(so != nullptr, "create", std::string("cannot create ") + k.name)) { return; }
		so->set_engine(&e);
		double dt = T / n;
		so->set_time_step(dt * 1e-6, dt);
		bool inside = true;
		double bad = 0, bad0 = 0;
		for(int i = 0; i < n; ++i)
		{
			double t0 = e.get_time();
			e.eval_times.clear();
			so->advise(dt);
			for(double t : e.eval_times)
			{
				c.ev("derivative evaluations");
				if(!(t >= t0 - 1e-9 * dt && t <= t0 + dt * (1 + 1e-9))) { inside = false; bad = t; bad0 = t0; }
			}
		}
		c.check(inside, std::string("evaltime:") + k.name, fmt("%s requested a derivative at t=%.17g in the step from %.17g of size %.17g", k.name, bad, bad0, dt));
		double er = err_of(e.state(), p.exact(T));
		best = std::min(best, er);
		c.ev("integrations");
		if(er < 3e-2 && er > 4e-12) { lx.push_back(std::log(1.0 / n)); ly.push_back(std::log(er)); }
		so.reset();
		if(er < 1e-13) { break; }
	}
	// slope over the finest points above the rounding floor
	double slope = 0, worst = 0;
	size_t m = lx.size(), q = std::min<size_t>(m, 6);
	if(m >= 2)
	{
		double sx = 0, sy = 0, sxx = 0, sxy = 0;
		for(size_t i = m - q; i < m; ++i) { sx += lx[i]; sy += ly[i]; sxx += lx[i] * lx[i]; sxy += lx[i] * ly[i]; }
		slope = (q * sxy - sx * sy) / (q * sxx - sx * sx);
	}
	(void)worst;
	c.sample(fmt("slope %.2f over %zu of %zu points, best error %.2g", slope, q, m, best));
	c.seen(tag + fmt("%.3g", T));
	if(getenv("C10_SHOW")) { fprintf(stderr, "%-20s slope %.2f m=%zu best %.1e\n", tag.c_str(), slope, m, best); }
	double slack = 0.5 + 0.04 * floor_order;
	// so accurate with so few steps that no two points lie above the rounding floor: nothing to fit
	bool trivial = m < 2 && best < 1e-11;
	c.check(trivial || (m >= 2 && slope >= floor_order - slack), std::string("order:") + tag,
			fmt("error of %s shrinks like h^%.2f, expected h^%.0f (best error %.2g)", k.name, slope, floor_order, best));
	// the documented order, where it differs
	if(doc > floor_order)
	{
		c.check(m >= 2 && slope >= doc - 0.5 - 0.04 * doc, std::string("documented-order:") + k.name,
				fmt("README.md gives order %.0f for %s, its error shrinks like h^%.2f", doc, k.name, slope));
	}
}

static void quadrature(context& c, const solver_kind& k, rng& r)
{
	int maxdeg = static_cast<int>(k.floor) - 1;
	double t0 = r.uni(-1, 1), dt = r.logu(1e-3, 1.5);
	std::vector<double> co;
	for(int i = 0; i <= maxdeg; ++i) { co.push_back(r.uni(-1, 1)); }
	c.set_desc(fmt("quadrature %s degree %d t0=%.17g dt=%.17g", k.name, maxdeg, t0, dt));
	// polynomial in (t - t0)/dt keeps the scaling of the terms equal
	double mag = 0;
	auto f = [&](double t, const double*, double* o, size_t n)
	{
		long double u = ((long double)t - t0) / dt, s = 0;
		for(int i = maxdeg; i >= 0; --i) { s = s * u + co[i]; }
		for(size_t i = 0; i < n; ++i) { o[i] = (double)s * (1 + i); }
		mag = std::max(mag, std::fabs((double)s));
	};
	long double in = 0;
	for(int i = maxdeg; i >= 0; --i) { in += (long double)co[i] / (i + 1); }
	in *= dt;
	double y0 = r.uni(-1, 1);
	ode_engine e({y0, 0, 0, 0, 0, 0}, f, t0);
	auto so = make_solver(solver_params(k));
	so->set_engine(&e);
	so->advise(dt);
	auto y = e.state();
	// weights of the high-order methods reach +-10; the abscissae carry a relative error of an ulp of t, amplified by the degree
	double d1 = maxdeg + 1;
	double tol = 2e-15 * (std::fabs(y0) + 60 * dt * mag + d1 * d1 * (std::fabs(t0) + dt) * mag);
	double worst = 0;
	for(size_t i = 0; i < 6; ++i)
	{
		double ref = (double)((i == 0 ? (long double)y0 : 0.0L) + in * (1 + i));
		worst = std::max(worst, std::fabs(y[i] - ref));
	}
	c.ev("polynomial steps");
	c.seen(fmt("q %s %d %.2g", k.name, maxdeg, dt));
	if(getenv("C10_SHOW")) { fprintf(stderr, "quad %s err %.2e tol %.2e\n", k.name, worst, tol); }
	c.check(worst <= tol, std::string("quadrature:") + k.name, fmt("%s integrates a polynomial of degree %d with error %.3g (allowed %.3g)", k.name, maxdeg, worst, tol));
	so.reset();
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	size_t rounds = c.n(3, 40);
	for(size_t round = 0; round < rounds; ++round)
	{
		for(const auto& k : kinds)
		{
			if(c.begin(std::string("convergence ") + k.name, r))
			{
				if(round % 4 == 1) { convergence<ode_engine_omp>(c, k, r, solver_params(k), k.floor, k.documented, k.name); }
				else { convergence<ode_engine>(c, k, r, solver_params(k), k.floor, k.documented, k.name); }
			}
			for(size_t q = 0; q < 8; ++q)
			{
				if(c.begin(std::string("quadrature ") + k.name, r)) { quadrature(c, k, r); }
			}
			if(k.butcher && !k.implicit_ && c.begin(std::string("convergence with correction ") + k.name, r))
			{
				convergence<ode_engine>(c, k, r, solver_params(k, {{"correction", true}}), k.floor, k.floor, std::string(k.name) + "+corr");
			}
		}
		// orders that depend on parameters
		for(int lev = 1; lev <= 6; ++lev)
		{
			solver_kind k = kinds[nkinds - 1];
			if(c.begin(fmt("bs max_level %d", lev), r))
			{
				convergence<ode_engine>(c, k, r, solver_params(k, {{"max_level", lev}}), 2 * lev, 2 * lev, fmt("bs%d", lev));
			}
		}
	}
	return c.done();
}
