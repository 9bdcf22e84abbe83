// C15: Adams-Bashforth weights, order of use of the history, global order.
#include "any_solver.h"
#include <omp.h>
using namespace nb;

static QVariantMap par(size_t rank, const std::string& st, bool corr)
{
	return QVariantMap(std::map<QString, QVariant>{{"solver", "adams"}, {"rank", (uint)rank}, {"starter_solver", QString(st.c_str())}, {"correction", corr},
		{"max_recursion", 0}, {"refine_steps_count", 20}, {"max_level", 4}, {"error_threshold", 0.0}});
}

template<class E>
static void inc_run(context& c, size_t rank, const std::string& st, bool corr, size_t steps, double dt, double t0, double T,
					const rhs_t& f, const std::function<long double(long double)>& prim, double& worst, size_t& at)
{
	E e({0, 0, 0, 0, 0, 0}, f, t0);
	auto so = make_solver(par(rank, st, corr));
	if(!c.check(so != nullptr, "create", "adams not created")) { return; }
	so->set_engine(&e);
	std::vector<double> y = e.state();
	for(size_t i = 0; i < steps; ++i)
	{
		double ta = e.get_time();
		so->advise(dt);
		auto z = e.state();
		if(i > rank)
		{
			c.ev("multistep steps");
			long double inc = prim((long double)ta + dt) - prim(ta);
			for(size_t q = 0; q < 6; ++q)
			{
				double er = std::fabs((double)((long double)z[q] - y[q] - inc * (long double)(1 + q)));
				// rounding of the state, of the abscissae and of the weighted sum (weights up to 3.9)
				double tol = 2.3e-16 * 16 * (std::max(std::fabs(y[q]), std::fabs(z[q])) + (1 + q) * rank * dt * (1 + (std::fabs(ta) + dt) * rank / T));
				if(er > tol && er / tol > worst) { worst = er / tol; at = i; }
			}
		}
		y = z;
	}
	so.reset();
}

//! increments over polynomials of degree < rank are exact once started, whatever the starter did
static void increments(context& c, rng& r, bool longrun)
{
	size_t rank = longrun ? r.range(2, 5) : r.range(1, 5);
	std::string st = longrun ? "euler" : r.chance(0.1) ? "adams" : kinds[r.below(nkinds)].name;
	bool corr = r.chance(0.5), omp = r.chance(0.2) && !longrun;
	size_t steps = longrun ? r.range(66000, 140000) : r.chance(0.1) ? r.range(100, 400) : r.range(rank + 2, 40);
	double dt = r.logu(1e-3, 0.3), t0 = r.uni(-2, 2);
	std::vector<double> co;
	for(size_t i = 0; i < rank; ++i) { co.push_back(r.uni(-1, 1)); }
	double T = steps * dt;
	c.set_desc(fmt("increments rank=%zu starter=%s corr=%d steps=%zu dt=%.6g t0=%.6g", rank, st.c_str(), corr, steps, dt, t0));
	auto prim = [&](long double t)
	{
		long double u = (t - (long double)t0) / T, s = 0;
		for(size_t i = rank; i-- > 0;) { s = s * u + co[i] / (long double)(i + 1); }
		return (long double)T * u * s;
	};
	rhs_t f = [&](double t, const double*, double* o, size_t n)
	{
		long double u = (t - (long double)t0) / T, s = 0;
		for(size_t i = rank; i-- > 0;) { s = s * u + co[i]; }
		for(size_t i = 0; i < n; ++i) { o[i] = (double)s * (1 + (double)i); }
	};
	double worst = 0;
	size_t at = 0;
	if(omp) { inc_run<ode_engine_omp>(c, rank, st, corr, steps, dt, t0, T, f, prim, worst, at); }
	else { inc_run<ode_engine>(c, rank, st, corr, steps, dt, t0, T, f, prim, worst, at); }
	c.check(worst == 0, fmt("increment:%zu", rank), fmt("step %zu of rank %zu integrates a polynomial of degree %zu with %.3g times the rounding error", at, rank, rank - 1, worst));
	c.seen(c.desc);
	c.sample("all increments exact");
}

static void order(context& c, rng& r)
{
	size_t rank = r.range(1, 5);
	static const std::vector<std::string> good = {"rk4", "rkdp", "rkf", "bs", "rkck", "rkdverk", "midpoint", "euler", "rkfeagin10"};
	std::string st = r.pick(good);
	double so_order = st == "euler" ? 1 : st == "midpoint" ? 2 : 4;
	double want = std::min<double>(rank, so_order + 1);
	bool corr = r.chance(0.3);
	problem p(r);
	double T = r.uni(1.5, 2.2);
	std::vector<double> lx, ly;
	double best = 1e300;
	c.set_desc(fmt("order rank=%zu starter=%s corr=%d T=%.6g w=%.6g a=%.6g s=%.6g c=%.6g e=%.6g", rank, st.c_str(), corr, T, p.w, p.a, p.s, p.c, p.e));
	for(int n = 64; n <= 512; n = n * 3 / 2)
	{
		ode_engine e(p.exact(0), p.rhs(), 0);
		auto so = make_solver(par(rank, st, corr));
		so->set_engine(&e);
		for(int i = 0; i < n; ++i) { so->advise(T / n); }
		so.reset();
		auto y = e.state(), x = p.exact(T);
		double er = 0;
		for(size_t i = 0; i < x.size(); ++i) { er += (y[i] - x[i]) * (y[i] - x[i]); }
		er = std::sqrt(er);
		best = std::min(best, er);
		if(std::isfinite(er) && er > 4e-12) { lx.push_back(-std::log((double)n)); ly.push_back(std::log(er)); }
		c.ev("integrations");
	}
	double slope = 0;
	size_t m = lx.size();
	if(m >= 3)
	{
		double sx = 0, sy = 0, sxx = 0, sxy = 0;
		for(size_t i = 0; i < m; ++i) { sx += lx[i]; sy += ly[i]; sxx += lx[i] * lx[i]; sxy += lx[i] * ly[i]; }
		slope = (m * sxy - sx * sy) / (m * sxx - sx * sx);
		if(getenv("SHOW")) { fprintf(stderr, "rank %zu %s slope %.2f want %.0f best %.1e\n", rank, st.c_str(), slope, want, best); }
		c.check(slope >= want - 0.5, fmt("order:%zu", rank), fmt("error shrinks like h^%.2f, expected h^%.0f", slope, want));
	}
	c.seen(fmt("o %zu %s", rank, st.c_str()));
	c.sample(fmt("slope %.2f over %zu step sizes", slope, m));
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	for(size_t k = 0; k < c.n(600, 20000); ++k)
	{
		if(!c.begin("adams", r)) { continue; }
		if(k % 10 == 0) { order(c, r); }
		else { increments(c, r, k % 75 == 1); }
	}
	return c.done();
}
