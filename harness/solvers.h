// Solver descriptions and test problems for the solver monitors.
#ifndef SOLVERS_H
#define SOLVERS_H
#include "ode.h"

namespace nb {
struct solver_kind
{
	const char* name;
	double documented;	// order stated in README.md
	double floor;	// order of the formula the solver propagates
	bool butcher, implicit_;
};
// The floors of rkck, rkdp, rkgl and rklc are the orders of the row of weights they use to advance the state.
static const solver_kind kinds[] = {
	{"euler", 1, 1, false, false}, {"midpoint", 2, 2, false, false}, {"midpoint-st", 2, 2, false, false},
	{"trapeze", 2, 2, false, true}, {"rk4", 4, 4, false, false}, {"rkck", 5, 4, true, false}, {"rkdp", 5, 4, true, false},
	{"rkdverk", 5, 5, true, false}, {"rkf", 7, 8, true, false}, {"rkfeagin10", 10, 10, true, false},
	{"rkfeagin12", 12, 12, true, false}, {"rkfeagin14", 14, 14, true, false}, {"rkgl", 6, 2, true, true},
	{"rklc", 4, 2, true, true}, {"bs", 8, 8, false, false}
};
static const size_t nkinds = sizeof(kinds) / sizeof(kinds[0]);

//! Six decoupled and coupled nonautonomous equations with known solutions; p are parameters
struct problem
{
	double w, a, s, c, e;
	explicit problem(rng& r) : w(r.uni(0.7, 1.3)), a(r.uni(0.1, 0.4)), s(r.uni(0.6, 1.2)), c(r.uni(0.3, 0.6)), e(r.uni(1, 3)) {}
	rhs_t rhs() const
	{
		problem p = *this;
		return [p](double t, const double* y, double* f, size_t n)
		{
			double om = p.w + p.a * std::sin(t);
			for(size_t i = 0; i < n; ++i) { f[i] = 0; }
			f[0] = om * y[1];
			f[1] = -om * y[0];
			f[2] = -2 * p.s * t * y[2] * y[2];
			f[3] = y[3] * p.s * std::sin(t);
			f[4] = p.c * std::cos(t) * (1 + y[4] * y[4]);
			f[5] = p.e * std::exp(-t);
		};
	}
	std::vector<double> exact(double t) const
	{
		long double T = t;
		long double g = w * T + a * (1 - std::cos(T));
		return {(double)std::sin(g), (double)std::cos(g), (double)(1 / (1 + s * T * T)), (double)std::exp(s * (1 - std::cos(T))),
				(double)std::tan(c * std::sin(T)), (double)(e * (1 - std::exp(-T)))};
	}
};

inline QVariantMap solver_params(const solver_kind& k, std::map<QString, QVariant> more = {})
{
	std::map<QString, QVariant> m{{"solver", k.name}, {"max_recursion", 0}, {"error_threshold", 0.0}, {"refine_steps_count", 40}, {"max_level", 4}};
	for(auto& e : more) { m[e.first] = e.second; }
	return QVariantMap(m);
}
} // namespace nb
#endif
