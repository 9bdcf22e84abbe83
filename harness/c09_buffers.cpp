// C09: buffer traffic between solvers and the engine, and independence of stale buffer contents.
#include "any_solver.h"
#include <omp.h>
using namespace nb;

struct outcome { std::vector<double> y; double t; size_t step; };

template<class E>
static outcome run_once(context& c, const QVariantMap& par, const problem& p, uint64_t poison, const std::vector<double>& dts, const std::set<size_t>& resets,
						size_t nb, double jump, bool account, const std::string& name)
{
	std::vector<double> y0(6 * nb, 0.25);
	auto ex = p.exact(0);
	std::copy(ex.begin(), ex.end(), y0.begin());
	E e(y0, p.rhs(), 0);
	e.poison = poison;
	outcome o;
	size_t early = 0;
	{
		auto so = make_solver(par);
		if(!so) { c.violation("create", "solver not created"); return o; }
		so->set_engine(&e);
		so->set_time_step(1e-9, 1);
		for(size_t i = 0; i < dts.size(); ++i)
		{
			if(resets.count(i))
			{
				so->reset();
				auto s = e.state();
				for(auto& v : s) { v += jump; }
				e.set_state(s);
			}
			so->advise(dts[i]);
			if(i == 15) { early = e.max_live; }
		}
	}
	o.y = e.state();
	o.t = e.get_time();
	o.step = e.get_step();
	if(account)
	{
		c.ev("buffers created", e.created);
		c.ev("derivative evaluations", e.evals);
		c.check(e.live.empty(), "leak:" + name, fmt("%zu of %zu buffers not returned to the engine", e.live.size(), e.created));
		c.check(e.foreign_free == 0, "foreign-free:" + name, fmt("%zu buffers freed twice or never obtained", e.foreign_free));
		c.check(e.dead_use == 0, "dead-use:" + name, fmt("%zu uses of buffers that are not the solver's", e.dead_use));
		c.check(e.bad_size == 0, "size:" + name, fmt("%zu buffers of a size other than the problem size", e.bad_size));
		if(dts.size() > 40)
		{
			c.check(e.max_live <= early + 40, "growth:" + name, fmt("%zu buffers held after %zu steps, %zu after 16", e.max_live, dts.size(), early));
		}
	}
	return o;
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	for(size_t k = 0; k < c.n(500, 20000); ++k)
	{
		if(!c.begin("buffers", r)) { continue; }
		std::string text;
		bool lng = r.chance(0.15);
		QVariantMap par = any_solver(r, text, lng);
		problem p(r);
		size_t n = lng ? r.range(120, 200) : r.range(0, 14);
		size_t nb = r.range(1, 5);
		std::vector<double> dts;
		double base = r.logu(1e-3, 1e-1) * (lng ? 0.1 : 1);
		for(size_t i = 0; i < n; ++i) { dts.push_back(r.chance(0.8) ? base : base * r.uni(0.3, 1)); }
		std::set<size_t> resets;
		if(r.chance(0.5)) { for(int i = 0; i < 2; ++i) { resets.insert(r.range(0, n)); } }
		double jump = r.uni(-0.1, 0.1);
		c.set_desc(fmt("%s steps=%zu bodies=%zu resets=%zu dt=%.3g", text.c_str(), n, nb, resets.size(), base));
		std::string name = par.value("solver").toString().toStdString();
		bool omp = r.chance(0.2);
		auto go = [&](uint64_t poison, bool acc)
		{
			return omp ? run_once<ode_engine_omp>(c, par, p, poison, dts, resets, nb, jump, acc, name)
				   : run_once<ode_engine>(c, par, p, poison, dts, resets, nb, jump, acc, name);
		};
		outcome a = go(0x3ff0000000000000ull, true);	// 1.0
		outcome b = go(0x7ff8000000000001ull, false);	// NaN
		outcome d = go(0xc1e0dead0000beefull, false);	// -2.2e9
		c.check(a.y.size() == b.y.size() && memcmp(a.y.data(), b.y.data(), 8 * a.y.size()) == 0, "stale:" + name, "result changes when new buffers contain NaN");
		c.check(a.y.size() == d.y.size() && memcmp(a.y.data(), d.y.data(), 8 * a.y.size()) == 0, "stale:" + name, "result changes when new buffers contain large numbers");
		c.check(a.t == b.t && a.step == b.step, "stale-time:" + name, "time or step changes with buffer contents");
		if(n > 0) { c.ev("nontrivial"); }
		c.seen(text + fmt("%zu", n));
		c.sample(fmt("%zu steps, final y0=%.6g", n, a.y.empty() ? 0 : a.y[0]));
	}
	return c.done();
}
