// C16: a reset solver against a new one, bit for bit.
#include "any_solver.h"
#include <omp.h>
using namespace nb;
int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	for(size_t k = 0; k < c.n(700, 30000); ++k)
	{
		if(!c.begin("reset", r)) { continue; }
		std::string text;
		QVariantMap par = any_solver(r, text);
		std::string name = par.value("solver").toString().toStdString();
		problem p(r), p2(r);
		bool stiff = r.chance(0.3);
		double amp = stiff ? r.uni(1, 30) : 1;
		auto f0 = p.rhs(), f1 = p2.rhs();
		bool second = false;
		rhs_t f = [&](double t, const double* y, double* o, size_t n)
		{
			if(second) { f1(t, y, o, n); }
			else
			{
				f0(t, y, o, n);
				for(size_t i = 0; i < n; ++i) { o[i] *= amp; }
			}
		};
		size_t n1 = r.range(1, 12), n2 = r.range(1, 12);
		std::vector<double> d1, d2;
		for(size_t i = 0; i < n1; ++i) { d1.push_back(r.logu(1e-3, 1e-1)); }
		double base = r.logu(1e-3, 1e-1);
		for(size_t i = 0; i < n2; ++i) { d2.push_back(r.chance(0.7) ? base : base * r.uni(0.3, 1)); }
		double t1 = r.uni(-1, 2);
		auto y1 = p2.exact(t1);
		size_t many = r.chance(0.2) ? 2 : 1;
		c.set_desc(fmt("%s history=%zu then %zu steps from t=%.4g", text.c_str(), n1, n2, t1));

		ode_engine a(p.exact(0), f, 0);
		auto sa = make_solver(par);
		sa->set_engine(&a);
		sa->set_time_step(1e-9, 1);
		if(r.chance(0.2)) { sa->reset(); }	// reset before any use must do nothing
		for(size_t i = 0; i < n1; ++i) { sa->advise(d1[i]); }
		for(size_t q = 0; q < many; ++q) { sa->reset(); }
		a.set_state(y1);
		a.set_time(t1);
		a.set_step(0);

		ode_engine b(y1, f, t1);
		auto sb = make_solver(par);
		sb->set_engine(&b);
		sb->set_time_step(1e-9, 1);
		second = true;
		size_t bad = 0, at = 0;
		for(size_t i = 0; i < n2 && !bad; ++i)
		{
			sa->advise(d2[i]);
			sb->advise(d2[i]);
			auto ya = a.state(), yb = b.state();
			c.ev("steps compared");
			if(memcmp(ya.data(), yb.data(), 8 * ya.size()) || a.get_time() != b.get_time() || a.get_step() != b.get_step()) { bad = 1; at = i; }
		}
		c.check(!bad, "reset:" + name, fmt("state differs from a new solver's at step %zu after the reset", at));
		sa.reset();
		sb.reset();
		c.seen(text + fmt("%zu %zu", n1, n2));
		c.sample(fmt("%zu+%zu steps identical", n1, n2));
	}
	return c.done();
}
