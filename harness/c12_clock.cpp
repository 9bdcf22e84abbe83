// C12: time and step counter of every solver on real engines, and agreement of engine and data set.
#include "any_solver.h"
#include <omp.h>
using namespace nb;
int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	static const std::vector<std::string> engines = {"simple", "openmp", "block", "simple_bh", "ah"};
	for(size_t k = 0; k < c.n(500, 20000); ++k)
	{
		if(!c.begin("clock", r)) { continue; }
		std::string text, en = r.pick(engines);
		QVariantMap par = any_solver(r, text);
		std::map<QString, QVariant> ep{{"engine", QString(en.c_str())}};
		if(en == "simple_bh") { ep["tree_layout"] = r.chance(0.5) ? "heap" : "tree"; }
		std::unique_ptr<nbody_engine> e(nbody_create_engine(QVariantMap(ep)));
		size_t n = r.range(1, 9);
		bodies b = make_bodies(r, n, 0);
		nbody_data d;
		b.fill(d);
		double t = r.chance(0.3) ? 0 : r.uni(-5, 50);
		size_t s = r.chance(0.3) ? 0 : r.below(1000000);
		d.set_time(t);
		d.set_step(s);
		if(!c.check(e && e->init(&d), "init", "engine")) { continue; }
		auto so = make_solver(par);
		if(!c.check(so != nullptr, "create", "solver " + text)) { continue; }
		so->set_engine(e.get());
		so->set_time_step(1e-9, 1);
		size_t steps = r.range(1, 12);
		std::string name = par.value("solver").toString().toStdString();
		c.set_desc(fmt("%s on %s bodies=%zu t0=%.17g step0=%zu", text.c_str(), en.c_str(), n, t, s));
		bool reset_mid = r.chance(0.3);
		bool any_dt = r.chance(0.3);
		double dt = any_dt ? r.logu(1e-9, 1) : r.logu(1e-4, 1e-1);
		for(size_t i = 0; i < steps; ++i)
		{
			if(r.chance(0.3)) { dt = any_dt ? r.logu(1e-9, 1) : r.logu(1e-4, 1e-1); }
			if(reset_mid && i == steps / 2) { so->reset(); }
			so->advise(dt);
			double want = t + dt;
			double tol = 2.3e-16 * std::max(std::fabs(want), std::fabs(t));	// one rounding
			c.ev("steps");
			c.check(std::fabs(e->get_time() - want) <= tol, "time:" + name, fmt("step of %.17g from %.17g ends at %.17g", dt, t, e->get_time()));
			c.check(e->get_step() == s + 1, "step:" + name, fmt("step counter went from %zu to %zu in one step", s, e->get_step()));
			c.check(d.get_time() == e->get_time() && d.get_step() == e->get_step(), "agree", fmt("data set at %.17g/%zu, engine at %.17g/%zu", d.get_time(), d.get_step(), e->get_time(), e->get_step()));
			t = e->get_time();
			s = e->get_step();
		}
		// read back
		std::vector<double> y(e->problem_size());
		e->read_buffer(y.data(), e->get_y());
		e->get_data(&d);
		bool same = true;
		for(size_t i = 0; i < n; ++i)
		{
			double got[6] = {d.get_vertites()[i].x, d.get_vertites()[i].y, d.get_vertites()[i].z, d.get_velosites()[i].x, d.get_velosites()[i].y, d.get_velosites()[i].z};
			for(size_t q = 0; q < 6; ++q) { same = same && memcmp(&got[q], &y[q * n + i], 8) == 0; }
		}
		c.check(same && d.get_count() == n, "readback", "data set differs from the engine state after reading back");
		c.check(d.get_time() == t && d.get_step() == s, "readback-clock", "reading back changed time or step");
		for(size_t i = 0; i < n; ++i) { c.check(d.get_mass()[i] == b.m[i], "mass", "mass changed"); }
		c.seen(text + en + fmt("%zu", n));
		c.sample(fmt("%zu steps to t=%.6g", steps, t));
	}
	return c.done();
}
