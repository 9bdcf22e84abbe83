// C14: adaptive subdivision against an independent model of the rule.
#include "any_solver.h"
#include "nbody_butcher_table.h"
using namespace nb;
typedef long double ld;

struct model
{
	const nbody_butcher_table* t;
	bool embedded, implicit_;
	size_t max_rec, sub;
	double thr, min_step;
	rhs_t f;
	size_t n;
	size_t accepted = 0, rejected = 0, depth = 0;
	bool tie = false;
	double max_gap = 0;

	void stages(ld t0, ld dt, const std::vector<ld>& y, std::vector<std::vector<ld>>& k)
	{
		size_t s = t->get_steps();
		auto a = t->get_a();
		auto c = t->get_c();
		std::vector<double> arg(n), out(n);
		auto eval = [&](size_t i)
		{
			std::vector<ld> z(y);
			for(size_t j = 0; j < (implicit_ ? s : i); ++j)
			{
				for(size_t q = 0; q < n; ++q) { z[q] += dt * a[i][j] * k[j][q]; }
			}
			for(size_t q = 0; q < n; ++q) { arg[q] = (double)z[q]; }
			f((double)(t0 + c[i] * dt), arg.data(), out.data(), n);
			for(size_t q = 0; q < n; ++q) { k[i][q] = out[q]; }
		};
		k.assign(s, std::vector<ld>(n, 0));
		for(size_t it = 0; it < (implicit_ ? 80u : 1u); ++it)
		{
			for(size_t i = 0; i < s; ++i) { eval(i); }
		}
	}
	void run(size_t cnt, ld t0, ld dt, std::vector<ld>& y, size_t level)
	{
		size_t s = t->get_steps();
		auto b1 = t->get_b1();
		auto b2 = t->get_b2();
		depth = std::max(depth, level);
		for(size_t i = 0; i < cnt; ++i, t0 += dt)
		{
			std::vector<std::vector<ld>> k;
			stages(t0, dt, y, k);
			ld err = 0, mag = 0;
			for(size_t q = 0; q < n; ++q)
			{
				ld e = 0, m = 0;
				for(size_t j = 0; j < s; ++j) { e += ((ld)b2[j] - b1[j]) * k[j][q]; m += std::fabs((b2[j] - b1[j]) * k[j][q]); }
				err = std::max(err, std::fabs(e));
				mag = std::max(mag, m);
			}
			bool can = embedded && level < max_rec && dt > min_step;
			if(can && std::fabs(err - thr) < 1e-6L * thr + 1e-11L * (1 + mag)) { tie = true; }
			if(can && std::fabs(dt - min_step) < 1e-9L * dt) { tie = true; }
			if(can && err > thr)
			{
				++rejected;
				run(sub, t0, dt / sub, y, level + 1);
			}
			else
			{
				++accepted;
				for(size_t q = 0; q < n; ++q) { for(size_t j = 0; j < s; ++j) { y[q] += dt * b2[j] * k[j][q]; } }
			}
		}
	}
};

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	static const std::vector<std::string> names = {"rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc"};
	for(size_t k = 0; k < c.n(900, 30000); ++k)
	{
		if(!c.begin("adaptive", r)) { continue; }
		std::string name = r.pick(names);
		bool implicit_ = name == "rkgl" || name == "rklc";
		bool embedded = name != "rkgl";
		size_t rec = r.range(0, 4), sub = r.range(1, 5);
		if(r.chance(0.2)) { sub = r.range(6, 16); rec = r.range(0, 2); }
		else if(r.chance(0.15)) { sub = 2; rec = r.range(5, 8); }
		double dt = r.logu(0.02, 0.4), min_step = r.chance(0.4) ? dt * r.logu(1e-3, 2) : 1e-9;
		if(sub > 3 && rec > 3) { rec = 3; }
		double thr = r.logu(name.size() > 6 ? 1e-9 : 1e-6, 1e-1);
		double spike = r.uni(0, 2), width = r.logu(0.01, 0.5), amp = r.logu(0.1, implicit_ ? 2 : 20), om = r.uni(0.5, implicit_ ? 2 : 8);
		bool corr = r.chance(0.4);
		rhs_t f = [=](double t, const double* y, double* o, size_t n)
		{
			double g = amp * std::exp(-(t - spike) * (t - spike) / (width * width));
			for(size_t i = 0; i < n; ++i) { o[i] = 0; }
			o[0] = om * y[1] + g;
			o[1] = -om * y[0] + g * std::cos(3 * t) * 0.3;
			o[2] = std::sin(om * t * 2) - 0.5 * y[2];
			o[3] = -y[3] * g * 0.1;
			o[4] = std::cos(y[2] + t);
			o[5] = 1;
		};
		std::vector<double> y0 = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), 1, 0, 0};
		double t0 = r.uni(-0.5, 1.5);
		QVariantMap par(std::map<QString, QVariant>{{"solver", QString(name.c_str())}, {"max_recursion", (uint)rec}, {"substep_subdivisions", (uint)sub},
			{"error_threshold", thr}, {"correction", corr}, {"refine_steps_count", 60}});
		c.set_desc(fmt("%s rec=%zu sub=%zu thr=%.6g min=%.6g dt=%.6g t0=%.6g spike=%.4g/%.4g amp=%.4g om=%.4g corr=%d", name.c_str(), rec, sub, thr, min_step, dt, t0, spike, width, amp, om, corr));
		ode_engine e(y0, f, t0);
		e.record = true;
		auto so = make_solver(par);
		auto rk = dynamic_cast<nbody_solver_rk_butcher*>(so.get());
		if(!c.check(rk != nullptr, "create", "no Runge-Kutta solver")) { continue; }
		so->set_engine(&e);
		so->set_time_step(min_step, dt);
		model m;
		m.t = rk->table(); m.embedded = embedded; m.implicit_ = implicit_; m.max_rec = rec; m.sub = sub;
		m.thr = thr; m.min_step = min_step; m.f = f; m.n = e.problem_size();
		size_t steps = r.range(1, 4);
		bool out = false;
		for(size_t i = 0; i < steps; ++i)
		{
			std::vector<ld> y;
			for(double v : e.state()) { y.push_back(v); }
			double ta = e.get_time();
			size_t r0 = m.rejected;
			m.run(1, ta, dt, y, 0);
			if(m.tie) { c.ev("ties left undecided"); break; }
			e.eval_times.clear();
			so->advise(dt);
			auto z = e.state();
			double worst = 0;
			for(size_t q = 0; q < z.size(); ++q) { worst = std::max(worst, std::fabs((double)(y[q] - z[q])) / (1 + std::fabs((double)y[q]))); }
			for(double t : e.eval_times) { out = out || t < ta - 1e-12 || t > ta + dt + 1e-12; }
			c.ev(m.rejected > r0 ? "steps subdivided" : "steps taken whole");
			if(getenv("SHOW") && worst > 1e-13) { fprintf(stderr, "%s worst %.2e\n", name.c_str(), worst); }
			if(!c.check(worst < 1e-10, "rule:" + name, fmt("step %zu differs from the rule's result by %.3g (model: %zu accepted, %zu rejected, depth %zu)", i, worst, m.accepted, m.rejected, m.depth))) { break; }
		}
		c.check(!out, "outside:" + name, "derivative requested outside the step");
		c.ev("sub-steps accepted", m.accepted);
		c.ev("attempts rejected", m.rejected);
		c.seen(fmt("%s %zu %zu %zu %zu %zu", name.c_str(), rec, sub, m.accepted, m.rejected, m.depth));
		c.sample(fmt("%zu accepted, %zu rejected, depth %zu", m.accepted, m.rejected, m.depth));
		so.reset();
	}
	// Extrapolation: levels 2, 4, 6, 8, 12, 16, ... until two neighbouring extrapolated values agree
	for(size_t k = 0; k < c.n(250, 6000); ++k)
	{
		if(!c.begin("extrapolation", r)) { continue; }
		size_t levels = r.range(1, 9);
		double thr = r.chance(0.1) ? 0 : r.logu(1e-13, 1e-1), dt = r.logu(0.02, 0.8), om = r.uni(0.3, 6), amp = r.logu(0.1, 10);
		rhs_t f = [=](double t, const double* y, double* o, size_t n)
		{
			for(size_t i = 0; i < n; ++i) { o[i] = 0; }
			o[0] = om * y[1] + amp * std::cos(t);
			o[1] = -om * y[0];
			o[2] = std::sin(om * t * 2) - 0.5 * y[2] * y[2];
			o[3] = -y[3] * std::cos(t * amp * 0.3);
			o[4] = std::cos(y[2] + t);
			o[5] = y[0] * y[3];
		};
		std::vector<double> y0 = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), 1, 0, 0};
		double t0 = r.uni(-1, 2);
		c.set_desc(fmt("bs levels=%zu thr=%.6g dt=%.6g t0=%.6g om=%.4g amp=%.4g", levels, thr, dt, t0, om, amp));
		ode_engine e(y0, f, t0);
		e.record = true;
		auto so = make_solver(QVariantMap(std::map<QString, QVariant>{{"solver", QString("bs")}, {"max_level", (uint)levels}, {"error_threshold", thr}}));
		if(!c.check(so != nullptr, "create", "no extrapolation solver")) { continue; }
		so->set_engine(&e);
		so->set_time_step(1e-9, dt);
		std::vector<size_t> seq = {2, 4, 6};
		while(seq.size() < levels) { seq.push_back(2 * seq[seq.size() - 2]); }
		size_t n = y0.size();
		for(size_t st = 0, steps = r.range(1, 4); st < steps; ++st)
		{
			std::vector<double> ys = e.state();
			double ta = e.get_time();
			std::vector<std::vector<ld>> row, prev;
			size_t used = 0, ev = 0;
			bool tie = false;
			ld mag = 1;
			for(size_t lv = 0; lv < levels; ++lv)
			{
				std::vector<ld> u(ys.begin(), ys.end()), v(u);
				std::vector<double> arg(n), out(n);
				auto deriv = [&](ld t, const std::vector<ld>& z)
				{
					for(size_t q = 0; q < n; ++q) { arg[q] = (double)z[q]; }
					f((double)t, arg.data(), out.data(), n);
					return std::vector<ld>(out.begin(), out.end());
				};
				ld h = ld(dt) / seq[lv], t = ta;
				std::vector<ld> fu = deriv(t, u);
				for(size_t s = 0; s < seq[lv]; ++s, t += h)
				{
					std::vector<ld> z(v);
					for(size_t q = 0; q < n; ++q) { z[q] += h / 2 * fu[q]; }
					std::vector<ld> du = deriv(t + h / 2, z);
					for(size_t q = 0; q < n; ++q) { u[q] += h * du[q]; }
					std::vector<ld> fn = deriv(t + h, u);
					for(size_t q = 0; q < n; ++q) { v[q] += h / 2 * (fu[q] + fn[q]); }
					fu = fn;
				}
				ev += 2 * seq[lv] + 1;
				prev.swap(row);
				row.assign(1, std::vector<ld>(n));
				for(size_t q = 0; q < n; ++q) { row[0][q] = (u[q] + v[q]) / 2; mag = std::max(mag, fabsl(row[0][q])); }
				for(size_t j = 0; j < lv; ++j)
				{
					ld w = ld(seq[lv]) * seq[lv] / (ld(seq[lv - j - 1]) * seq[lv - j - 1]) - 1;
					std::vector<ld> z(n);
					for(size_t q = 0; q < n; ++q) { z[q] = row[j][q] + (row[j][q] - prev[j][q]) / w; }
					row.push_back(z);
				}
				used = lv;
				if(lv < 2) { continue; }
				ld d = 0;
				for(size_t q = 0; q < n; ++q) { d = std::max(d, fabsl(row[lv][q] - row[lv - 1][q])); }
				if(lv + 1 < levels && fabsl(d - thr) < 1e-6L * thr + 2e-13L * mag) { tie = true; }
				if(d < thr) { break; }
			}
			if(tie) { c.ev("extrapolations left undecided"); break; }
			e.eval_times.clear();
			so->advise(dt);
			auto z = e.state();
			double worst = 0;
			for(size_t q = 0; q < n; ++q) { worst = std::max(worst, double(fabsl(row[used][q] - z[q]) / mag)); }
			c.ev(used + 1 < levels ? "extrapolations accepted early" : "extrapolations at the last level");
			if(!c.check(worst < 1e-11, "rule:bs", fmt("step %zu differs from the extrapolation of %zu levels by %.3g", st, used + 1, worst))) { break; }
			c.seen(fmt("bs %zu %zu", levels, used));
		}
		so.reset();
	}
	return c.done();
}
