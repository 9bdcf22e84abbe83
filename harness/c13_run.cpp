// C13: every frame and check of nbody_solver::run against a model fed with the observed steps.
#include "any_solver.h"
#include "nbody_data_stream.h"
#include "nbody_step_visitor.h"
#include <omp.h>
using namespace nb;

struct snap { double t; size_t s; std::vector<double> y; };
struct event { char kind; snap st; };	// 'S' step finished, 'W' frame written, 'V' check visited

static std::vector<double> engine_state(nbody_engine* e)
{
	std::vector<double> y(e->problem_size());
	e->read_buffer(y.data(), e->get_y());
	return y;
}
static std::vector<double> data_state(const nbody_data* d)
{
	size_t n = d->get_count();
	std::vector<double> y(6 * n);
	for(size_t i = 0; i < n; ++i)
	{
		const nbvertex_t& p = d->get_vertites()[i];
		const nbvertex_t& v = d->get_velosites()[i];
		y[i] = p.x; y[n + i] = p.y; y[2 * n + i] = p.z; y[3 * n + i] = v.x; y[4 * n + i] = v.y; y[5 * n + i] = v.z;
	}
	return y;
}

//! Runs the loop of the base class on the steps of a real solver and records them
struct spy : public nbody_solver
{
	std::unique_ptr<nbody_solver> s;
	std::vector<event>& log;
	const nbody_data* d;
	double box = 0;
	bool clamp_on = false, clamp_ok = true;
	std::string bad;
	std::vector<double> last;
	spy(std::vector<event>& l, const nbody_data* data) : log(l), d(data) {}
	const char* type_name() const override { return "spy"; }
	e_ode_order get_ode_order() const override { return s->get_ode_order(); }
	void advise(nbcoord_t dt) override
	{
		std::vector<double> now = engine_state(m_engine ());
		if(clamp_on)
		{
			size_t n = d->get_count();
			for(size_t k = 0; k < now.size(); ++k)
			{
				double w = last[k];
				if(k < 3 * n) { if(w > box) { w -= 2 * box; } else if(w < -box) { w += 2 * box; } }
				if(w != now[k] && clamp_ok) { clamp_ok = false; bad = fmt("component %zu is %.17g before the step, was %.17g with box %g", k, now[k], last[k], box); }
			}
		}
		else if(memcmp(now.data(), last.data(), now.size() * 8) != 0 && clamp_ok) { clamp_ok = false; bad = "state changed between two steps"; }
		dts.push_back(dt);
		s->advise(dt);
		last = engine_state(m_engine ());
		log.push_back({'S', {d->get_time(), d->get_step(), last}});
	}
	std::vector<double> dts;
	nbody_engine* m_engine() { return engine(); }
};

struct sink : public nbody_data_stream
{
	std::vector<event>& log;
	long fail_at = -1, calls = 0;
	sink(std::vector<event>& l) : log(l) {}
	int write(const nbody_data* b) override
	{
		log.push_back({'W', {b->get_time(), b->get_step(), data_state(b)}});
		return calls++ == fail_at ? -1 : 0;
	}
};
struct visitor : public nbody_step_visitor
{
	std::vector<event>& log;
	visitor(std::vector<event>& l) : log(l) {}
	void visit(const nbody_data* b) override { log.push_back({'V', {b->get_time(), b->get_step(), data_state(b)}}); }
};

int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	for(size_t k = 0; k < c.n(500, 20000); ++k)
	{
		if(!c.begin("run", r)) { continue; }
		std::string text;
		QVariantMap par;
		if(r.chance(0.5)) { par = any_solver(r, text, true); }
		else { par["solver"] = "euler"; text = "euler"; }
		std::unique_ptr<nbody_engine> e(nbody_create_engine(params({{"engine", r.chance(0.5) ? "simple" : "block"}})));
		size_t n = r.range(1, 6);
		bodies b = make_bodies(r, n, 0);
		nbody_data d;
		b.fill(d);
		double box = r.chance(0.3) ? 0 : double(r.range(1, 12));
		d.set_box_size(size_t(box));
		double dt = r.chance(0.3) ? 0.1 : (r.chance(0.5) ? 1.0 / (1 << r.range(0, 8)) : r.logu(1e-3, 1));
		double t0 = r.chance(0.4) ? 0 : (r.chance(0.3) ? r.uni(-5, 0) : r.uni(0, 100));
		size_t s0 = r.chance(0.5) ? 0 : r.below(1000);
		d.set_time(t0);
		d.set_step(s0);
		if(!c.check(e && e->init(&d), "init", "engine")) { continue; }
		double steps = r.uni(0, 40);
		double max_time = r.chance(0.1) ? t0 : (r.chance(0.1) ? t0 - 1 : t0 + dt * (r.chance(0.5) ? std::floor(steps) : steps));
		auto interval = [&]() { return r.chance(0.12) ? 0.0 : (r.chance(0.08) ? -1.0 : (r.chance(0.4) ? dt * double(r.range(1, 6)) : dt * r.uni(0.2, 9))); };
		double dump = interval(), chk = interval();
		bool with_stream = !r.chance(0.1), clamp = r.chance(0.4);
		size_t nvis = r.range(0, 2);
		std::vector<event> log;
		std::vector<double> y0 = engine_state(e.get());
		spy so(log, &d);
		so.s = make_solver(par);
		so.s->set_engine(e.get());
		so.set_engine(e.get());
		so.set_time_step(dt * 1e-3, dt);
		so.set_clamp_to_box(clamp);
		so.clamp_on = clamp;
		so.box = box;
		so.last = y0;
		sink out(log);
		if(r.chance(0.25)) { out.fail_at = r.below(8); }
		for(size_t v = 0; v < nvis; ++v) { so.add_check_visitor(std::make_shared<visitor>(log)); }
		c.set_desc(fmt("%s bodies=%zu t0=%.17g dt=%.17g max=%.17g dump=%.17g check=%.17g stream=%d fail_at=%ld clamp=%d box=%g", text.c_str(), n, t0, dt,
					   max_time, dump, chk, with_stream, out.fail_at, clamp, box));
		if(r.chance(0.3)) { d.set_check_list(r.chance(0.5) ? "PLVE" : ""); }
		int rc = so.run(&d, with_stream ? &out : nullptr, max_time, dump, chk);
		c.ev("runs");
		c.ev("events", log.size());
		// ---- replay of the log
		c.check(so.clamp_ok, "between-steps", so.bad);
		for(double x : so.dts) { c.check(x == dt, "step-size", fmt("step of %.17g requested instead of %.17g", x, dt)); }
		bool dumping = with_stream && dump > 0;
		double last_dump = t0, last_check = t0;
		snap now = {t0, s0, y0};
		long written = 0;
		bool failed = false, ok = true;
		size_t i = 0;
		double guard = 1e-9 * (std::fabs(t0) + std::fabs(max_time) + dt);
		auto same = [&](const event& ev, const char* what)
		{
			c.check(ev.st.t == now.t && ev.st.s == now.s, std::string(what) + "-clock", fmt("%s at t=%.17g step %zu, simulation at t=%.17g step %zu", what, ev.st.t, ev.st.s, now.t, now.s));
			c.check(ev.st.y.size() == now.y.size() && memcmp(ev.st.y.data(), now.y.data(), now.y.size() * 8) == 0, std::string(what) + "-state", fmt("%s at step %zu does not hold the engine state of that moment", what, now.s));
		};
		if(dumping && t0 <= 0)
		{
			ok = c.check(i < log.size() && log[i].kind == 'W', "initial-frame", fmt("no initial frame (t0=%.17g)", t0));
			if(ok)
			{
				same(log[i++], "frame");
				failed = written++ == out.fail_at;
			}
		}
		size_t nsteps = 0;
		while(ok && !failed && i < log.size())
		{
			if(!c.check(log[i].kind == 'S', "stray-event", fmt("unexpected event %c at step %zu t=%.17g (dump %g check %g, last %.17g %.17g)", log[i].kind, log[i].st.s, log[i].st.t, dump, chk, last_dump, last_check))) { ok = false; break; }
			if(!c.check(now.t < max_time, "late-step", fmt("a step was made from t=%.17g, end time %.17g", now.t, max_time))) { ok = false; break; }
			now = log[i++].st;
			++nsteps;
			// what the log holds for this moment, in either order
			size_t w = 0, v = 0;
			while(i < log.size() && log[i].kind != 'S')
			{
				if(log[i].kind == 'W') { ++w; same(log[i], "frame"); if(written++ == out.fail_at) { failed = true; } }
				else { ++v; same(log[i], "check"); }
				++i;
				if(failed) { break; }
			}
			double due = now.t - (last_dump + dump - 0.1 * dt), cdue = now.t - (last_check + chk - 0.1 * dt);
			if(dumping)
			{
				if(std::fabs(due) > guard) { c.check((w == 1) == (due > 0) && w <= 1, due > 0 ? "missing-frame" : "extra-frame", fmt("%zu frames at t=%.17g, last at %.17g, interval %.17g, step %.17g", w, now.t, last_dump, dump, dt)); }
				else { c.ev("ties"); c.check(w <= 1, "extra-frame", "two frames at one step"); }
			}
			else { c.check(w == 0, "extra-frame", "a frame although there is nothing to dump"); }
			if(chk > 0)
			{
				if(!failed)
				{
					if(std::fabs(cdue) > guard) { c.check(v == (cdue > 0 ? nvis : 0), cdue > 0 ? "missing-check" : "extra-check", fmt("%zu checks by %zu visitors at t=%.17g, last at %.17g, interval %.17g, step %.17g", v, nvis, now.t, last_check, chk, dt)); }
					else { c.check(v == 0 || v == nvis, "extra-check", "visitors treated differently"); }
				}
			}
			else { c.check(v == 0, "extra-check", "a check although checks are off"); }
			if(w) { last_dump = now.t; }
			if(nvis ? v > 0 : (chk > 0 && cdue > 0)) { last_check = now.t; }
		}
		if(ok)
		{
			if(failed) { c.check(rc != 0, "failure-hidden", "run returned 0 although a frame could not be written"); c.check(i == log.size(), "after-failure", fmt("the run went on for %zu events after the failed write", log.size() - i)); c.ev("failed writes"); }
			else { c.check(rc == 0, "spurious-failure", fmt("run returned %d", rc)); c.check(!(now.t < max_time), "early-stop", fmt("stopped at t=%.17g before %.17g", now.t, max_time)); }
		}
		c.ev("steps", nsteps);
		c.ev("frames", written);
		if(nsteps) { c.seen(fmt("%s %g %g %g %d", text.c_str(), dump / dt, chk / dt, dt, clamp)); }
		c.sample(fmt("%zu steps, %ld frames, rc %d", nsteps, written, rc));
	}
	return c.done();
}
