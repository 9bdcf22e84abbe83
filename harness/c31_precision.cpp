// C31: the library built for single (NB_COORD_PRECISION=1) and quadruple (=4) precision coordinates.
#include "bh_bound.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "nbody_engine_simple.h"
#include <quadmath.h>
#include <QDir>
#include <QFile>
using namespace nb;
typedef nbcoord_t T;
typedef __float128 Q;
// of the type itself; nb::type_eps is the precision oracles in long double can judge
static const Q eps = sizeof(T) == 4 ? Q(1.2e-7) : sizeof(T) == 8 ? Q(2.3e-16) : Q(2e-34);
static const char* type = sizeof(T) == 4 ? "single" : sizeof(T) == 8 ? "double" : "quad";
static Q absq(Q x) { return fabsq(x); }
//! A number that uses all digits of the type
static T full(rng& r, double a, double b)
{
	Q x = Q(r.uni(a, b)) + Q(b - a) * Q(r.uni(-1, 1)) * 1e-17Q + Q(b - a) * Q(r.uni(-1, 1)) * 1e-30Q;
	return T(x);
}
static std::vector<T> convert(const std::vector<double>& v) { return std::vector<T>(v.begin(), v.end()); }
//! Round everything to the coordinate type, so that the oracles see what the engine sees
static void narrow(bodies& b)
{
	for(auto p : {&b.x, &b.y, &b.z, &b.vx, &b.vy, &b.vz, &b.m}) { for(double& v : *p) { v = double(T(v)); } }
}

struct run
{
	nbody_data d;
	std::unique_ptr<nbody_engine> e;
	nbody_engine::memory* y = nullptr;
	nbody_engine::memory* f = nullptr;
	bool ok;
	run(const bodies& b, const QVariantMap& p)
	{
		b.fill(d);
		e.reset(nbody_create_engine(p));
		ok = e && e->init(&d);
		if(ok) { y = e->create_buffer(sizeof(T) * e->problem_size()); f = e->create_buffer(sizeof(T) * e->problem_size()); }
	}
	~run() { if(ok) { e->free_buffer(y); e->free_buffer(f); } }
	std::vector<T> eval(const std::vector<T>& s)
	{
		std::vector<T> o(s.size(), T(NAN));
		e->write_buffer(y, s.data());
		e->write_buffer(f, o.data());
		e->fcompute(0, y, f);
		e->read_buffer(o.data(), f);
		return o;
	}
};

static const char* engines[] = {"simple", "openmp", "block", "ah", "tree", "heap", "heap_stackless"};
static QVariantMap engine_params(rng& r, size_t k, double ratio)
{
	if(k < 3) { return params({{"engine", engines[k]}}); }
	if(k == 3) { return params({{"engine", "ah"}, {"max_dist", 1e4}, {"full_recompute_rate", 1}}); }
	return params({{"engine", "simple_bh"}, {"tree_layout", engines[k]}, {"traverse_type", r.chance(0.5) ? "cycle" : "nested_tree"}, {"distance_to_node_radius_ratio", ratio},
		{"tree_build_rate", int(r.below(3))}});
}

static void forces(context& c, rng& r)
{
	size_t k = r.below(7), n = r.range(1, r.chance(0.2) ? 200 : 40);
	static const double ratios[] = {1.3, 2, 3, 5, 10, 30, 1e9};
	double ratio = ratios[r.below(7)];
	bodies b = make_bodies(r, n, r.chance(0.3) ? 0 : int(r.below(4)));
	narrow(b);
	c.set_desc(fmt("%s forces engine=%s n=%zu kind=%s ratio=%g", type, engines[k], n, b.kind.c_str(), ratio));
	run e(b, engine_params(r, k, ratio));
	if(!c.check(e.ok, "init", "engine creation or init failed")) { return; }
	std::vector<T> y0(6 * n);
	e.e->read_buffer(y0.data(), e.e->get_y());
	c.check(y0 == convert(b.state()), "init-state", "engine state after init differs from the data set");
	for(int t = 0; t < 2; ++t)
	{
		if(t)
		{
			std::vector<double> s = b.state();
			for(double& v : s) { v += r.uni(-0.1, 0.1); }
			b.set_state(s);
			narrow(b);
			e.e->set_step(r.below(4));
		}
		accel a = direct(b);
		std::vector<ld> bound(n);
		if(k < 4) { for(size_t i = 0; i < n; ++i) { bound[i] = a.mag[i] * rounding_tol(n) + 1e-37L; } }
		else { bound = bh_bound(b, a, ratio); for(ld& v : bound) { v += 1e-37L; } }
		std::string where;
		double q = compare(b, a, e.eval(convert(b.state())), bound, where);
		c.check(q <= 1, fmt("forces:%s:%s", type, engines[k]), where);
		c.ev(fmt("%s force evaluations", type));
		c.sample(fmt("%s error/bound %.3g", c.desc.c_str(), q));
	}
	c.seen(c.desc);
}

//! States using all digits of the type against a direct sum in quadruple precision
static void exact(context& c, rng& r)
{
	size_t k = r.below(7), n = r.range(1, 40);
	double scale = r.logu(0.1, 100);
	c.set_desc(fmt("%s exact engine=%s n=%zu scale=%.3g", type, engines[k], n, scale));
	std::vector<T> y(6 * n), m(n);
	for(T& v : y) { v = full(r, -scale, scale); }
	for(T& v : m) { v = full(r, 0.1, 3); }
	nbody_data d;
	for(size_t i = 0; i < n; ++i) { d.add_body(nbvertex_t(y[i], y[n + i], y[2 * n + i]), nbvertex_t(y[3 * n + i], y[4 * n + i], y[5 * n + i]), m[i], nbcolor_t(1, 1, 1, 1)); }
	std::unique_ptr<nbody_engine> e(nbody_create_engine(engine_params(r, k, 1e9)));
	if(!c.check(e && e->init(&d), "init", "engine creation or init failed")) { return; }
	auto f = e->create_buffer(sizeof(T) * 6 * n);
	std::vector<T> o(6 * n);
	e->fcompute(0, e->get_y(), f);
	e->read_buffer(o.data(), f);
	e->free_buffer(f);
	for(size_t i = 0; i < n; ++i)
	{
		Q a[3] = {0, 0, 0}, newt = 0;
		for(size_t j = 0; j < n; ++j)
		{
			if(j == i) { continue; }
			Q dx[3], r2 = 0;
			for(int w = 0; w < 3; ++w) { dx[w] = Q(y[w * n + j]) - y[w * n + i]; r2 += dx[w] * dx[w]; }
			r2 = std::max(r2, Q(nbody::MinDistance));
			newt += m[j] / r2;
			for(int w = 0; w < 3; ++w) { a[w] += dx[w] * m[j] / (r2 * sqrtq(r2)); }
		}
		for(int w = 0; w < 3; ++w)
		{
			Q er = absq(a[w] - o[(3 + w) * n + i]), tol = newt * eps * (k < 4 ? 4 * (Q(n) + 32) : 1000);
			c.check(o[w * n + i] == y[(3 + w) * n + i], fmt("velocity:%s:%s", type, engines[k]), "position derivative is not the velocity");
			if(!c.check(er <= tol, fmt("exact:%s:%s", type, engines[k]), fmt("body %zu: error %.3g of %.3g, allowed %.3g", i, double(er), double(newt), double(tol)))) { return; }
		}
	}
	c.ev(fmt("%s full-precision force evaluations", type));
	c.seen(c.desc);
}

static void vectors(context& c, rng& r)
{
	size_t k = r.below(5), n = r.range(1, 60);
	bodies b = make_bodies(r, n, 0);
	narrow(b);
	c.set_desc(fmt("%s vectors engine=%s n=%zu", type, engines[k], n));
	run e(b, engine_params(r, k, 10));
	if(!c.check(e.ok, "init", "engine creation or init failed")) { return; }
	size_t ps = e.e->problem_size(), nv = 5;
	auto num = [&]() { return T((r.chance(0.5) ? -1 : 1) * Q(r.logu(1e-3, 1e3)) + full(r, -1e-4, 1e-4)); };
	std::vector<nbody_engine::memory*> m;
	std::vector<std::vector<T>> v(nv, std::vector<T>(ps));
	for(size_t i = 0; i < nv; ++i)
	{
		m.push_back(e.e->create_buffer(sizeof(T) * ps));
		for(T& x : v[i]) { x = num(); }
		e.e->write_buffer(m[i], v[i].data());
	}
	for(int o = 0; o < 12; ++o)
	{
		size_t a = r.below(nv), p = r.below(nv), q = r.below(nv);
		T cf = num();
		std::vector<Q> want(v[a].begin(), v[a].end()), tol(ps, 0);
		const char* key = "";
		switch(r.below(7))
		{
		case 0: key = "copy"; e.e->copy_buffer(m[a], m[p]); for(size_t i = 0; i < ps; ++i) { want[i] = v[p][i]; } break;
		case 1: key = "fill"; e.e->fill_buffer(m[a], cf); want.assign(ps, cf); break;
		case 2:
			key = "fmadd_inplace"; e.e->fmadd_inplace(m[a], m[p], cf);
			for(size_t i = 0; i < ps; ++i) { want[i] = Q(v[a][i]) + Q(v[p][i]) * cf; tol[i] = (absq(v[a][i]) + absq(Q(v[p][i]) * cf)) * 2 * eps; }
			break;
		case 3:
			key = "fmadd"; e.e->fmadd(m[a], m[p], m[q], cf);
			for(size_t i = 0; i < ps; ++i) { want[i] = Q(v[p][i]) + Q(v[q][i]) * cf; tol[i] = (absq(v[p][i]) + absq(Q(v[q][i]) * cf)) * 2 * eps; }
			break;
		case 4: case 5:
		{
			bool inplace = r.chance(0.5);
			key = inplace ? "fmaddn_inplace" : "fmaddn";
			nbody_engine::memory_array arr;
			std::vector<T> w;
			std::vector<size_t> id;
			size_t na = r.range(1, 4);
			for(size_t i = 0; i < na; ++i) { size_t t; do { t = r.below(nv); } while(t == a); id.push_back(t); arr.push_back(m[t]); w.push_back(num()); }
			if(inplace) { e.e->fmaddn_inplace(m[a], arr, w.data(), na); } else { e.e->fmaddn(m[a], m[p], arr, w.data(), na); }
			for(size_t i = 0; i < ps; ++i)
			{
				Q x = inplace ? v[a][i] : v[p][i], s = absq(x);
				for(size_t j = 0; j < na; ++j) { x += Q(v[id[j]][i]) * w[j]; s += absq(Q(v[id[j]][i]) * w[j]); }
				want[i] = x; tol[i] = s * Q(na + 2) * 1.5 * eps;
			}
			break;
		}
		default:
		{
			key = "fmaxabs";
			T res = -1, mx = 0;
			for(T x : v[a]) { mx = std::max(mx, T(absq(x))); }
			e.e->fmaxabs(m[a], res);
			c.check(res == mx, fmt("fmaxabs:%s", type), fmt("fmaxabs returned %.17g, maximum is %.17g", double(res), double(mx)));
		}
		}
		std::vector<T> got(ps);
		for(size_t j = 0; j < nv; ++j)
		{
			e.e->read_buffer(got.data(), m[j]);
			for(size_t i = 0; i < ps; ++i)
			{
				Q d = j == a ? absq(Q(got[i]) - want[i]) : absq(Q(got[i]) - v[j][i]);
				if(!(d <= (j == a ? tol[i] : 0)))
				{
					c.violation(fmt("vectors:%s:%s", type, key), fmt("element %zu of vector %zu (destination %zu) is off by %.3g, allowed %.3g", i, j, a, double(d), double(tol[i])));
					break;
				}
			}
			v[j] = got;
		}
		c.ev(fmt("%s vector operations", type));
	}
	for(auto x : m) { e.e->free_buffer(x); }
	c.seen(c.desc);
}

static void compensated(context& c, rng& r)
{
	size_t k = r.below(5), n = r.range(1, 3), terms = r.range(1, 4), calls = r.range(100, sizeof(T) == 16 ? 2000 : 6000);
	bodies b = make_bodies(r, n, 0);
	narrow(b);
	double scale = double(eps) * r.logu(0.05, 1e3);
	c.set_desc(fmt("%s compensated engine=%s n=%zu terms=%zu calls=%zu scale=%.3g", type, engines[k], n, terms, calls, scale));
	run e(b, engine_params(r, k, 10));
	if(!c.check(e.ok, "init", "engine creation or init failed")) { return; }
	size_t ps = e.e->problem_size();
	auto a = e.e->create_buffer(sizeof(T) * ps), corr = e.e->create_buffer(sizeof(T) * ps);
	auto t = e.e->create_buffers(sizeof(T) * ps, terms);
	std::vector<T> st(ps), in(ps), out(ps), w(terms);
	for(T& x : st) { x = full(r, 1, 1.9); }
	e.e->write_buffer(a, st.data());
	e.e->fill_buffer(corr, 0);
	std::vector<Q> sum(ps, 0);	// of the increments, small numbers: exact enough in quad
	for(size_t j = 0; j < terms; ++j)
	{
		w[j] = full(r, 0.5, 1);
		for(size_t i = 0; i < ps; ++i) { in[i] = T(Q(scale) * full(r, 0.2, 1)); sum[i] += Q(in[i]) * w[j] * Q(calls); }
		e.e->write_buffer(t[j], in.data());
	}
	for(size_t q = 0; q < calls; ++q) { e.e->fmaddn_corr(a, corr, t, w.data(), terms); }
	e.e->read_buffer(out.data(), a);
	for(size_t i = 0; i < ps; ++i)
	{
		Q er = absq((Q(out[i]) - st[i]) - sum[i]), tol = 8 * eps + 8 * eps * sum[i];
		if(!c.check(er <= tol, fmt("compensated:%s:%s", type, engines[k]), fmt("element %zu: error %.3g after %zu calls, allowed %.3g", i, double(er), calls, double(tol)))) { break; }
	}
	c.ev(fmt("%s compensated additions", type), calls * ps);
	e.e->free_buffer(a); e.e->free_buffer(corr); e.e->free_buffers(t);
	c.seen(c.desc);
}

//! Six equations with known solutions, evaluated in quadruple precision
struct ode : public nbody_engine_simple
{
	nbody_data d;
	Q w, a, s, q, g;
	ode(rng& r, Q t0) : w(r.uni(0.7, 1.2)), a(r.uni(0.1, 0.4)), s(r.uni(0.5, 1)), q(r.uni(0.3, 0.6)), g(r.uni(1, 2))
	{
		Q y[6];
		exact(t0, y);
		d.add_body(nbvertex_t(T(y[0]), T(y[1]), T(y[2])), nbvertex_t(T(y[3]), T(y[4]), T(y[5])), 1, nbcolor_t(1, 1, 1, 1));
		init(&d);
		set_time(T(t0));
	}
	void exact(Q t, Q* y) const
	{
		Q p = w * t + a * (1 - cosq(t));
		y[0] = sinq(p); y[1] = cosq(p); y[2] = 1 / (1 + s * t * t); y[3] = expq(s * (1 - cosq(t))); y[4] = tanq(q * sinq(t)); y[5] = g * (1 - expq(-t));
	}
	void fcompute(const nbcoord_t& t, const memory* my, memory* mf) override
	{
		advise_compute_count();
		T y[6], f[6];
		read_buffer(y, my);
		Q o = w + a * sinq(t);
		f[0] = T(o * y[1]); f[1] = T(-o * y[0]); f[2] = T(-2 * s * Q(t) * y[2] * y[2]); f[3] = T(Q(y[3]) * s * sinq(t)); f[4] = T(q * cosq(t) * (1 + Q(y[4]) * y[4]));
		f[5] = T(g * expq(-Q(t)));
		write_buffer(mf, f);
	}
};
static const struct { const char* name; int order; double k; } methods[] = {	// error of n steps of size h over n*h: at most k * h^order
	{"euler", 1, 20}, {"midpoint", 2, 20}, {"midpoint-st", 2, 20}, {"trapeze", 2, 20}, {"rk4", 4, 5}, {"rkck", 4, 5}, {"rkdp", 4, 5}, {"rkdverk", 5, 5},
	{"rkf", 8, 1}, {"rkfeagin10", 10, 1}, {"rkfeagin12", 12, 1}, {"rkfeagin14", 14, 1}, {"rkgl", 2, 20}, {"rklc", 2, 20}, {"bs", 8, 1},
	{"adams", 1, 20}, {"adams", 2, 20}, {"adams", 3, 20}, {"adams", 4, 100}, {"adams", 5, 500}};

static void converge(context& c, rng& r)
{
	size_t k = r.below(20), steps = r.range(1, 12);
	bool adams = k >= 15, corr = r.chance(0.5);
	Q h = Q(exp2(-double(r.range(5, sizeof(T) == 4 ? 9 : 18)))), t0 = Q(r.range(0, 64)) / 64;
	c.set_desc(fmt("%s solver=%s order=%d step=%g steps=%zu correction=%d", type, methods[k].name, methods[k].order, double(h), steps, corr));
	QVariantMap p = params({{"solver", methods[k].name}, {"starter_solver", "rkfeagin10"}, {"max_recursion", 0}, {"error_threshold", 0.0},
		{"refine_steps_count", 40}, {"max_level", 4}, {"correction", corr}});
	if(adams) { p["rank"] = methods[k].order; }
	std::unique_ptr<nbody_solver> so(nbody_create_solver(p));
	if(!c.check(bool(so), "solver", "creation failed")) { return; }
	ode e(r, t0);
	so->set_engine(&e);
	so->set_time_step(T(h), T(h));
	if(adams) { steps += 5; }
	for(size_t i = 0; i < steps; ++i) { so->advise(T(h)); }
	T y[6];
	Q z[6], worst = 0;
	e.read_buffer(y, e.get_y());
	e.exact(t0 + h * Q(steps), z);
	for(int i = 0; i < 6; ++i) { Q d = absq(Q(y[i]) - z[i]); worst = d == d ? std::max(worst, d) : Q(1e300); }
	Q span = h * Q(steps), tr = span * Q(methods[k].k) * powq(h, methods[k].order), tol = tr + eps * (10 + 40 * Q(steps)) * Q(strcmp(methods[k].name, "bs") ? 1 : 20);
	c.check(worst <= tol, fmt("converge:%s:%s%s", type, methods[k].name, adams ? fmt("%d", methods[k].order).c_str() : ""),
		fmt("error %.3g after %zu steps of %g, allowed %.3g", double(worst), steps, double(h), double(tol)));
	c.check(e.get_time() == T(t0 + h * Q(steps)) && e.get_step() == steps, "clock", "time or step count is wrong");
	c.ev(fmt("%s solver steps", type), steps);
	if(tr < 100 * eps * Q(steps)) { c.ev(fmt("%s solver runs at rounding level", type)); }
	so.reset();
	c.seen(c.desc);
	c.sample(fmt("%s error %.3g allowed %.3g", c.desc.c_str(), double(worst), double(tol)));
}

//! The error estimate falls with the step: steps that meet the threshold by a wide margin are not subdivided
static void embedded(context& c, rng& r)
{
	static const struct { const char* name; int order; } m[] = {{"rkck", 4}, {"rkdp", 4}, {"rkdverk", 5}, {"rkf", 7}, {"rkfeagin10", 9}, {"rkfeagin12", 11}, {"rkfeagin14", 13}};
	size_t k = r.below(7), steps = r.range(1, 5), evals[2];
	Q h = Q(exp2(-double(r.range(6, sizeof(T) == 4 ? 8 : 16)))), t0 = Q(r.range(0, 64)) / 64;
	Q thr = std::max(powq(h, m[k].order), 4000 * eps / h);
	c.set_desc(fmt("%s embedded solver=%s step=%g threshold=%.3g", type, m[k].name, double(h), double(thr)));
	rng keep = r;
	for(int t = 0; t < 2; ++t)
	{
		rng q = keep;
		ode e(q, t0);
		std::unique_ptr<nbody_solver> so(nbody_create_solver(params({{"solver", m[k].name}, {"max_recursion", 1}, {"error_threshold", t ? double(thr) : 1e6}, {"substep_subdivisions", 2}})));
		if(!c.check(bool(so), "solver", "creation failed")) { return; }
		so->set_engine(&e);
		so->set_time_step(T(h / 1000), T(h));
		for(size_t i = 0; i < steps; ++i) { so->advise(T(h)); }
		evals[t] = e.get_compute_count();
		so.reset();
	}
	c.check(evals[0] == evals[1], fmt("embedded:%s:%s", type, m[k].name), fmt("%zu evaluations for a threshold far above the error of the step, %zu for a huge one", evals[1], evals[0]));
	c.ev(fmt("%s error estimates", type), steps);
	c.seen(c.desc);
}

static void stream(context& c, rng& r)
{
	size_t n = r.range(1, 30), frames = r.range(1, 8);
	c.set_desc(fmt("%s stream bodies=%zu frames=%zu", type, n, frames));
	QString base = QString("%1/c31-%2-%3").arg(QString::fromStdString(c.scratch)).arg(getpid()).arg(r.next() % 100000);
	nbody_data d;
	for(size_t i = 0; i < n; ++i)
	{
		d.add_body(nbvertex_t(full(r, -9, 9), full(r, -9, 9), full(r, -9, 9)), nbvertex_t(full(r, -9, 9), full(r, -9, 9), full(r, -9, 9)), full(r, 0.1, 9), nbcolor_t(0.5, 0.25, 1, 1));
	}
	std::vector<std::vector<nbvertex_t>> pos, vel;
	std::vector<T> times;
	{
		nbody_data_stream w;
		if(!c.check(0 == w.open(base, r.chance(0.5) ? 1000000 : 1), "open", "stream does not open")) { return; }
		T t = 0;
		for(size_t f = 0; f < frames; ++f)
		{
			for(size_t i = 0; i < n; ++i) { d.get_vertites()[i].x = full(r, -9, 9); d.get_velosites()[i].z = full(r, -9, 9); }
			d.set_time(t);
			d.set_step(f * 7);
			pos.push_back(std::vector<nbvertex_t>(d.get_vertites(), d.get_vertites() + n));
			vel.push_back(std::vector<nbvertex_t>(d.get_velosites(), d.get_velosites() + n));
			times.push_back(t);
			c.check(0 == w.write(&d), "write", "frame not written");
			t += full(r, 0.01, 1);
		}
	}
	nbody_data_stream_reader s;
	if(c.check(0 == s.load(base), fmt("load:%s", type), "stream does not load"))
	{
		c.check(s.get_frame_count() == frames && s.get_body_count() == n && s.get_coord_size() == sizeof(T), fmt("header:%s", type), "frame count, body count or coordinate size differ");
		for(size_t q = 0; q < frames + 3; ++q)
		{
			size_t f = r.below(frames);
			nbody_data o;
			o.resize(n);
			if(!c.check(0 == s.seek(f) && 0 == s.read(&o), fmt("read:%s", type), fmt("frame %zu is not readable", f))) { break; }
			bool same = o.get_count() == n && o.get_step() == f * 7;
			for(size_t i = 0; same && i < n; ++i) { same = o.get_vertites()[i] == pos[f][i] && o.get_velosites()[i] == vel[f][i] && o.get_mass()[i] == d.get_mass()[i]; }
			c.check(same, fmt("bits:%s", type), fmt("frame %zu differs from what was written", f));
			c.check(absq(Q(o.get_time()) - times[f]) <= absq(times[f]) * std::max(eps, Q(7e-16)), fmt("time:%s", type), fmt("frame %zu has another time", f));
			c.ev(fmt("%s frames compared", type));
		}
	}
	s.close();
	// A stream of another coordinate size must be refused
	QFile idx(nbody_data_stream::make_idx_name(base));
	if(idx.open(QFile::ReadWrite))
	{
		QByteArray text = idx.readAll();
		int at = text.indexOf("#coord_size "), end = text.indexOf('\n', at);
		static const int sizes[] = {1, 2, 4, 8, 10, 12, 16, 32};
		int other = sizes[r.below(8)];
		if(at >= 0 && other != int(sizeof(T)))
		{
			text.replace(at, end - at, "#coord_size " + QByteArray::number(other));
			idx.resize(0); idx.seek(0); idx.write(text); idx.close();
			nbody_data_stream_reader t;
			nbody_data o;
			o.resize(n);
			bool taken = 0 == t.load(base) && 0 == t.seek(0) && 0 == t.read(&o);
			c.check(!taken, fmt("coord-size:%s", type), fmt("a stream of %d-byte coordinates was read", other));
			c.ev(fmt("%s foreign streams refused", type));
		}
	}
	QDir dir(QString::fromStdString(c.scratch));
	for(const QString& f : dir.entryList({QFileInfo(base).fileName() + "*"})) { dir.remove(f); }
	c.seen(c.desc);
}

static void text(context& c, rng& r)
{
	size_t n = r.range(1, 30);
	c.set_desc(fmt("%s text bodies=%zu", type, n));
	nbody_data d, o;
	for(size_t i = 0; i < n; ++i)
	{
		d.add_body(nbvertex_t(full(r, -9, 9), full(r, -9, 9), full(r, -9, 9)), nbvertex_t(full(r, -9, 9), full(r, -9, 9), full(r, -9, 9)), full(r, 0.1, 9), nbcolor_t(1, 1, 1, 1), full(r, 0.1, 9));
	}
	QString fn = QString("%1/c31-%2.txt").arg(QString::fromStdString(c.scratch)).arg(getpid());
	if(!c.check(d.save(fn) && o.load(fn), fmt("save:%s", type), "save or load failed")) { return; }
	QFile::remove(fn);
	bool same = o.get_count() == n;
	auto near = [&](T a, T b) { return absq(Q(a) - b) <= absq(a) * std::max(eps, Q(5e-16)); };
	for(size_t i = 0; same && i < n; ++i)
	{
		const nbvertex_t &p = d.get_vertites()[i], &u = o.get_vertites()[i], &v = d.get_velosites()[i], &w = o.get_velosites()[i];
		same = near(p.x, u.x) && near(p.y, u.y) && near(p.z, u.z) && near(v.x, w.x) && near(v.y, w.y) && near(v.z, w.z) && near(d.get_mass()[i], o.get_mass()[i]);
	}
	c.check(same, fmt("text:%s", type), "bodies loaded from the saved text differ");
	c.ev(fmt("%s bodies saved and loaded", type), n);
	c.seen(c.desc);
}

//! Conserved quantities after a run on a real engine
static void conserve(context& c, rng& r)
{
	size_t n = r.range(2, 20), k = r.below(3);
	bodies b = make_bodies(r, n, 0);
	narrow(b);
	c.set_desc(fmt("%s conserve engine=%s n=%zu", type, engines[k], n));
	run e(b, engine_params(r, k, 10));
	std::unique_ptr<nbody_solver> so(nbody_create_solver(params({{"solver", "rkfeagin10"}, {"max_recursion", 0}, {"correction", true}})));
	if(!c.check(e.ok && so, "init", "creation failed")) { return; }
	so->set_engine(e.e.get());
	so->set_time_step(T(1) / 1024, T(1) / 1024);
	Q p0[3], mx = 0, p1[3];
	auto momentum = [&](Q* p)
	{
		p[0] = p[1] = p[2] = 0;
		mx = 0;
		std::vector<T> y(6 * n);
		e.e->read_buffer(y.data(), e.e->get_y());
		for(size_t i = 0; i < n; ++i) { for(int w = 0; w < 3; ++w) { p[w] += Q(b.m[i]) * y[(3 + w) * n + i]; mx += absq(Q(b.m[i]) * y[(3 + w) * n + i]); } }
	};
	momentum(p0);
	size_t steps = sizeof(T) == 16 ? 4 : 20;
	for(size_t i = 0; i < steps; ++i) { so->advise(T(1) / 1024); }
	momentum(p1);
	accel a = direct(b);
	Q force = 0;
	for(size_t i = 0; i < n; ++i) { force += Q(b.m[i]) * Q(a.mag[i]); }
	Q tol = eps * (100 + Q(n)) * 4 * (mx + force * 10);
	for(int w = 0; w < 3; ++w) { c.check(absq(p1[w] - p0[w]) <= tol, fmt("momentum:%s", type), fmt("momentum changed by %.3g, allowed %.3g", double(absq(p1[w] - p0[w])), double(tol))); }
	e.e->get_data(&e.d);
	e.d.print_statistics(e.e.get());
	nbvertex_t l = e.d.get_last_total_impulce();
	Q st[3] = {l.x, l.y, l.z};
	for(int w = 0; w < 3; ++w) { c.check(absq(st[w] - p1[w]) <= tol, fmt("statistics:%s", type), "reported momentum is not that of the bodies"); }
	so.reset();
	c.ev(fmt("%s momentum comparisons", type));
	c.seen(c.desc);
}

//! OpenCL engines on the device simulator
static void opencl(context& c, rng& r)
{
	size_t block = size_t(1) << r.below(5), dev = r.chance(0.3) ? 2 : 1, n = block * dev * r.range(1, 64 / (block * dev));
	bool bh = r.chance(0.6), sl = r.chance(0.5), nested = r.chance(0.5);
	double ratio = r.chance(0.3) ? 1e9 : r.uni(1.5, 12);
	bodies b = make_bodies(r, n, int(r.below(4)));
	narrow(b);
	c.set_desc(fmt("%s opencl n=%zu block=%zu devices=%zu %s ratio=%g", type, n, block, dev, bh ? "tree" : "direct", ratio));
	QVariantMap p = params({{"engine", bh ? "opencl_bh" : "opencl"}, {"device", dev == 2 ? "0:0,0" : "0:0"}, {"block_size", int(block)}});
	if(bh) { p["tree_layout"] = sl ? "heap_stackless" : "heap"; p["traverse_type"] = nested ? "nested_tree" : "cycle"; p["distance_to_node_radius_ratio"] = ratio; p["tree_build_rate"] = int(r.below(3)); }
	run e(b, p);
	if(!c.check(e.ok, "init", "engine creation or init failed")) { return; }
	for(int t = 0; t < 2; ++t)
	{
		accel a = direct(b);
		std::vector<ld> bound(n);
		if(!bh) { for(size_t i = 0; i < n; ++i) { bound[i] = a.mag[i] * rounding_tol(n) + 1e-37L; } }
		else { bound = bh_bound(b, a, ratio); for(ld& v : bound) { v += 1e-37L; } }
		std::string where;
		c.check(compare(b, a, e.eval(convert(b.state())), bound, where) <= 1, fmt("opencl:%s:%s", type, bh ? "tree" : "direct"), where);
		c.ev(fmt("%s force evaluations on devices", type));
		std::vector<double> s = b.state();
		for(double& v : s) { v += r.uni(-0.1, 0.1); }
		b.set_state(s);
		narrow(b);
		e.e->set_step(r.below(4));
	}
	c.seen(c.desc);
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	long pos = 0;
	void (*parts[])(context&, rng&) = {forces, vectors, converge, compensated, embedded, exact, stream, text, converge, conserve, converge, forces};
	size_t runs = c.arg == "opencl" ? c.n(64, 800) : c.n(9600, 120000);
	for(size_t k = 0; k < runs; ++k)
	{
		if(!c.begin("precision", r)) { continue; }
		if(c.arg == "opencl") { opencl(c, r); device_log(c, pos); }
		else { parts[(k / c.shards) % 12](c, r); }
		c.ev("cases");
		if(k % 256 == 255) { c.flush(); }
	}
	return c.done();
}
