// C11: conservation laws and Kepler orbits on the real engines.
#include "any_solver.h"
#include <omp.h>
using namespace nb;
typedef long double ld;
static const std::vector<std::string> exact_engines = {"simple", "openmp", "block"};

struct laws { ld m = 0, p[3] = {0, 0, 0}, l[3] = {0, 0, 0}, cm[3] = {0, 0, 0}, en = 0, pabs = 0, labs = 0, eabs = 0; };

static laws measure(const std::vector<double>& y, const std::vector<double>& m)
{
	size_t n = m.size();
	laws w;
	for(size_t i = 0; i < n; ++i)
	{
		ld x[3] = {y[i], y[n + i], y[2 * n + i]}, v[3] = {y[3 * n + i], y[4 * n + i], y[5 * n + i]};
		w.m += m[i];
		for(int q = 0; q < 3; ++q)
		{
			int a = (q + 1) % 3, b = (q + 2) % 3;
			w.p[q] += m[i] * v[q];
			w.cm[q] += m[i] * x[q];
			w.l[q] += m[i] * (x[a] * v[b] - x[b] * v[a]);
			w.labs += m[i] * (std::fabs(x[a] * v[b]) + std::fabs(x[b] * v[a]));
			w.pabs += m[i] * std::fabs(v[q]);
			w.en += m[i] * v[q] * v[q] / 2;
			w.eabs += m[i] * v[q] * v[q] / 2;
		}
		for(size_t j = 0; j < i; ++j)
		{
			ld d = std::sqrt((x[0] - y[j]) * (x[0] - y[j]) + (x[1] - y[n + j]) * (x[1] - y[n + j]) + (x[2] - y[2 * n + j]) * (x[2] - y[2 * n + j]));
			w.en -= m[i] * m[j] / d;
			w.eabs += m[i] * m[j] / d;
		}
	}
	for(int q = 0; q < 3; ++q) { w.cm[q] /= w.m; }
	return w;
}

static std::vector<double> integrate(const std::string& en, const QVariantMap& sp, const bodies& b, size_t steps, double dt, bool* ok)
{
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params({{"engine", QString(en.c_str())}})));
	nbody_data d;
	b.fill(d);
	*ok = e && e->init(&d);
	if(!*ok) { return {}; }
	auto so = make_solver(sp);
	*ok = so != nullptr;
	if(!*ok) { return {}; }
	so->set_engine(e.get());
	so->set_time_step(dt * 1e-6, dt);
	for(size_t i = 0; i < steps; ++i) { so->advise(dt); }
	std::vector<double> y(e->problem_size());
	e->read_buffer(y.data(), e->get_y());
	return y;
}

static QVariantMap conv_par(rng& r, std::string& name, double& order)
{
	size_t i = r.below(nkinds + 2);
	if(i >= nkinds)
	{
		size_t rank = r.range(1, 5);
		name = fmt("adams%zu", rank);
		order = std::min<size_t>(rank, 5);
		return QVariantMap(std::map<QString, QVariant>{{"solver", "adams"}, {"rank", (uint)rank}, {"starter_solver", "rkdp"}, {"max_recursion", 0}, {"error_threshold", 0.0}});
	}
	name = kinds[i].name;
	order = kinds[i].floor;
	return solver_params(kinds[i], {{"refine_steps_count", 12}});
}

static void momentum(context& c, rng& r)
{
	std::string en = r.pick(exact_engines), text;
	QVariantMap sp = any_solver(r, text);
	size_t n = r.range(2, 24);
	bodies b = make_bodies(r, n, 0);
	for(size_t i = 0; i < n; ++i) { b.m[i] *= 5; b.vx[i] = r.uni(-1, 1); b.vy[i] = r.uni(-1, 1) + 0.3; b.vz[i] = r.uni(-1, 1); }
	double dt = r.logu(1e-4, 3e-2);
	size_t steps = r.range(5, 60);
	bool sun = r.chance(0.5);
	if(sun)	// one body at rest outweighs the others by many decades: its recoil is all that balances theirs
	{
		double lo = r.uni(1, 15);
		for(size_t i = 0; i < n; ++i)
		{
			double d = std::sqrt(b.x[i] * b.x[i] + b.y[i] * b.y[i] + b.z[i] * b.z[i]) + 1e-3, k = r.uni(1, 6) / d;
			b.x[i] *= k; b.y[i] *= k; b.z[i] *= k;
			b.m[i] = std::pow(10., -lo - r.uni(0, r.chance(0.5) ? 0.5 : 6));
		}
		size_t h = r.below(n);
		b.x[h] = b.y[h] = b.z[h] = b.vx[h] = b.vy[h] = b.vz[h] = 0;
		b.m[h] = r.uni(1, 3);
		dt = r.logu(1e-4, 0.2 / steps);
	}
	c.set_desc(fmt("momentum %s on %s bodies=%zu%s dt=%.4g steps=%zu", text.c_str(), en.c_str(), n, sun ? " around one heavy body" : "", dt, steps));
	bool ok;
	auto y = integrate(en, sp, b, steps, dt, &ok);
	if(!c.check(ok, "create", c.desc)) { return; }
	laws a = measure(b.state(), b.m), z = measure(y, b.m);
	std::string name = sp.value("solver").toString().toStdString();
	// every update adds multiples of forces that cancel pairwise up to rounding; the force scale enters with dt
	double fs = 0;
	for(size_t i = 0; i < n; ++i)
	{
		for(size_t j = 0; j < n; ++j)
		{
			if(i == j) { continue; }
			double dx = b.x[i] - b.x[j], dy = b.y[i] - b.y[j], dz = b.z[i] - b.z[j], d2 = std::max(dx * dx + dy * dy + dz * dz, 1e-2);
			fs += b.m[i] * b.m[j] / d2;
		}
	}
	double T = dt * steps;
	double unit = 2.3e-16 * (steps + 10) * 4;
	double tolp = unit * (double)(a.pabs + z.pabs + fs * T);
	double toll = 0;
	for(int q = 0; q < 3; ++q)
	{
		c.check(std::fabs((double)(z.p[q] - a.p[q])) <= tolp, "momentum:" + name, fmt("total momentum changed by %.3g in %zu steps (rounding allows %.3g)", (double)(z.p[q] - a.p[q]), steps, tolp));
		double want = (double)(a.cm[q] + a.p[q] / a.m * T);
		toll = unit * (20 + std::fabs(want)) + tolp / (double)a.m * T;
		c.check(std::fabs((double)z.cm[q] - want) <= toll, "mass-centre:" + name, fmt("mass centre is %.3g off uniform motion after %zu steps (rounding allows %.3g)", (double)z.cm[q] - want, steps, toll));
	}
	if(getenv("SHOW")) { double mp = 0; for(int q = 0; q < 3; ++q) { mp = std::max(mp, std::fabs((double)(z.p[q] - a.p[q])) / tolp); } fprintf(stderr, "mom %.3g %s\n", mp, name.c_str()); }
	c.ev("runs checked for momentum");
	c.seen(c.desc);
	c.sample(fmt("momentum drift %.2g, allowed %.2g", (double)std::fabs(z.p[0] - a.p[0]), tolp));
}

//! Kepler orbit of two bodies: position after time T
static void kepler_state(double e, double mu, double T, ld* pos, ld* vel)
{
	ld M = std::sqrt((ld)mu) * T, E = M;	// a = 1
	for(int i = 0; i < 200; ++i) { E -= (E - e * std::sin(E) - M) / (1 - e * std::cos(E)); }
	ld s = std::sqrt(1 - (ld)e * e);
	pos[0] = std::cos(E) - e;
	pos[1] = s * std::sin(E);
	ld Ed = std::sqrt((ld)mu) / (1 - e * std::cos(E));
	vel[0] = -std::sin(E) * Ed;
	vel[1] = s * std::cos(E) * Ed;
}

static double fit(const std::vector<double>& lx, const std::vector<double>& ly, size_t q)
{
	size_t m = lx.size();
	q = std::min(q, m);
	double sx = 0, sy = 0, sxx = 0, sxy = 0;
	for(size_t i = m - q; i < m; ++i) { sx += lx[i]; sy += ly[i]; sxx += lx[i] * lx[i]; sxy += lx[i] * ly[i]; }
	return (q * sxy - sx * sy) / (q * sxx - sx * sx);
}

static void kepler(context& c, rng& r)
{
	std::string en = r.pick(exact_engines), name;
	double order;
	QVariantMap sp = conv_par(r, name, order);
	double m1 = r.uni(0.5, 2), m2 = r.uni(0.1, 1), mu = m1 + m2, e = r.uni(0, 0.3), T = r.uni(1, 2.5) / std::sqrt(mu);
	double V[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
	// orthonormal orbit plane
	double u[3], w[3];
	{
		double a = r.uni(0, 6.28), bb = r.uni(-1, 1), cc = std::sqrt(1 - bb * bb);
		u[0] = cc * std::cos(a); u[1] = cc * std::sin(a); u[2] = bb;
		double h[3] = {r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)};
		double d = u[0] * h[0] + u[1] * h[1] + u[2] * h[2], nn = 0;
		for(int q = 0; q < 3; ++q) { w[q] = h[q] - d * u[q]; nn += w[q] * w[q]; }
		for(int q = 0; q < 3; ++q) { w[q] /= std::sqrt(nn); }
	}
	ld p0[2], v0[2], p1[2], v1[2];
	kepler_state(e, mu, 0, p0, v0);
	kepler_state(e, mu, T, p1, v1);
	bodies b;
	auto place = [&](ld* p, ld* v, double t, double f, int q, bool vel) { return vel ? (double)(V[q] + f * (v[0] * u[q] + v[1] * w[q])) : (double)(V[q] * t + f * (p[0] * u[q] + p[1] * w[q])); };
	double fa = -m2 / mu, fb = m1 / mu;	// body a at fa*r, b at fb*r
	b.add(place(p0, v0, 0, fa, 0, 0), place(p0, v0, 0, fa, 1, 0), place(p0, v0, 0, fa, 2, 0), place(p0, v0, 0, fa, 0, 1), place(p0, v0, 0, fa, 1, 1), place(p0, v0, 0, fa, 2, 1), m1);
	b.add(place(p0, v0, 0, fb, 0, 0), place(p0, v0, 0, fb, 1, 0), place(p0, v0, 0, fb, 2, 0), place(p0, v0, 0, fb, 0, 1), place(p0, v0, 0, fb, 1, 1), place(p0, v0, 0, fb, 2, 1), m2);
	c.set_desc(fmt("kepler %s on %s m=%.4g,%.4g e=%.4g T=%.4g", name.c_str(), en.c_str(), m1, m2, e, T));
	laws a = measure(b.state(), b.m);
	std::vector<double> lx, le, lxd, led, lxl, lel;
	double best = 1e300;
	static const int ns[] = {2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256};
	bool adams = name.substr(0, 5) == "adams";
	for(int n : ns)
	{
		if(adams && n < 24) { continue; }
		bool ok;
		auto y = integrate(en, sp, b, n, T / n, &ok);
		if(!c.check(ok, "create", c.desc)) { return; }
		double er = 0;
		for(int q = 0; q < 3; ++q)
		{
			for(int k = 0; k < 2; ++k)
			{
				double f = k ? fb : fa;
				er = std::max(er, std::fabs(y[q * 2 + k] - place(p1, v1, T, f, q, 0)));
				er = std::max(er, std::fabs(y[(q + 3) * 2 + k] - place(p1, v1, T, f, q, 1)));
			}
		}
		laws z = measure(y, b.m);
		double de = std::fabs((double)(z.en - a.en)), dl = 0;
		for(int q = 0; q < 3; ++q) { dl = std::max(dl, std::fabs((double)(z.l[q] - a.l[q]))); }
		best = std::min(best, er);
		double lim = order <= 1 ? 0.3 : 3e-2;
		if(er < lim && er > 4e-12) { lx.push_back(-std::log(n)); le.push_back(std::log(er)); }
		// energy and angular momentum follow from the state: their drift cannot exceed a multiple of the state error
		double cap = er * 40 * (1 + m1 + m2) * (1 + m1 + m2) * 4 + 1e-12;
		c.check(de <= cap && dl <= cap, "drift:" + name, fmt("energy drift %.3g or angular momentum drift %.3g exceeds what the state error %.3g allows", de, dl, er));
		c.ev("orbits integrated");
		if(er < 1e-13) { break; }
	}
	size_t m = lx.size();
	double slope = m >= 2 ? fit(lx, le, 5) : 0;
	if(getenv("SHOW")) { fprintf(stderr, "%s slope %.2f order %.0f m=%zu best %.1e\n", name.c_str(), slope, order, m, best); }
	bool trivial = m < 2 && best < 1e-10;
	c.check(trivial || (m >= 2 && slope >= order - 0.6 - 0.06 * order), "kepler:" + name, fmt("orbit error shrinks like h^%.2f, expected h^%.0f (best %.3g)", slope, order, best));
	c.check(best < (order <= 1 ? 0.5 : 1e-2), "kepler-limit:" + name, fmt("orbit error does not vanish: %.3g", best));
	c.seen(fmt("k %s %s %.2f", name.c_str(), en.c_str(), e));
	c.sample(fmt("slope %.2f best %.2g", slope, best));
}

//! Independent reference: RK4 in extended precision with a very small step
static std::vector<ld> reference(const bodies& b, double T)
{
	size_t n = b.size();
	std::vector<ld> y;
	for(double v : b.state()) { y.push_back(v); }
	auto f = [&](const std::vector<ld>& s, std::vector<ld>& o)
	{
		for(size_t i = 0; i < 3 * n; ++i) { o[i] = s[3 * n + i]; o[3 * n + i] = 0; }
		for(size_t i = 0; i < n; ++i)
		{
			for(size_t j = 0; j < i; ++j)
			{
				ld d[3], d2 = 0;
				for(int q = 0; q < 3; ++q) { d[q] = s[q * n + j] - s[q * n + i]; d2 += d[q] * d[q]; }
				ld w = 1 / (d2 * std::sqrt(d2));
				for(int q = 0; q < 3; ++q) { o[(3 + q) * n + i] += b.m[j] * w * d[q]; o[(3 + q) * n + j] -= b.m[i] * w * d[q]; }
			}
		}
	};
	size_t steps = 1500, N = 6 * n;
	ld h = (ld)T / steps;
	std::vector<ld> k1(N), k2(N), k3(N), k4(N), t(N);
	for(size_t s = 0; s < steps; ++s)
	{
		f(y, k1);
		for(size_t i = 0; i < N; ++i) { t[i] = y[i] + h / 2 * k1[i]; }
		f(t, k2);
		for(size_t i = 0; i < N; ++i) { t[i] = y[i] + h / 2 * k2[i]; }
		f(t, k3);
		for(size_t i = 0; i < N; ++i) { t[i] = y[i] + h * k3[i]; }
		f(t, k4);
		for(size_t i = 0; i < N; ++i) { y[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); }
	}
	return y;
}

//! several bodies: energy and angular momentum drift vanish with the step
static void drift(context& c, rng& r)
{
	std::string en = r.pick(exact_engines), name;
	double order;
	QVariantMap sp = conv_par(r, name, order);
	size_t n = r.range(3, 12);
	bodies b;
	for(size_t i = 0; i < n; ++i)	// on a jittered grid: no close encounters within the short run
	{
		b.add((i % 3) * 2 + r.uni(-.4, .4), (i / 3 % 3) * 2 + r.uni(-.4, .4), (i / 9) * 2 + r.uni(-.4, .4), r.uni(-.3, .3), r.uni(-.3, .3), r.uni(-.3, .3), r.uni(0.2, 1));
	}
	laws a = measure(b.state(), b.m);
	double T = 0.5;
	c.set_desc(fmt("drift %s on %s bodies=%zu", name.c_str(), en.c_str(), n));
	bool adams = name.substr(0, 5) == "adams";
	auto ref = reference(b, T);
	auto dist = [&](const std::vector<double>& y) { double v = 0; for(size_t i = 0; i < y.size(); ++i) { v = std::max(v, std::fabs((double)(y[i] - ref[i]))); } return v; };
	double prev = 0, first = 0;
	int n0 = adams ? 32 : 4, n1 = adams ? 256 : 64;
	bool ok;
	auto d0 = integrate(en, sp, b, n0, T / n0, &ok);
	auto d1 = integrate(en, sp, b, n1, T / n1, &ok);
	if(!c.check(ok, "create", c.desc)) { return; }
	laws z0 = measure(d0, b.m), z1 = measure(d1, b.m);
	auto dr = [&](const laws& z) { double v = std::fabs((double)(z.en - a.en)) / (double)a.eabs; for(int q = 0; q < 3; ++q) { v = std::max(v, std::fabs((double)(z.l[q] - a.l[q])) / (double)a.labs); } return v; };
	first = dist(d0);
	prev = dist(d1);
	double red = std::pow((double)n1 / n0, order - 0.7);
	if(getenv("SHOW")) { fprintf(stderr, "drift %s %.2e -> %.2e need %.1f drifts %.2e %.2e\n", name.c_str(), first, prev, red, dr(z0), dr(z1)); }
	c.check(prev <= first / red + 1e-12, "drift-order:" + name, fmt("error of the state went from %.3g to %.3g when the step shrank %d-fold", first, prev, n1 / n0));
	// the laws are smooth functions of the state: relative drift cannot exceed a multiple of the state error
	c.check(dr(z0) <= 20 * first + 1e-13 && dr(z1) <= 20 * prev + 1e-13, "drift:" + name, fmt("relative drift %.3g / %.3g with state errors %.3g / %.3g", dr(z0), dr(z1), first, prev));
	c.check(dr(z1) < (order <= 1 ? 2e-2 : 1e-3), "drift-size:" + name, fmt("relative drift %.3g", dr(z1)));
	c.ev("drift runs");
	c.seen(fmt("d %s %s %zu", name.c_str(), en.c_str(), n));
	c.sample(fmt("drift %.2g -> %.2g", first, prev));
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	for(size_t k = 0; k < c.n(360, 12000); ++k)
	{
		if(!c.begin("laws", r)) { continue; }
		if(k % 3 == 0) { momentum(c, r); }
		else if(k % 3 == 1) { kepler(c, r); }
		else { drift(c, r); }
	}
	return c.done();
}
