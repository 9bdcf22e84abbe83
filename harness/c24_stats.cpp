// C24: reported conserved quantities and errors vs an extended-precision recomputation.
#include "nb.h"
#include <QDebug>
#include <omp.h>
#include <sstream>
using namespace nb;

static std::string g_line;
static void handler(QtMsgType, const QMessageLogContext&, const QString& s) { g_line += s.toStdString() + "\n"; }

struct quant { ld v[3]; ld mag[3]; };
static quant zero() { quant q; for(int k = 0; k < 3; ++k) { q.v[k] = q.mag[k] = 0; } return q; }
struct totals { quant P, L, R; ld E, Emag; };
static totals oracle(const bodies& b)
{
	totals t; t.P = t.L = t.R = zero(); t.E = t.Emag = 0;
	ld M = 0;
	for(size_t i = 0; i < b.size(); ++i)
	{
		ld p[3] = {b.x[i], b.y[i], b.z[i]}, v[3] = {b.vx[i], b.vy[i], b.vz[i]}, m = b.m[i];
		M += m;
		for(int k = 0; k < 3; ++k)
		{
			int a = (k + 1) % 3, c = (k + 2) % 3;
			t.P.v[k] += m * v[k]; t.P.mag[k] += fabsl(m * v[k]);
			t.R.v[k] += m * p[k]; t.R.mag[k] += fabsl(m * p[k]);
			t.L.v[k] += m * (p[a] * v[c] - p[c] * v[a]); t.L.mag[k] += fabsl(m * p[a] * v[c]) + fabsl(m * p[c] * v[a]);
			t.E += m * v[k] * v[k] / 2; t.Emag += m * v[k] * v[k] / 2;
		}
		for(size_t j = 0; j < i; ++j)
		{
			ld dx = p[0] - b.x[j], dy = p[1] - b.y[j], dz = p[2] - b.z[j], r2 = dx * dx + dy * dy + dz * dz;
			ld e = m * b.m[j] / sqrtl(r2);
			if(fabsl(r2 - 1e-8L) < 1e-20L) { t.Emag += e * 1e16L; continue; }	// rounding decides whether the pair counts
			if(r2 < 1e-8L) { continue; }
			t.E -= e; t.Emag += e;
		}
	}
	for(int k = 0; k < 3; ++k) { t.R.v[k] /= M; t.R.mag[k] /= M; }
	return t;
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	unsetenv("QT_LOGGING_RULES");
	qInstallMessageHandler(handler);
	rng r(1);
	const char* engines[] = {"simple", "openmp", "block", "ah", "simple_bh", ""};
	const char* lists[] = {"PLVE", "PLV", "E", "P", "L", "V", "EP", "VL", ""};
	size_t cases = c.n(8000, 100000);
	for(size_t k = 0; k < cases; ++k)
	{
		if(!c.begin("statistics", r)) { continue; }
		omp_set_num_threads(int(r.range(1, 4)));
		std::string list = lists[r.chance(0.5) ? 0 : r.below(9)];
		nbody_data d;
		if(!(list == "PLV" && r.chance(0.5))) { d.set_check_list(QString::fromStdString(list)); }
		size_t sets = r.chance(0.2) ? 2 : 1;
		std::string hist;
		for(size_t set = 0; set < sets; ++set)
		{
			std::string en = engines[r.below(6)];
			size_t n = en == "block" ? 16 * r.range(1, 6) : r.range(1, r.chance(0.2) ? 120 : 20);
			bodies b = make_bodies(r, n);
			if(r.chance(0.15)) { for(size_t i = 0; i < n; ++i) { b.vx[i] = b.vy[i] = b.vz[i] = 0; } b.kind += ",at rest"; }
			if(set) { d.clear(); }
			double t0 = r.chance(0.5) ? 0 : r.uni(0, 100);
			size_t s0 = r.chance(0.5) ? 0 : r.below(100000);
			b.fill(d);
			d.set_time(t0); d.set_step(s0);
			std::unique_ptr<nbody_engine> e;
			std::unique_ptr<nbody_solver> sol;
			hist += fmt("%s %zu bodies (%s) list '%s'%s", en.c_str(), n, b.kind.c_str(), list.c_str(), set ? " after clear" : "");
			c.set_desc(hist);
			nbody_engine::memory* f = nullptr;
			if(!en.empty())
			{
				e.reset(nbody_create_engine(params({{"engine", QString::fromStdString(en)}})));
				if(!e || !e->init(&d)) { c.violation("create", "engine " + en); continue; }
				f = e->create_buffer(sizeof(nbcoord_t) * e->problem_size());
				if(r.chance(0.5))
				{
					sol.reset(nbody_create_solver(params({{"solver", r.chance(0.5) ? "rk4" : "euler"}})));
					sol->set_engine(e.get());
					sol->set_time_step(1e-4, 1e-3);
				}
			}
			size_t reports = r.range(1, 4), prev_cc = 0;
			nbvertex_t iP, iL, iR; double iE = 0;
			for(size_t q = 0; q < reports; ++q)
			{
				if(q)
				{
					// move on: by solver, by rewriting the state, or not at all
					size_t how = r.below(3);
					if(sol && how == 0) { for(size_t i = r.range(1, 3); i--;) { sol->advise(1e-3); } }
					else if(how != 2)
					{
						double w = r.logu(1e-12, 1e2);
						std::vector<double> st = b.state();
						if(e && e->get_y()) { e->read_buffer(st.data(), e->get_y()); }
						for(double& x : st) { x += r.uni(-w, w); }
						if(e) { e->write_buffer(e->get_y(), st.data()); e->set_step(e->get_step() + 3); }
						else { b.set_state(st); for(size_t i = 0; i < n; ++i) { d.get_vertites()[i] = nbvertex_t(b.x[i], b.y[i], b.z[i]); d.get_velosites()[i] = nbvertex_t(b.vx[i], b.vy[i], b.vz[i]); } d.advise_time(0.25); }
					}
				}
				if(e && r.chance(0.5)) { for(size_t i = r.below(4); i--;) { e->fcompute(0, e->get_y(), f); } }
				std::vector<double> before = b.state();
				if(e) { e->read_buffer(before.data(), e->get_y()); b.set_state(before); }
				double time = e ? e->get_time() : d.get_time();
				size_t step = e ? e->get_step() : d.get_step(), cc = e ? e->get_compute_count() : 0;
				g_line.clear();
				d.print_statistics(e.get());
				std::string line = g_line;
				c.ev("reports");
				// the simulation is unchanged, the data set shows it
				if(e)
				{
					std::vector<double> after(before.size());
					e->read_buffer(after.data(), e->get_y());
					c.check(memcmp(after.data(), before.data(), before.size() * sizeof(double)) == 0 && e->get_time() == time && e->get_step() == step && e->get_compute_count() == cc, "state-changed", "the report changed the engine's state");
				}
				c.check(d.get_count() == n && d.get_time() == time && d.get_step() == step, "data-state", fmt("data set is at t=%.17g step %zu, engine at t=%.17g step %zu", d.get_time(), d.get_step(), time, step));
				bool same = d.get_count() == n;
				for(size_t i = 0; same && i < n; ++i)
				{
					const nbvertex_t &p = d.get_vertites()[i], &v = d.get_velosites()[i];
					same = p.x == b.x[i] && p.y == b.y[i] && p.z == b.z[i] && v.x == b.vx[i] && v.y == b.vy[i] && v.z == b.vz[i] && d.get_mass()[i] == b.m[i];
				}
				c.check(same, "data-state", "the data set does not show the state of the engine");
				totals o = oracle(b);
				double eps = 2.3e-16 * (double(n) * 4 + 32), epsE = 2.3e-16 * (double(n) * double(n) + 64);
				auto cmp = [&](const char* what, const nbvertex_t& got, const quant& w)
				{
					double g[3] = {got.x, got.y, got.z};
					for(int i = 0; i < 3; ++i) { c.check(fabsl(g[i] - w.v[i]) <= eps * w.mag[i] + 1e-300L, what, fmt("component %d reported %.17g, is %.17Lg (allowed %.3Lg)", i, g[i], w.v[i], eps * w.mag[i])); }
				};
				auto in = [&](char x) { return list.find(x) != std::string::npos; };
				if(in('P')) { cmp("momentum", d.get_last_total_impulce(), o.P); }
				if(in('L')) { cmp("angular-momentum", d.get_last_total_impulce_moment(), o.L); }
				if(in('V')) { cmp("mass-centre", d.get_last_mass_center(), o.R); }
				if(in('E')) { c.check(fabsl(d.get_last_total_energy() - o.E) <= epsE * o.Emag, "energy", fmt("reported %.17g, is %.17Lg (allowed %.3Lg)", d.get_last_total_energy(), o.E, epsE * o.Emag)); }
				if(q == 0)
				{
					iP = d.get_initial_impulce(); iL = d.get_initial_impulce_moment(); iR = d.get_initial_mass_center(); iE = d.get_initial_energy();
					auto eq = [&](const nbvertex_t& a, const nbvertex_t& z) { return a.x == z.x && a.y == z.y && a.z == z.z; };
					if(in('P')) { c.check(eq(iP, d.get_last_total_impulce()), "initial", "initial momentum is not that of the first report"); }
					if(in('L')) { c.check(eq(iL, d.get_last_total_impulce_moment()), "initial", "initial angular momentum is not that of the first report"); }
					if(in('V')) { c.check(eq(iR, d.get_last_mass_center()), "initial", "initial mass centre is not that of the first report"); }
					if(in('E')) { c.check(iE == d.get_last_total_energy(), "initial", "initial energy is not that of the first report"); }
				}
				else
				{
					auto eq = [&](const nbvertex_t& a, const nbvertex_t& z) { return a.x == z.x && a.y == z.y && a.z == z.z; };
					c.check(eq(iP, d.get_initial_impulce()) && eq(iL, d.get_initial_impulce_moment()) && eq(iR, d.get_initial_mass_center()) && iE == d.get_initial_energy(), "initial-changed", "a later report changed the initial values");
				}
				auto err3 = [&](const nbvertex_t& a, const nbvertex_t& z) { ld x = ld(a.x) - z.x, y = ld(a.y) - z.y, w = ld(a.z) - z.z; return 100 * sqrtl(x * x + y * y + w * w) / sqrtl(ld(z.x) * z.x + ld(z.y) * z.y + ld(z.z) * z.z); };
				auto rel = [&](const char* what, double got, ld want)
				{
					if(!std::isfinite(double(want))) { c.ev("undefined errors"); return; }
					c.check(fabsl(got - want) <= 1e-12L * want, what, fmt("reported error %.17g, is %.17Lg", got, want));
				};
				ld eP = err3(d.get_last_total_impulce(), iP), eL = err3(d.get_last_total_impulce_moment(), iL), eE = fabsl(100 * (ld(d.get_last_total_energy()) - iE) / iE);
				if(in('P')) { rel("momentum-error", d.get_impulce_err(), eP); }
				if(in('L')) { rel("angular-momentum-error", d.get_impulce_moment_err(), eL); }
				if(in('E')) { rel("energy-error", d.get_energy_err(), eE); }
				// the printed line
				std::map<std::string, std::string> tok;
				{
					std::stringstream ss(line);
					std::string a, z;
					while(ss >> a >> z) { tok[a] = z; }
				}
				auto shown = [&](const char* key, ld want, int digits)
				{
					if(!tok.count(key)) { c.violation("line", fmt("no %s in the report: ", key) + line); return; }
					if(!std::isfinite(double(want))) { return; }
					double got = atof(tok[key].c_str());
					ld tol = digits ? fabsl(want) * 0.51e-3L * 10 + 1e-300L : 0.51e-6L;
					c.check(fabsl(got - want) <= tol, "line", fmt("%s is shown as %s, is %.17Lg", key, tok[key].c_str(), want));
				};
				c.check(strtoull(tok["#"].c_str(), 0, 10) == step, "line", fmt("step %zu is shown as ", step) + tok["#"]);
				shown("t", time, 0);
				c.check(strtoull(tok["CC"].c_str(), 0, 10) == cc, "line", fmt("compute count %zu is shown as ", cc) + tok["CC"]);
				c.check(strtoull(tok["SC"].c_str(), 0, 10) == cc - prev_cc, "line", fmt("%zu evaluations since the last report are shown as ", cc - prev_cc) + tok["SC"]);
				prev_cc = cc;
				c.check(tok.count("dP") == in('P') && tok.count("dL") == in('L') && tok.count("Vcm") == in('V') && tok.count("dE") == in('E'), "line", "the report shows other quantities than requested: " + line);
				if(in('P')) { shown("dP", eP, 3); }
				if(in('L')) { shown("dL", eL, 3); }
				if(in('E')) { shown("dE", eE, 3); }
				if(in('V') && time != 0)
				{
					nbvertex_t a = d.get_last_mass_center();
					ld x = ld(a.x) - iR.x, y = ld(a.y) - iR.y, w = ld(a.z) - iR.z;
					shown("Vcm", sqrtl(x * x + y * y + w * w) / fabsl(time), 3);
				}
				c.seen(fmt("%s %zu %s %s %zu", en.c_str(), n, b.kind.c_str(), list.c_str(), q));
			}
			hist += fmt(", %zu reports; ", reports);
			if(f) { e->free_buffer(f); }
			sol.reset();
		}
		c.sample("ok");
	}
	return c.done();
}
