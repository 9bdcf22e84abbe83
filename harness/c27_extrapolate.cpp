// C27: extrapolators on sequences with a known limit.
#include "nb.h"
#include "nbody_extrapolator.h"
using namespace nb;
int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	size_t runs = c.n(1500, 40000);
	for(size_t k = 0; k < runs; ++k)
	{
		if(!c.begin("extrapolate", r)) { continue; }
		size_t n = r.range(1, 12), levels = r.range(2, 8);
		size_t order = r.chance(0.5) ? 2 : r.range(1, 3);
		const char* en = r.chance(0.5) ? "simple" : "openmp";
		std::vector<size_t> steps;
		int seq = r.below(4);
		for(size_t i = 0; i < levels; ++i)
		{
			size_t s = seq == 0 ? 2 * (i + 1) : seq == 1 ? (i < 2 ? 2 + 2 * i : i == 2 ? 6 : 2 * steps[i - 2]) : seq == 2 ? (size_t(1) << (i + 1)) :
				(steps.empty() ? r.range(1, 3) : steps.back() + r.range(1, 4));
			steps.push_back(s);
		}
		c.set_desc(fmt("neville engine=%s levels=%zu order=%zu sequence=%d", en, levels, order, seq));
		bodies b = make_bodies(r, n, 0);
		engine_run e(b, params({{"engine", en}}));
		nbody_engine* g = e.eng.get();
		size_t ps = g->problem_size();
		std::unique_ptr<nbody_extrapolator> nev(nbody_create_extrapolator("neville", g, order, steps));
		std::unique_ptr<nbody_extrapolator> ber(nbody_create_extrapolator("berrut", g, order, steps));
		if(!c.check(nev && ber, "create", "extrapolator not created")) { continue; }
		nbody_engine::memory* y = g->create_buffer(ps * 8);
		nbody_engine::memory* z = g->create_buffer(ps * 8);
		int uses = 1 + int(r.below(3));
		for(int u = 0; u < uses; ++u)
		{
			// y_k = sum_m coef_m * h_k^m with h_k = steps_k^-order
			size_t used = r.range(1, levels);
			std::vector<std::vector<double>> coef(ps);
			std::vector<std::vector<ld>> Y(used, std::vector<ld>(ps));
			std::vector<std::vector<double>> Yd(used, std::vector<double>(ps));
			for(size_t i = 0; i < ps; ++i)
			{
				for(size_t m = 0; m < used; ++m) { coef[i].push_back(r.uni(-2, 2)); }
				for(size_t q = 0; q < used; ++q)
				{
					ld h = powl(steps[q], -ld(order)), s = 0;
					for(size_t m = used; m-- > 0;) { s = s * h + coef[i][m]; }
					Y[q][i] = s;
					Yd[q][i] = double(s);
				}
			}
			// reference Neville tableau in extended precision on the rounded data, with error amplification
			std::vector<std::vector<ld>> T(used, std::vector<ld>(ps)), A(used, std::vector<ld>(ps));
			for(size_t q = 0; q < used; ++q)
			{
				g->write_buffer(y, Yd[q].data());
				nev->update_table(q, y);
				ber->update_table(q, y);
				std::vector<double> chk(ps);
				g->read_buffer(chk.data(), y);
				c.check(chk == Yd[q], "input", "update_table changed its input");
				std::vector<std::vector<ld>> T2(used, std::vector<ld>(ps)), A2(used, std::vector<ld>(ps));
				for(size_t i = 0; i < ps; ++i)
				{
					T2[0][i] = Yd[q][i];
					A2[0][i] = fabsl(Yd[q][i]);
					for(size_t j = 0; j < q; ++j)
					{
						ld n1 = powl(steps[q], order), n2 = powl(steps[q - j - 1], order);
						T2[j + 1][i] = (n1 * T2[j][i] - n2 * T[j][i]) / (n1 - n2);
						A2[j + 1][i] = (n1 * A2[j][i] + n2 * A[j][i]) / fabsl(n1 - n2);
					}
				}
				T = T2;
				A = A2;
				nev->extrapolate(q, z);
				std::vector<double> got(ps);
				g->read_buffer(got.data(), z);
				ld worst = 0, est = 0, estA = 0;
				for(size_t i = 0; i < ps; ++i)
				{
					worst = std::max(worst, fabsl(got[i] - T[q][i]) / (A[q][i] * 2e-15L + 1e-300L));
					if(q) { est = std::max(est, fabsl(T[q][i] - T[q - 1][i])); estA = std::max(estA, A[q][i] + A[q - 1][i]); }
				}
				c.check(worst <= 1, "neville-value", fmt("level %zu differs from the extrapolation polynomial's limit by %.3Lg times the rounding bound", q, worst));
				if(q + 1 == used)
				{
					ld w2 = 0;
					for(size_t i = 0; i < ps; ++i) { w2 = std::max(w2, fabsl(got[i] - coef[i][0]) / (A[q][i] * 4e-15L + 1e-300L)); }
					c.check(w2 <= 1, "neville-limit", fmt("with %zu levels the limit of a %zu-term series is missed by %.3Lg times the rounding bound", used, used, w2));
				}
				if(q)
				{
					double es = nev->estimate_error(q);
					c.check(fabsl(es - est) <= estA * 4e-15L, "neville-estimate", fmt("level %zu estimate %.17g, last change %.17Lg", q, es, est));
				}
				else { c.check(nev->estimate_error(0) > 1e300, "neville-estimate0", "estimate at level 0 is not 'unknown'"); }
				c.ev("levels_checked");
				c.seen(fmt("%s %zu %zu %d %zu %zu", en, n, order, seq, q, used));
			}
			// rational extrapolator: weights sum to one, so constants are reproduced; estimate is the change of the value
			double cst = r.uni(-3, 3);
			std::vector<double> cc(ps, cst), got(ps), prev(ps);
			for(size_t q = 0; q < levels; ++q) { g->write_buffer(y, cc.data()); ber->update_table(q, y); }
			for(size_t q = 1; q < levels; ++q)
			{
				ber->extrapolate(q, z);
				g->read_buffer(got.data(), z);
				for(size_t i = 0; i < ps; ++i)
				{
					if(!c.check(std::fabs(got[i] - cst) <= 1e-13 * levels, "berrut-constant", fmt("constant %.17g extrapolated to %.17g at level %zu", cst, got[i], q))) { break; }
				}
			}
			for(size_t q = 0; q < used; ++q) { g->write_buffer(y, Yd[q].data()); ber->update_table(q, y); }
			for(size_t q = 2; q < used; ++q)
			{
				ber->extrapolate(q, z);
				g->read_buffer(got.data(), z);
				ber->extrapolate(q - 1, z);
				g->read_buffer(prev.data(), z);
				double d = 0;
				for(size_t i = 0; i < ps; ++i) { d = std::max(d, std::fabs(got[i] - prev[i])); }
				double es = ber->estimate_error(q);
				c.check(std::fabs(es - d) <= 1e-12, "berrut-estimate", fmt("level %zu estimate %.17g, change of the value %.17g", q, es, d));
			}
			c.sample(fmt("use %d with %zu levels", u, used));
		}
		g->free_buffer(y);
		g->free_buffer(z);
	}
	return c.done();
}
