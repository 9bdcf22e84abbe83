// C06: random programs of engine vector operations against a host-side model; nothing but the destination changes.
#include "nb.h"
using namespace nb;

struct vec
{
	nbody_engine::memory* mem;
	std::vector<double> val;
};

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	std::vector<QVariantMap> engines = {params({{"engine", "simple"}}), params({{"engine", "openmp"}}), params({{"engine", "block"}}),
		params({{"engine", "ah"}}), params({{"engine", "simple_bh"}}), params({{"engine", "simple_bh"}, {"tree_layout", "heap"}})};
	size_t runs = c.n(1200, 30000);
	for(size_t k = 0; k < runs; ++k)
	{
		if(!c.begin("program", r)) { continue; }
		size_t n = k < 66 ? k + 1 : r.range(1, r.chance(0.1) ? 700 : 80);
		if(k % 100 == 99) { n = r.range(700, 6000); }
		QVariantMap ep = engines[r.below(engines.size())];
		std::string en = ep["engine"].toString().toStdString();
		c.set_desc(fmt("engine=%s n=%zu", en.c_str(), n));
		bodies b = make_bodies(r, n, 0);
		engine_run e(b, ep);
		if(!c.check(e.ok, "init", "engine creation or init failed")) { continue; }
		nbody_engine* g = e.eng.get();
		size_t ps = g->problem_size();
		std::vector<vec> v(3 + r.below(6));
		bool wide = r.chance(0.3);
		auto num = [&]() { double s = r.chance(0.5) ? -1 : 1; return s * (wide ? r.logu(1e-12, 1e12) : r.uni(0, 4)); };
		for(auto& x : v)
		{
			x.mem = g->create_buffer(ps * sizeof(nbcoord_t));
			c.check(x.mem->size() == ps * sizeof(nbcoord_t), "buffer-size", fmt("buffer of %zu bytes reports %zu", ps * sizeof(nbcoord_t), x.mem->size()));
			x.val.resize(ps);
			for(auto& q : x.val) { q = num(); }
			g->write_buffer(x.mem, x.val.data());
		}
		int ops = 6 + int(r.below(12));
		for(int i = 0; i < ops; ++i)
		{
			size_t ai = r.below(v.size());
			size_t bi = r.chance(0.25) ? ai : r.below(v.size());
			size_t ci = r.chance(0.2) ? ai : r.below(v.size());
			int op = r.below(9);
			double coef = r.chance(0.15) ? 0 : num();
			std::vector<double> want = v[ai].val;
			std::vector<ld> tol(ps, 0);
			std::vector<size_t> terms;
			std::vector<double> cf;
			std::string key;
			double res = 0;
			switch(op)
			{
			case 0:
				key = "copy";
				g->copy_buffer(v[ai].mem, v[bi].mem);
				want = v[bi].val;
				break;
			case 1:
				key = "fill";
				g->fill_buffer(v[ai].mem, coef);
				want.assign(ps, coef);
				break;
			case 2:
				key = "fmadd_inplace";
				g->fmadd_inplace(v[ai].mem, v[bi].mem, coef);
				for(size_t q = 0; q < ps; ++q)
				{
					ld x = ld(v[ai].val[q]) + ld(v[bi].val[q]) * coef;
					want[q] = double(x);
					tol[q] = (fabsl(v[ai].val[q]) + fabsl(ld(v[bi].val[q]) * coef)) * 4e-16L;
				}
				break;
			case 3:
				key = "fmadd";
				g->fmadd(v[ai].mem, v[bi].mem, v[ci].mem, coef);
				for(size_t q = 0; q < ps; ++q)
				{
					want[q] = double(ld(v[bi].val[q]) + ld(v[ci].val[q]) * coef);
					tol[q] = (fabsl(v[bi].val[q]) + fabsl(ld(v[ci].val[q]) * coef)) * 4e-16L;
				}
				break;
			case 4: case 5: case 6:
			{
				key = op == 4 ? "fmaddn_inplace" : op == 5 ? "fmaddn" : "fmaddn_corr";
				nbody_engine::memory_array arr;
				size_t na = r.chance(0.15) ? r.range(5, 40) : r.below(5), nc = na ? r.below(na + 1) : 0;
				if(op == 6 && v.size() < 4) { continue; }
				size_t corr = (ai + 1) % v.size();
				for(size_t q = 0; q < na; ++q)
				{
					size_t t;
					do { t = r.below(v.size()); }
					while(t == ai || (op == 6 && t == corr));
					terms.push_back(t);
					arr.push_back(v[t].mem);
					cf.push_back(r.chance(0.3) ? 0 : num());
				}
				if(r.chance(0.2)) { std::fill(cf.begin(), cf.end(), 0.0); }
				const nbody_engine::memory* bm = op == 5 && r.chance(0.3) ? nullptr : v[bi].mem;
				if(cf.empty()) { cf.push_back(1); }
				if(op == 6)
				{
					v[corr].val.assign(ps, 0);
					g->fill_buffer(v[corr].mem, 0);
					g->fmaddn_corr(v[ai].mem, v[corr].mem, arr, cf.data(), nc);
					g->read_buffer(v[corr].val.data(), v[corr].mem);	// judged by C07
				}
				else if(op == 4) { g->fmaddn_inplace(v[ai].mem, arr, cf.data(), nc); }
				else { g->fmaddn(v[ai].mem, bm, arr, cf.data(), nc); }
				for(size_t q = 0; q < ps; ++q)
				{
					ld x = op == 5 ? (bm ? v[bi].val[q] : 0) : v[ai].val[q], s = fabsl(x);
					for(size_t w = 0; w < nc; ++w) { x += ld(v[terms[w]].val[q]) * cf[w]; s += fabsl(ld(v[terms[w]].val[q]) * cf[w]); }
					want[q] = double(x);
					tol[q] = s * (nc + 2) * 3e-16L;
				}
				if(nc == 0 || std::all_of(cf.begin(), cf.begin() + nc, [](double d) { return d == 0; })) { key += ":zero"; }
				break;
			}
			case 7:
			{
				key = "fmaxabs";
				double m = 0;
				for(double q : v[ai].val) { m = std::max(m, std::fabs(q)); }
				res = -1;
				g->fmaxabs(v[ai].mem, res);
				c.check(res == m, key + ":" + en, fmt("fmaxabs returned %.17g, maximum is %.17g", res, m));
				break;
			}
			case 8:
				key = "write";
				for(auto& q : want) { q = num(); }
				g->write_buffer(v[ai].mem, want.data());
				break;
			}
			c.ev("op_" + key);
			// every vector: destination within tolerance, others bit-identical
			std::vector<double> got(ps);
			for(size_t q = 0; q < v.size(); ++q)
			{
				g->read_buffer(got.data(), v[q].mem);
				if(q == ai)
				{
					for(size_t w = 0; w < ps; ++w)
					{
						ld d = fabsl(ld(got[w]) - want[w]);
						if(!(d <= tol[w] + 1e-300L))
						{
							c.violation(key + ":" + en, fmt("element %zu of %zu is %.17g, expected %.17g (a=%zu b=%zu c=%zu terms=%zu)", w, ps, got[w], want[w], ai, bi, ci, terms.size()));
							break;
						}
					}
					v[q].val = got;
				}
				else
				{
					c.check(memcmp(got.data(), v[q].val.data(), ps * 8) == 0, key + ":side-effect:" + en, fmt("vector %zu changed, destination was %zu", q, ai));
				}
				c.ev("elements_compared", ps);
			}
			c.seen(fmt("%s %s %zu %d %d %zu", en.c_str(), key.c_str(), n, ai == bi, ai == ci, terms.size()));
			c.sample(key);
		}
		for(auto& x : v) { g->free_buffer(x.mem); }
		// Buffers of any other size are filled, copied, written and read whole, and nothing beyond them
		size_t os = r.chance(0.3) ? r.range(1, 4) : r.range(1, 3 * ps);
		nbody_engine::memory* p = g->create_buffer(os * sizeof(nbcoord_t));
		nbody_engine::memory* q = g->create_buffer(os * sizeof(nbcoord_t));
		nbody_engine::memory* o = g->create_buffer((os + 1 + r.below(8)) * sizeof(nbcoord_t));
		std::vector<double> src(os), got(os), other(o->size() / 8), back(other.size());
		for(auto& x : src) { x = num(); }
		for(auto& x : other) { x = num(); }
		g->write_buffer(p, src.data());
		g->write_buffer(o, other.data());
		g->copy_buffer(q, p);
		g->read_buffer(got.data(), q);
		c.check(got == src, "copy:size:" + en, fmt("a copied buffer of %zu numbers differs (problem size %zu)", os, ps));
		double fv = num();
		g->fill_buffer(q, fv);
		g->read_buffer(got.data(), q);
		c.check(std::all_of(got.begin(), got.end(), [&](double d) { return d == fv; }), "fill:size:" + en, fmt("a filled buffer of %zu numbers is not uniform (problem size %zu)", os, ps));
		g->read_buffer(got.data(), p);
		g->read_buffer(back.data(), o);
		c.check(got == src && back == other, "size:side-effect:" + en, "a copy or fill changed another buffer");
		for(auto x : {p, q, o}) { g->free_buffer(x); }
		c.ev("buffers_of_other_sizes", 3);
		if(k % 256 == 255) { c.flush(); }
	}
	return c.done();
}
