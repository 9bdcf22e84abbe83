// C05: the same workload under many thread counts and schedules: bit-identical results, no race (TSan build).
#include "any_solver.h"
#include <omp.h>
using namespace nb;

extern "C" {
void shim_config(uint64_t seed, int mode) __attribute__((weak));
void shim_counters(uint64_t* out) __attribute__((weak));
}

//! Everything a user could see of one workload
static std::vector<double> workload(rng r, std::string& text, bool small)
{
	std::vector<double> out;
	static const char* names[] = {"simple", "openmp", "block", "ah", "simple_bh", "simple_bh"};
	std::string en = names[r.below(6)];
	size_t n;
	switch(r.below(4))
	{
	case 0: n = r.range(1, 20); break;
	case 1: n = r.range(60, 70); break;
	default: n = r.range(65, small ? 200 : 400); break;
	}
	if(en == "block") { n = r.chance(0.5) ? ((n + NBODY_DATA_BLOCK_SIZE - 1) / NBODY_DATA_BLOCK_SIZE) * NBODY_DATA_BLOCK_SIZE : n; }
	bodies b = make_bodies(r, n);
	QVariantMap p;
	p["engine"] = QString::fromStdString(en);
	if(en == "ah") { p["full_recompute_rate"] = uint(r.range(1, 4)); p["max_dist"] = r.logu(0.1, 30); p["min_force"] = r.logu(1e-6, 1); }
	if(en == "simple_bh")
	{
		static const char* lay[] = {"tree", "heap", "heap_stackless"};
		p["tree_layout"] = lay[r.below(3)];
		p["traverse_type"] = r.chance(0.5) ? "cycle" : "nested_tree";
		p["tree_build_rate"] = uint(r.below(4));
		p["distance_to_node_radius_ratio"] = r.chance(0.3) ? 1.5 : r.logu(1.1, 20);
	}
	text = show(p) + fmt(" n=%zu %s", n, b.kind.c_str());
	nbody_data d;
	b.fill(d);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(p));
	if(!e || !e->init(&d)) { return out; }
	size_t len = e->problem_size();
	auto take = [&](nbody_engine::memory* m) { std::vector<double> v(len); e->read_buffer(v.data(), m); out.insert(out.end(), v.begin(), v.end()); };
	nbody_engine::memory_array m(e->create_buffers(sizeof(nbcoord_t) * len, 4));
	std::vector<double> fill(len);
	for(auto x : m) { for(double& v : fill) { v = r.uni(-1, 1) * r.logu(1e-3, 1e3); } e->write_buffer(x, fill.data()); }
	size_t kind = r.below(3);
	if(kind == 0)	// force evaluations over a history of steps and moves
	{
		text += " evaluations";
		size_t steps = r.range(1, 5);
		for(size_t s = 0; s < steps; ++s)
		{
			e->fcompute(r.uni(), e->get_y(), m[0]);
			take(m[0]);
			e->fmadd_inplace(e->get_y(), m[1], r.logu(1e-8, 1e-2));
			e->set_step(e->get_step() + 1);
		}
	}
	else if(kind == 1)	// vector operations
	{
		text += " vector operations";
		for(size_t s = r.range(3, 10); s--;)
		{
			nbody_engine::memory *a = m[r.below(4)], *x = m[r.below(4)], *y = m[r.below(4)];
			double c[3] = {r.uni(-1, 1), r.chance(0.2) ? 0 : r.uni(-1, 1), r.uni(-1, 1)};
			nbody_engine::memory_array t;
			for(auto q : m) { if(q != a && q != x) { t.push_back(q); } }
			size_t cs = r.range(1, t.size());
			switch(r.below(9))
			{
			case 0: e->copy_buffer(a, x); break;
			case 1: e->fill_buffer(a, c[0]); break;
			case 2: e->fmadd_inplace(a, x, c[0]); break;
			case 3: e->fmadd(a, x, y, c[0]); break;
			case 4: e->fmaddn_inplace(a, t, c, cs); break;
			case 5: e->fmaddn(a, x, t, c, cs); break;
			case 6: if(a != x) { e->fmaddn_corr(a, x, t, c, cs); } break;
			case 7: { nbcoord_t res = 0; e->fmaxabs(a, res); out.push_back(res); break; }
			default: e->clamp(e->get_y(), r.uni(1, 8)); take(e->get_y()); break;
			}
			take(a);
			if(a != x) { take(x); }
		}
	}
	else	// a simulation
	{
		std::string st;
		QVariantMap sp = any_solver(r, st, true);
		text += " simulation with " + st;
		std::unique_ptr<nbody_solver> s(nbody_create_solver(sp));
		if(s)
		{
			s->set_engine(e.get());
			s->set_time_step(1e-5, 1e-2);
			double dt = r.logu(1e-5, 1e-2);
			for(size_t k = r.range(1, 4); k--;) { s->advise(dt); take(e->get_y()); }
			e->get_data(&d);
			d.print_statistics(e.get());
			nbvertex_t P = d.get_last_total_impulce(), L = d.get_last_total_impulce_moment();
			for(double v : {P.x, P.y, P.z, L.x, L.y, L.z, d.get_time()}) { out.push_back(v); }
		}
	}
	take(e->get_y());
	e->free_buffers(m);
	return out;
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	bool race = c.arg == "race", gomp = !shim_config;
	rng r(1);
	std::set<uint64_t> schedules;
	size_t cases = race ? c.n(160, 4000) : c.n(gomp ? 120 : 300, gomp ? 2000 : 8000);
	for(size_t k = 0; k < cases; ++k)
	{
		if(!c.begin("threads", r)) { continue; }
		uint64_t ws = r.next();
		std::string text;
		omp_set_num_threads(1);
		if(!gomp) { shim_config(1, 0); }
		std::vector<double> ref = workload(rng(ws), text, race);
		c.ev("reference workloads");
		size_t rep = race ? 2 : gomp ? 4 : 5;
		for(size_t q = 0; q < rep; ++q)
		{
			int nt = int(r.chance(0.3) ? 2 : r.range(2, gomp ? 12 : 9));
			uint64_t seed = r.next() % 1000000;
			int mode = race ? 0 : int(r.below(4) != 0);
			omp_set_num_threads(nt);
			if(!gomp) { shim_config(seed, mode); }
			std::string t2;
			c.set_desc(text + fmt(" threads=%d schedule=%llu mode=%d", nt, (unsigned long long)seed, mode));
			std::vector<double> got = workload(rng(ws), t2, race);
			c.ev("schedules run");
			if(!gomp) { uint64_t h[6]; shim_counters(h); if(mode == 1) { schedules.insert(h[5]); } }
			bool same = got.size() == ref.size() && (ref.empty() || memcmp(got.data(), ref.data(), ref.size() * sizeof(double)) == 0);
			size_t i = 0;
			while(!same && i < got.size() && i < ref.size() && memcmp(&got[i], &ref[i], sizeof(double)) == 0) { ++i; }
			c.check(same, "differs", same ? "" : fmt("value %zu is %.17g with %d threads, %.17g with one", i, i < got.size() ? got[i] : NAN, nt, i < ref.size() ? ref[i] : NAN));
			c.seen(text + fmt(" %d %llu %d", nt, (unsigned long long)seed, mode));
		}
		c.ev("values compared", ref.size() * rep);
		c.sample(fmt("%zu values", ref.size()));
	}
	if(!gomp)
	{
		uint64_t h[6];
		shim_counters(h);
		c.ev("parallel regions", h[0]); c.ev("threads started", h[1]); c.ev("tasks", h[2]); c.ev("dynamic chunks", h[3]); c.ev("hand-overs", h[4]);
		c.ev("distinct controlled schedules", schedules.size());
	}
	return c.done();
}
