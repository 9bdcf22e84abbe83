// C08: random programs over the public interface under ASan/UBSan (memory errors, undefined behaviour,
// heap growth over repetitions) and under valgrind (use of undefined values).
#include "any_solver.h"
#include "stream.h"
#include "nbody_extrapolator.h"
#include "nbody_solver_stormer.h"
#include "nbody_step_visitor.h"
#include <QDebug>
#include <valgrind/memcheck.h>
using namespace nb;

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live() { return 0; }
#endif

struct over {};
//! Bounds the work of a solver with extreme settings
static size_t g_budget;
template<class E> class bounded : public E
{
public:
	template<class... A> explicit bounded(A... a) : E(a...) {}
	void fcompute(const nbcoord_t& t, const nbody_engine::memory* y, nbody_engine::memory* f) override
	{
		if(g_budget-- == 0) { throw over(); }
		E::fcompute(t, y, f);
	}
	void fmadd(nbody_engine::memory* a, const nbody_engine::memory* b, const nbody_engine::memory* c, const nbcoord_t& d) override
	{
		if(g_budget-- == 0) { throw over(); }
		E::fmadd(a, b, c, d);
	}
};

struct visitor : public nbody_step_visitor { size_t n = 0; void visit(const nbody_data* d) override { n += d->get_count(); } };

static bool g_vg = false;
//! Every value that reached the state must be defined
static void defined(context& c, const void* p, size_t n, const char* what)
{
	if(!g_vg) { return; }
	size_t bad = VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
	c.check(bad == 0, std::string("undefined-") + what, std::string("undefined bytes in ") + what);
	VALGRIND_MAKE_MEM_DEFINED(p, n);
}

struct world
{
	struct sim
	{
		std::unique_ptr<nbody_data> data;			// outlives the engine
		std::unique_ptr<nbody_engine> engine;		// outlives solvers, extrapolators and buffers
		bool ready = false;
		std::vector<std::unique_ptr<nbody_solver>> solvers;
		std::vector<std::unique_ptr<nbody_extrapolator>> ext;
		std::vector<size_t> ext_levels, ext_next;
		std::vector<nbody_engine::memory*> buf;
		void clear_users()
		{
			solvers.clear(); ext.clear(); ext_levels.clear(); ext_next.clear();
			for(auto b : buf) { engine->free_buffer(b); }
			buf.clear();
		}
		~sim() { if(engine) { clear_users(); } engine.reset(); data.reset(); }
	};
	std::vector<std::unique_ptr<sim>> sims;
	std::vector<std::unique_ptr<nbody_data_stream>> writers;
	std::vector<std::unique_ptr<nbody_data_stream_reader>> readers;
};

static nbody_engine* make_engine(rng& r, std::string& name)
{
	size_t k = r.below(8), rate = r.below(4);
	double ratio = r.chance(0.2) ? 0 : r.logu(0.5, 20);
	e_traverse_type tt = r.chance(0.5) ? ett_cycle : ett_nested_tree;
	static const char* names[] = {"simple", "openmp", "block", "ah", "bh-tree", "bh-heap", "bh-stackless", "openmp"};
	name = names[k];
	switch(k)
	{
	case 0: return new bounded<nbody_engine_simple>();
	case 2: return new bounded<nbody_engine_block>();
	case 3: return new bounded<nbody_engine_ah>(r.below(4), r.logu(0.1, 30), r.logu(1e-6, 1));
	case 4: return new bounded<nbody_engine_simple_bh_tree>(ratio, tt, rate);
	case 5: return new bounded<nbody_engine_simple_bh_heap>(ratio, tt, rate);
	case 6: return new bounded<nbody_engine_simple_bh_heap_stackless>(ratio, tt, rate);
	default: return new bounded<nbody_engine_openmp>();
	}
}

static void program(context& c, rng r, size_t len, bool first)
{
	world w;
	std::string trace;
	auto op = [&](const std::string& s) { trace += " " + s; if(first) { c.ev("op " + s.substr(0, s.find(':'))); } c.set_desc("program" + (trace.size() > 1500 ? " ..." + trace.substr(trace.size() - 1500) : trace)); };
	std::string dir = c.scratch + "/w";
	mkdir(dir.c_str(), 0700);
	auto base = [&]() { return QString::fromStdString(dir + fmt("/s%zu", size_t(r.below(2)))); };
	auto sim = [&]() -> world::sim* { return w.sims.empty() ? nullptr : w.sims[r.below(w.sims.size())].get(); };
	auto ready = [&]() -> world::sim* { world::sim* s = sim(); return s && s->ready ? s : nullptr; };
	auto examine = [&](world::sim* s)
	{
		std::vector<double> y(s->engine->problem_size());
		s->engine->read_buffer(y.data(), s->engine->get_y());
		defined(c, y.data(), y.size() * sizeof(double), "state");
	};
	for(size_t i = 0; i < len; ++i)
	{
		g_budget = g_vg ? 300 : 1200;
		switch(r.below(30))
		{
		case 0:
		case 1:
		{
			if(w.sims.size() > 2) { break; }
			std::unique_ptr<world::sim> s(new world::sim);
			s->data.reset(new nbody_data);
			size_t n = r.chance(0.05) ? 0 : r.chance(0.3) ? r.range(1, 4) : r.range(1, 70);
			op(fmt("data:%zu", n));
			switch(r.below(4))
			{
			case 0: s->data->resize(n); break;
			case 1: s->data->make_universe(n, r.uni(1, 50), r.uni(1, 50), r.uni(1, 50)); break;
			default: make_bodies(r, n).fill(*s->data);
			}
			s->data->set_box_size(r.below(30));
			std::string name;
			s->engine.reset(make_engine(r, name));
			op("engine:" + name);
			if(r.chance(0.9)) { s->ready = s->engine->init(s->data.get()); op("init"); }
			w.sims.push_back(std::move(s));
			break;
		}
		case 2:		// init again, only while nothing depends on the engine
			if(world::sim* s = sim())
			{
				if(!s->engine || !s->solvers.empty() || !s->ext.empty() || !s->buf.empty()) { break; }
				op("init-again");
				if(r.chance(0.5) && s->data->get_count() < 80)
				{
					for(size_t n = r.range(1, 9); n--;) { s->data->add_body(nbvertex_t(r.uni(), r.uni(), r.uni()), nbvertex_t(0, 0, 0), r.uni(0.1, 1), nbcolor_t(1, 1, 1, 1)); }
				}
				s->ready = s->engine->init(s->data.get());
			}
			break;
		case 3:
		case 4:
		case 5:
			if(world::sim* s = sim())
			{
				if(!s->engine || s->solvers.size() > 2) { break; }
				std::string text;
				nbody_solver* x;
				if(r.chance(0.05)) { x = new nbody_solver_stormer(); text = "stormer"; }
				else { x = nbody_create_solver(any_solver(r, text)); }
				op("solver:" + text);
				if(!x) { break; }
				x->set_time_step(r.chance(0.5) ? 0 : 1e-9, r.logu(1e-4, 1e-1));
				if(r.chance(0.3)) { x->set_clamp_to_box(true); }
				if(r.chance(0.3)) { x->add_check_visitor(std::make_shared<visitor>()); }
				if(r.chance(0.2)) { x->print_info(); }
				if(!s->ready || r.chance(0.1)) { op("drop"); delete x; break; }		// a solver without engine
				x->set_engine(s->engine.get());
				s->solvers.emplace_back(x);
			}
			break;
		case 6:
		case 7:
		case 8:
		case 9:
		case 10:
		case 11:
			if(world::sim* s = ready())
			{
				if(s->solvers.empty()) { break; }
				nbody_solver* x = s->solvers[r.below(s->solvers.size())].get();
				op("advise");
				try { for(size_t n = r.range(1, 8); n--;) { x->advise(r.logu(1e-4, 1e-1)); } } catch(const over&) { if(first) { c.ev("work limit reached"); } }
				examine(s);
			}
			break;
		case 12:
			if(world::sim* s = ready())
			{
				if(s->solvers.empty()) { break; }
				nbody_solver* x = s->solvers[r.below(s->solvers.size())].get();
				if(dynamic_cast<nbody_solver_stormer*>(x)) { break; }		// unfinished, does not advance time
				op("run");
				nbody_data_stream* st = w.writers.empty() || r.chance(0.3) ? nullptr : w.writers[r.below(w.writers.size())].get();
				double dt = x->get_max_step(), t = s->data->get_time();
				try { x->run(s->data.get(), st, t + dt * r.below(6), r.chance(0.2) ? 0 : dt * r.range(1, 3), r.chance(0.2) ? 0 : dt * r.range(1, 3)); } catch(const over&) {}
				examine(s);
			}
			break;
		case 13:
			if(world::sim* s = ready())
			{
				if(s->solvers.empty()) { break; }
				op("reset");
				s->solvers[r.below(s->solvers.size())]->reset();
			}
			break;
		case 14:
			if(world::sim* s = ready())
			{
				if(s->solvers.empty()) { break; }
				nbody_solver* x = s->solvers[r.below(s->solvers.size())].get();
				op("change");
				if(auto rk = dynamic_cast<nbody_solver_rk_butcher*>(x))
				{
					switch(r.below(5))
					{
					case 0: rk->set_max_recursion(r.below(6)); break;
					case 1: rk->set_substep_subdivisions(r.range(1, 5)); break;
					case 2: rk->set_error_threshold(r.chance(0.3) ? 0 : r.logu(1e-9, 1)); break;
					case 3: rk->set_refine_steps_count(r.below(4)); break;
					default: rk->set_correction(r.chance(0.6));
					}
				}
				else if(auto tr = dynamic_cast<nbody_solver_trapeze*>(x)) { tr->set_refine_steps_count(r.below(4)); }
				x->set_time_step(r.chance(0.5) ? 0 : 1e-9, r.logu(1e-4, 1e-1));
				x->set_clamp_to_box(r.chance(0.5));
				x->print_info();
			}
			break;
		case 15:
			if(world::sim* s = ready())
			{
				if(s->solvers.empty()) { break; }
				op("drop-solver");
				s->solvers.erase(s->solvers.begin() + r.below(s->solvers.size()));
			}
			break;
		case 16:
			if(!w.sims.empty()) { op("drop-sim"); w.sims.erase(w.sims.begin() + r.below(w.sims.size())); }
			break;
		case 17:
		case 18:	// force evaluation and vector operations on own buffers
			if(world::sim* s = ready())
			{
				op("buffers");
				size_t size = s->engine->problem_size() * sizeof(nbcoord_t);
				while(s->buf.size() < 4)
				{
					s->buf.push_back(s->engine->create_buffer(size));
					s->engine->fill_buffer(s->buf.back(), r.uni(-1, 1));
				}
				auto b = [&]() { return s->buf[r.below(s->buf.size())]; };
				nbody_engine::memory *x = b(), *y = b(), *z = b();
				nbcoord_t res = 0, d[3] = {r.uni(-1, 1), 0, r.uni(-1, 1)};
				size_t k = r.below(4);
				nbody_engine::memory_array arr;
				for(size_t j = 0; j < 3; ++j) { arr.push_back(b()); }
				switch(r.below(9))
				{
				case 0: if(x != s->engine->get_y()) { try { s->engine->fcompute(0, s->engine->get_y(), x); } catch(const over&) {} } break;
				case 1: s->engine->copy_buffer(x, y); break;
				case 2: if(x != y) { s->engine->fmadd_inplace(x, y, r.uni(-1, 1)); } break;
				case 3: if(x != z && x != y) { try { s->engine->fmadd(x, y, z, r.uni(-1, 1)); } catch(const over&) {} } break;
				case 4: if(std::find(arr.begin(), arr.end(), x) == arr.end()) { try { s->engine->fmaddn_inplace(x, arr, d, k > 3 ? 3 : k); } catch(const over&) {} } break;
				case 5: if(std::find(arr.begin(), arr.end(), x) == arr.end()) { try { s->engine->fmaddn(x, r.chance(0.5) ? nullptr : y, arr, d, k > 3 ? 3 : k); } catch(const over&) {} } break;
				case 6: if(x != y && std::find(arr.begin(), arr.end(), x) == arr.end() && std::find(arr.begin(), arr.end(), y) == arr.end()) { s->engine->fmaddn_corr(x, y, arr, d, k > 3 ? 3 : k); } break;
				case 7: s->engine->clamp(x, r.uni(0, 2)); break;
				default: s->engine->fmaxabs(x, res); defined(c, &res, sizeof(res), "maximum");
				}
				std::vector<double> v(s->engine->problem_size());
				s->engine->read_buffer(v.data(), x);
				defined(c, v.data(), size, "vector");
				if(r.chance(0.3)) { s->engine->free_buffer(s->buf.back()); s->buf.pop_back(); }
				if(r.chance(0.1)) { s->engine->free_buffers(s->buf); s->buf.clear(); }
			}
			break;
		case 19:	// extrapolators, levels in order
			if(world::sim* s = ready())
			{
				if(s->ext.size() < 2 && r.chance(0.5))
				{
					std::vector<size_t> n;
					for(size_t j = r.range(1, 6), k = r.range(1, 3); j--;) { n.push_back(k); k += r.range(1, 4); }
					bool neville = r.chance(0.5);
					op(fmt("extrapolator:%s,%zu", neville ? "neville" : "berrut", n.size()));
					s->ext.emplace_back(nbody_create_extrapolator(neville ? "neville" : "berrut", s->engine.get(), r.range(1, 2), n));
					s->ext_levels.push_back(n.size());
					s->ext_next.push_back(0);
				}
				else if(!s->ext.empty())
				{
					size_t k = r.below(s->ext.size()), l = s->ext_next[k];
					op(fmt("extrapolate:%zu", l));
					nbody_engine::memory* m = s->engine->create_buffer(s->engine->problem_size() * sizeof(nbcoord_t));
					s->engine->fill_buffer(m, r.uni());
					s->ext[k]->update_table(l, m);
					nbcoord_t e = s->ext[k]->estimate_error(l);
					defined(c, &e, sizeof(e), "error estimate");
					s->ext[k]->extrapolate(l, m);
					s->engine->free_buffer(m);
					s->ext_next[k] = (l + 1) % s->ext_levels[k];
				}
			}
			break;
		case 20:
			if(w.writers.size() < 2) { op("writer"); w.writers.emplace_back(new nbody_data_stream); }
			else if(r.chance(0.3)) { op("drop-writer"); w.writers.erase(w.writers.begin() + r.below(w.writers.size())); }
			break;
		case 21:
			if(!w.writers.empty())
			{
				nbody_data_stream* s = w.writers[r.below(w.writers.size())].get();
				switch(r.below(4))
				{
				case 0: op("open"); s->open(base(), r.chance(0.3) ? 1 : 1 << 20); break;
				case 1:
					if(!w.readers.empty())
					{
						op("append");
						nbody_data_stream_reader* rd = w.readers[r.below(w.readers.size())].get();
						QString n(base());
						rd->load(n);
						s->open(n, r.chance(0.3) ? 1 : 1 << 20, rd);
					}
					break;
				case 2: op("close"); s->close(); break;
				default: op("open-bad"); s->open(QString::fromStdString(dir + "/s0.idx/x/y"), 1000); break;
				}
			}
			break;
		case 22:
		case 23:
			if(!w.writers.empty())
			{
				if(world::sim* s = sim()) { op("write"); w.writers[r.below(w.writers.size())]->write(s->data.get()); }
			}
			break;
		case 24:
			if(w.readers.size() < 2) { op("reader"); w.readers.emplace_back(new nbody_data_stream_reader); }
			else if(r.chance(0.3)) { op("drop-reader"); w.readers.erase(w.readers.begin() + r.below(w.readers.size())); }
			break;
		case 25:
			if(!w.readers.empty())
			{
				nbody_data_stream_reader* s = w.readers[r.below(w.readers.size())].get();
				switch(r.below(3))
				{
				case 0: op("load"); s->load(base()); break;
				case 1: op("load-bad"); s->load(QString::fromStdString(dir + "/nothing")); break;
				default: op("close-reader"); s->close(); break;
				}
				s->get_frame_count(); s->get_steps_count(); s->get_max_time(); s->get_last_file_n(); s->get_box_size(); s->get_current_frame();
			}
			break;
		case 26:
		case 27:
			if(!w.readers.empty())
			{
				nbody_data_stream_reader* s = w.readers[r.below(w.readers.size())].get();
				op("read");
				if(s->get_frame_count() == 0) { s->load(base()); }
				nbody_data d;
				if(r.chance(0.9)) { s->seek(r.chance(0.1) ? r.next() : r.below(s->get_frame_count() + 1)); }
				if(r.chance(0.9)) { d.resize(s->get_body_count()); }
				if(0 == s->read(&d))
				{
					defined(c, d.get_vertites(), d.get_count() * sizeof(nbvertex_t), "frame");
					defined(c, d.get_mass(), d.get_count() * sizeof(nbcoord_t), "frame masses");
					defined(c, d.get_color(), d.get_count() * sizeof(nbcolor_t), "frame colours");
					if(first) { c.ev("frames read"); }
				}
			}
			break;
		case 28:	// a data set by itself
		{
			op("data-only");
			nbody_data d;
			QString f(QString::fromStdString(dir + "/saved"));
			for(size_t n = r.range(1, 6); n--;)
			{
				switch(r.below(9))
				{
				case 0: d.resize(r.below(40)); break;
				case 1: d.clear(); break;
				case 2: d.make_universe(r.range(1, 70), 10, 10, 10); break;
				case 3: d.save(f); break;
				case 4: d.load(f); break;
				case 5: d.load_zeno_ascii(f); break;
				case 6: d.load_initial(f, r.chance(0.3) ? "zeno" : "SI"); break;
				case 7: make_bodies(r, r.below(20)).fill(d); break;
				default: { nbody_data e(d); d.is_equal(e); if(d.get_count()) { d.dump_body(r.below(d.get_count())); } e = d; break; }
				}
			}
			defined(c, d.get_vertites(), d.get_count() * sizeof(nbvertex_t), "data set");
			defined(c, d.get_velosites(), d.get_count() * sizeof(nbvertex_t), "data set velocities");
			defined(c, d.get_mass(), d.get_count() * sizeof(nbcoord_t), "data set masses");
			double t = d.get_time(); size_t st = d.get_step(), bs = d.get_box_size();
			defined(c, &t, sizeof(t), "time"); defined(c, &st, sizeof(st), "step"); defined(c, &bs, sizeof(bs), "box");
			break;
		}
		default:
			if(world::sim* s = ready())
			{
				op("statistics");
				s->data->set_check_list(r.chance(0.5) ? "PLVE" : "");
				s->data->print_statistics(s->engine.get());
				nbcoord_t v[] = {s->data->get_impulce_err(), s->data->get_impulce_moment_err(), s->data->get_energy_err(), s->data->get_last_total_energy(), s->data->get_initial_energy()};
				defined(c, v, sizeof(v), "statistics");
				nbody_data d;
				d.resize(s->data->get_count());
				s->engine->get_data(&d);
				defined(c, d.get_vertites(), d.get_count() * sizeof(nbvertex_t), "data set");
			}
			break;
		}
	}
	if(first) { c.seen(trace); c.sample(trace.substr(0, 300)); }
	w.readers.clear(); w.writers.clear(); w.sims.clear();
	if(system(("rm -rf '" + dir + "'").c_str())) {}
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	g_vg = RUNNING_ON_VALGRIND;
	rng r(1);
	size_t n = g_vg ? c.n(320, 6000) : c.n(480, 10000);
	for(size_t k = 0; k < n; ++k)
	{
		if(!c.begin("program", r)) { continue; }
		size_t len = g_vg ? r.range(3, 60) : r.range(3, 120);
		size_t b0, b1, b2, b3;
		program(c, r, len, true);
		if(g_vg) { c.ev("programs under valgrind"); continue; }
		c.ev("programs");
		if(r.chance(0.6)) { continue; }
		// heap growth of identical repetitions
		b0 = live();
		program(c, r, len, false);
		b1 = live();
		program(c, r, len, false);
		b2 = live();
		program(c, r, len, false);
		b3 = live();
		c.ev("programs repeated for heap growth");
		c.check(!(b1 > b0 && b2 > b1 && b3 > b2), "heap-growth", fmt("every repetition of the program leaves more memory allocated: %zu %zu %zu %zu bytes", b0, b1, b2, b3));
	}
	return c.done();
}
