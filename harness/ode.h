// Monitoring engine: real vector operations of a CPU engine, derivative replaced by a chosen ODE.
// It records every derivative evaluation and all buffer traffic between solver and engine.
#ifndef ODE_H
#define ODE_H
#include "nb.h"

namespace nb {
typedef std::function<void(double t, const double* y, double* f, size_t n)> rhs_t;

template<class Base>
class ode_engine_t : public Base
{
public:
	typedef typename nbody_engine::memory memory;
	rhs_t rhs;
	std::unique_ptr<nbody_data> d;
	// monitors
	std::vector<double> eval_times;
	bool record = false;
	size_t evals = 0;
	std::set<const memory*> live;
	size_t created = 0, freed = 0, foreign_free = 0, max_live = 0, null_free = 0;
	size_t dead_use = 0, bad_size = 0;
	uint64_t poison = 0;	// 0: leave; otherwise the bit pattern new buffers are filled with
	bool tracking = false;

	explicit ode_engine_t(const std::vector<double>& y0, rhs_t f, double t0 = 0) : rhs(f)
	{
		d.reset(new nbody_data());
		size_t n = (y0.size() + 5) / 6;
		std::vector<double> s(6 * n, 0.0);
		std::copy(y0.begin(), y0.end(), s.begin());
		for(size_t i = 0; i < n; ++i)
		{
			d->add_body(nbvertex_t(s[i], s[n + i], s[2 * n + i]), nbvertex_t(s[3 * n + i], s[4 * n + i], s[5 * n + i]), 1, nbcolor_t(1, 1, 1, 1));
		}
		d->set_time(t0);
		Base::init(d.get());
		tracking = true;
	}
	~ode_engine_t() { tracking = false; }
	typename nbody_engine_simple::smemory* create_buffer(size_t s) override
	{
		auto m = Base::create_buffer(s);
		if(tracking)
		{
			live.insert(m);
			++created;
			max_live = std::max(max_live, live.size());
			if(s != sizeof(nbcoord_t) * Base::problem_size()) { ++bad_size; }
			if(poison)
			{
				std::vector<uint64_t> p(s / 8 + 1, poison);
				Base::write_buffer(m, p.data());
			}
		}
		return m;
	}
	void free_buffer(memory* m) override
	{
		if(tracking)
		{
			if(m == nullptr) { ++null_free; return; }
			if(!live.erase(m)) { ++foreign_free; return; }
			++freed;
		}
		Base::free_buffer(m);
	}
	void use(const memory* m)
	{
		if(tracking && m && m != Base::get_y() && !live.count(m)) { ++dead_use; }
	}
	void fcompute(const nbcoord_t& t, const memory* y, memory* f) override
	{
		use(y); use(f);
		Base::advise_compute_count();
		++evals;
		if(record) { eval_times.push_back(t); }
		size_t n = Base::problem_size();
		std::vector<double> a(n), b(n, 0.0);
		Base::read_buffer(a.data(), y);
		rhs(t, a.data(), b.data(), n);
		Base::write_buffer(f, b.data());
	}
	void copy_buffer(memory* a, const memory* b) override { use(a); use(b); Base::copy_buffer(a, b); }
	void fill_buffer(memory* a, const nbcoord_t& v) override { use(a); Base::fill_buffer(a, v); }
	void fmadd_inplace(memory* a, const memory* b, const nbcoord_t& c) override { use(a); use(b); Base::fmadd_inplace(a, b, c); }
	void fmadd(memory* a, const memory* b, const memory* c, const nbcoord_t& q) override { use(a); use(b); use(c); Base::fmadd(a, b, c, q); }
	void fmaxabs(const memory* a, nbcoord_t& r) override { use(a); Base::fmaxabs(a, r); }
	std::vector<double> state()
	{
		std::vector<double> a(Base::problem_size());
		Base::read_buffer(a.data(), Base::get_y());
		return a;
	}
	void set_state(const std::vector<double>& s) { Base::write_buffer(Base::get_y(), s.data()); }
};
typedef ode_engine_t<nbody_engine_simple> ode_engine;
typedef ode_engine_t<nbody_engine_openmp> ode_engine_omp;

inline std::unique_ptr<nbody_solver> make_solver(const QVariantMap& p) { return std::unique_ptr<nbody_solver>(nbody_create_solver(p)); }
} // namespace nb
#endif
