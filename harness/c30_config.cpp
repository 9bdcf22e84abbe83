// C30: factories and argument parser vs objects configured by hand.
#include "any_solver.h"
#include "nbody_arg_parser.h"
#include "nbody_extrapolator.h"
#include <memory>
#include "nbody_engine_ah.h"
#include "nbody_engine_block.h"
#include <QDebug>
using namespace nb;

static std::string g_text;
static void handler(QtMsgType, const QMessageLogContext&, const QString& s) { g_text += s.toStdString() + "\n"; }
template<class T> static std::string info(const T* x) { g_text.clear(); x->print_info(); return g_text; }

//! A value as the program or as a command line would pass it
static QVariant val(rng& r, double x) { return r.chance(0.5) ? QVariant(x) : QVariant(QString::fromStdString(fmt(r.chance(0.5) ? "%.17g" : "%.17e", x))); }
static QVariant val(rng& r, size_t x) { switch(r.below(4)) { case 0: return QVariant(uint(x)); case 1: return QVariant(int(x)); case 2: return QVariant(qulonglong(x)); default: return QVariant(QString::number(qulonglong(x))); } }
static QVariant val(rng& r, bool x) { switch(r.below(4)) { case 0: return QVariant(x); case 1: return QVariant(int(x)); case 2: return QVariant(QString(x ? "true" : "false")); default: return QVariant(QString(x ? "1" : "0")); } }

struct sol
{
	std::string type;
	bool has_thr, has_rec, has_sub, has_ref, has_corr, has_lev, has_rank;
	double thr; size_t rec, sub, ref, lev, rank; bool corr;
};
template<class T> static nbody_solver* butcher(const sol& s)
{
	T* x = new T();
	x->set_error_threshold(s.has_thr ? s.thr : 1e-4);
	x->set_max_recursion(s.has_rec ? s.rec : 8);
	x->set_refine_steps_count(s.has_ref ? s.ref : 1);
	x->set_substep_subdivisions(s.has_sub ? s.sub : 8);
	x->set_correction(s.has_corr && s.corr);
	return x;
}
static nbody_solver* by_hand(const std::string& t, const sol& s, const std::string& starter, double mn, double mx)
{
	if(t == "euler") { return new nbody_solver_euler(); }
	if(t == "midpoint") { return new nbody_solver_midpoint(); }
	if(t == "midpoint-st") { return new nbody_solver_midpoint_stetter(); }
	if(t == "rk4") { return new nbody_solver_rk4(); }
	if(t == "trapeze") { nbody_solver_trapeze* x = new nbody_solver_trapeze(); x->set_refine_steps_count(s.has_ref ? s.ref : 1); return x; }
	if(t == "bs") { return new nbody_solver_bulirsch_stoer(s.has_lev ? s.lev : 8, s.has_thr ? s.thr : 1e-11); }
	if(t == "rkck") { return butcher<nbody_solver_rkck>(s); }
	if(t == "rkdp") { return butcher<nbody_solver_rkdp>(s); }
	if(t == "rkdverk") { return butcher<nbody_solver_rkdverk>(s); }
	if(t == "rkf") { return butcher<nbody_solver_rkf>(s); }
	if(t == "rkfeagin10") { return butcher<nbody_solver_rkfeagin10>(s); }
	if(t == "rkfeagin12") { return butcher<nbody_solver_rkfeagin12>(s); }
	if(t == "rkfeagin14") { return butcher<nbody_solver_rkfeagin14>(s); }
	if(t == "rkgl") { return butcher<nbody_solver_rkgl>(s); }
	if(t == "rklc") { return butcher<nbody_solver_rklc>(s); }
	nbody_solver* st = by_hand(starter, s, "", mn, mx);
	st->set_time_step(mn, mx);
	return new nbody_solver_adams(st, s.has_rank ? s.rank : 1, s.has_corr && s.corr);
}
//! Cuts off runs whose settings ask for a huge number of evaluations
struct budget_over {};
class budget_engine : public nbody_engine_simple
{
	size_t	m_left;
public:
	budget_engine() : m_left(100000) {}
	void fcompute(const nbcoord_t& t, const memory* y, memory* f) override
	{
		if(m_left-- == 0) { throw budget_over(); }
		nbody_engine_simple::fcompute(t, y, f);
	}
	void fmadd_inplace(memory* a, const memory* b, const nbcoord_t& x) override
	{
		if(m_left-- == 0) { throw budget_over(); }
		nbody_engine_simple::fmadd_inplace(a, b, x);
	}
	void fmadd(memory* a, const memory* b, const memory* y, const nbcoord_t& x) override
	{
		if(m_left-- == 0) { throw budget_over(); }
		nbody_engine_simple::fmadd(a, b, y, x);
	}
};
static std::vector<double> trajectory(nbody_solver* s, const bodies& b, double tmax)
{
	nbody_data d;
	b.fill(d);
	d.set_box_size(2);
	budget_engine e;
	e.init(&d);
	s->set_engine(&e);
	try { s->run(&d, nullptr, tmax, 0, 0); } catch(const budget_over&) {}
	std::vector<double> v(e.problem_size());
	e.read_buffer(v.data(), e.get_y());
	v.push_back(d.get_time());
	v.push_back(double(e.get_compute_count()));
	delete s;
	return v;
}
static const char* bad_numbers[] = {"abc", "", "1x", "--1", "1 2", "0x", "one", "1,5", "nan", "inf", "-inf", "1e999"};
static const char* bad_counts[] = {"abc", "", "1x", "-1", "1.5", "1e3", "99999999999999999999", "0x10", "nan", "one"};
static const char* bad_bools[] = {"no", "yes", "maybe", "on", "off", "", "2", "tru", "-1"};

static void solvers(context& c, rng& r)
{
	sol s;
	std::string starter;
	size_t i = r.below(nkinds + 3);
	s.type = i < nkinds ? kinds[i].name : "adams";
	s.has_thr = r.chance(0.6); s.has_rec = r.chance(0.6); s.has_sub = r.chance(0.6); s.has_ref = r.chance(0.6); s.has_corr = r.chance(0.6); s.has_lev = r.chance(0.6); s.has_rank = r.chance(0.7);
	s.thr = r.logu(1e-12, 1e-2); s.rec = r.below(4); s.sub = r.range(1, 6); s.ref = s.type == "trapeze" && r.chance(0.3) ? r.below(40) : r.below(4); s.lev = r.range(1, 6); s.rank = r.range(1, 5); s.corr = r.chance(0.5);
	QVariantMap p;
	p["solver"] = QString::fromStdString(s.type);
	if(s.has_thr) { p["error_threshold"] = val(r, s.thr); }
	if(s.has_rec) { p["max_recursion"] = val(r, s.rec); }
	if(s.has_sub) { p["substep_subdivisions"] = val(r, s.sub); }
	if(s.has_ref) { p["refine_steps_count"] = val(r, s.ref); }
	if(s.has_corr) { p["correction"] = val(r, s.corr); }
	if(s.has_lev) { p["max_level"] = val(r, s.lev); }
	if(s.has_rank) { p["rank"] = val(r, s.rank); }
	starter = "euler";
	if(s.type == "adams" && r.chance(0.7)) { starter = kinds[r.below(nkinds)].name; p["starter_solver"] = QString::fromStdString(starter); }
	double mn = 1e-9, mx = 1e-2;
	bool clamp = false;
	if(r.chance(0.6)) { mn = r.logu(1e-12, 1e-6); p["min_step"] = val(r, mn); }
	if(r.chance(0.6)) { mx = r.logu(1e-4, 1e-1); p["max_step"] = val(r, mx); }
	if(r.chance(0.05)) { mn = mx * r.uni(1, 3); p["min_step"] = val(r, mn); }
	if(r.chance(0.6)) { clamp = r.chance(0.5); p["clamp"] = val(r, clamp); }
	if(r.chance(0.3)) { p["engine"] = "simple"; p["unrelated"] = "x"; }
	c.set_desc("solver " + show(p));
	std::unique_ptr<nbody_solver> f(nbody_create_solver(p)), h(by_hand(s.type, s, starter, mn, mx)), f2(nbody_create_solver(p)), h2(by_hand(s.type, s, starter, mn, mx));
	if(!f || !f2) { c.violation("solver-rejected", "valid parameters were rejected"); return; }
	h->set_time_step(mn, mx); h2->set_time_step(mn, mx);
	h->set_clamp_to_box(clamp); h2->set_clamp_to_box(clamp);
	c.check(std::string(f->type_name()) == h->type_name(), "solver-kind", fmt("%s instead of %s", f->type_name(), h->type_name()));
	c.check(f->get_min_step() == mn && f->get_max_step() == mx, "solver-step", fmt("steps %.17g %.17g instead of %.17g %.17g", f->get_min_step(), f->get_max_step(), mn, mx));
	c.check(info(f.get()) == info(h.get()), "solver-settings", "settings are " + info(f.get()) + " instead of " + info(h.get()));
	bodies b = make_bodies(r, r.range(2, 4), 0);
	for(size_t k = 0; k < b.size(); ++k) { b.x[k] *= 0.3; b.y[k] *= 0.3; b.z[k] *= 0.3; b.vx[k] *= 5; }
	std::vector<double> a = trajectory(f2.release(), b, 3.5 * mx), z = trajectory(h2.release(), b, 3.5 * mx);
	c.check(memcmp(a.data(), z.data(), a.size() * sizeof(double)) == 0, "solver-behaviour", fmt("trajectory differs from the solver configured by hand (%g and %g evaluations)", a.back(), z.back()));
	c.ev("solvers created");
	c.seen("S " + show(p));
	// one invalid parameter
	QVariantMap q(p);
	std::vector<std::string> bad;
	auto num = [&](const char* k) { q[k] = bad_numbers[r.below(12)]; };
	auto cnt = [&](const char* k) { q[k] = bad_counts[r.below(10)]; };
	bool rk = s.type.substr(0, 2) == "rk" && s.type != "rk4";
	switch(r.below(8))
	{
	case 0: q["solver"] = r.chance(0.5) ? "" : "rk5"; break;
	case 1: num("max_step"); break;
	case 2: q["max_step"] = r.chance(0.5) ? "0" : "-0.01"; break;
	case 3: num("min_step"); break;
	case 4: q["clamp"] = bad_bools[r.below(9)]; break;
	case 5:
		if(rk) { const char* k[] = {"max_recursion", "substep_subdivisions", "refine_steps_count"}; cnt(k[r.below(3)]); }
		else if(s.type == "bs") { cnt("max_level"); }
		else if(s.type == "adams") { cnt("rank"); }
		else if(s.type == "trapeze") { cnt("refine_steps_count"); }
		else { q["solver"] = "Euler"; }
		break;
	case 6:
		if(rk || s.type == "bs") { num("error_threshold"); }
		else if(s.type == "adams") { q["rank"] = r.chance(0.5) ? "0" : "6"; }
		else { q.remove("solver"); }
		break;
	default:
		if(s.type == "adams") { if(r.chance(0.5)) { q["starter_solver"] = r.chance(0.5) ? "nosuch" : "adams "; } else { q["correction"] = bad_bools[r.below(9)]; } }
		else if(rk) { if(r.chance(0.5)) { q["correction"] = bad_bools[r.below(9)]; } else { q["substep_subdivisions"] = "0"; } }
		else if(s.type == "bs") { q["max_level"] = "0"; }
		else { q["solver"] = "eulers"; }
		break;
	}
	c.set_desc("invalid solver " + show(q));
	std::unique_ptr<nbody_solver> n(nbody_create_solver(q));
	c.check(!n, "solver-accepted", "invalid parameters were accepted");
	c.ev("invalid solver parameters");
	c.seen("s " + show(q));
}

static void engines(context& c, rng& r)
{
	static const char* names[] = {"simple", "openmp", "block", "ah", "simple_bh", "simple_bh", "simple_bh"};
	std::string t = names[r.below(7)];
	QVariantMap p;
	p["engine"] = QString::fromStdString(t);
	std::unique_ptr<nbody_engine> h;
	if(t == "simple") { h.reset(new nbody_engine_simple()); }
	else if(t == "openmp") { h.reset(new nbody_engine_openmp()); }
	else if(t == "block") { h.reset(new nbody_engine_block()); }
	else if(t == "ah")
	{
		size_t rate = 1000; double dist = 10, force = 1e-4;
		if(r.chance(0.6)) { rate = r.chance(0.7) ? r.range(1, 5) : r.range(1, 3000); p["full_recompute_rate"] = val(r, rate); }
		if(r.chance(0.6)) { dist = r.logu(0.1, 30); p["max_dist"] = val(r, dist); }
		if(r.chance(0.6)) { force = r.logu(1e-6, 1); p["min_force"] = val(r, force); }
		h.reset(new nbody_engine_ah(rate, dist, force));
	}
	else
	{
		size_t rate = 0, lay = 0; double ratio = 10; e_traverse_type tt = ett_cycle;
		static const char* lays[] = {"tree", "heap", "heap_stackless"};
		if(r.chance(0.6)) { rate = r.below(5); p["tree_build_rate"] = val(r, rate); }
		if(r.chance(0.6)) { ratio = r.logu(1.05, 12); p["distance_to_node_radius_ratio"] = val(r, ratio); }
		if(r.chance(0.7)) { lay = r.below(3); p["tree_layout"] = lays[lay]; }
		if(r.chance(0.6)) { tt = r.chance(0.5) ? ett_cycle : ett_nested_tree; p["traverse_type"] = tt == ett_cycle ? "cycle" : "nested_tree"; }
		if(lay == 0) { h.reset(new nbody_engine_simple_bh_tree(ratio, tt, rate)); }
		else if(lay == 1) { h.reset(new nbody_engine_simple_bh_heap(ratio, tt, rate)); }
		else { h.reset(new nbody_engine_simple_bh_heap_stackless(ratio, tt, rate)); }
	}
	if(r.chance(0.3)) { p["solver"] = "euler"; p["stars_count"] = "7"; }
	c.set_desc("engine " + show(p));
	std::unique_ptr<nbody_engine> f(nbody_create_engine(p));
	if(!f) { c.violation("engine-rejected", "valid parameters were rejected"); return; }
	c.check(std::string(f->type_name()) == h->type_name(), "engine-kind", fmt("%s instead of %s", f->type_name(), h->type_name()));
	c.check(info(f.get()) == info(h.get()), "engine-settings", "settings are " + info(f.get()) + " instead of " + info(h.get()));
	bodies b = make_bodies(r, r.range(1, 60));
	nbody_data d1, d2;
	b.fill(d1); b.fill(d2);
	if(!f->init(&d1) || !h->init(&d2)) { c.violation("engine-init", "initialisation failed"); return; }
	size_t len = f->problem_size(), s0 = r.chance(0.5) ? r.below(10) : (r.chance(0.5) ? 100 * r.range(1, 30) - r.below(4) : r.below(3000));
	f->set_step(s0); h->set_step(s0);
	nbody_engine::memory *m1 = f->create_buffer(len * sizeof(nbcoord_t)), *m2 = h->create_buffer(len * sizeof(nbcoord_t));
	for(size_t k = 0; k < 4; ++k)
	{
		f->fcompute(0, f->get_y(), m1);
		h->fcompute(0, h->get_y(), m2);
		std::vector<double> a(len), z(len);
		f->read_buffer(a.data(), m1); h->read_buffer(z.data(), m2);
		c.check(memcmp(a.data(), z.data(), len * sizeof(double)) == 0, "engine-behaviour", fmt("evaluation %zu differs from the engine configured by hand", k));
		std::vector<double> y(len);
		f->read_buffer(y.data(), f->get_y());
		for(double& v : y) { v += r.uni(-0.5, 0.5); }
		f->write_buffer(f->get_y(), y.data()); h->write_buffer(h->get_y(), y.data());
		f->advise_time(0.1); h->advise_time(0.1);
	}
	f->free_buffer(m1); h->free_buffer(m2);
	c.ev("engines created");
	c.seen("E " + show(p));
	QVariantMap q(p);
	switch(t == "ah" || t == "simple_bh" ? r.below(5) : 4)
	{
	case 0: if(t == "ah") { q["full_recompute_rate"] = bad_counts[r.below(10)]; } else { q["tree_build_rate"] = bad_counts[r.below(10)]; } break;
	case 1: if(t == "ah") { q["max_dist"] = bad_numbers[r.below(12)]; } else { q["distance_to_node_radius_ratio"] = bad_numbers[r.below(12)]; } break;
	case 2: if(t == "ah") { q["min_force"] = bad_numbers[r.below(12)]; } else { q["tree_layout"] = r.chance(0.5) ? "" : "Heap"; } break;
	case 3: if(t == "ah") { q["max_dist"] = bad_numbers[r.below(12)]; } else { q["traverse_type"] = r.chance(0.5) ? "" : "nested"; } break;
	default:
	{
		static const char* unknown[] = {"", "Simple", "simple ", "open_mp", "bh", "cuda_", "simple_bh_tree", "opencl_"};
		if(r.chance(0.2)) { q.remove("engine"); } else { q["engine"] = unknown[r.below(8)]; }
	}
	}
	c.set_desc("invalid engine " + show(q));
	std::unique_ptr<nbody_engine> n(nbody_create_engine(q));
	c.check(!n, "engine-accepted", "invalid parameters were accepted");
	c.ev("invalid engine parameters");
	c.seen("e " + show(q));
}

static void arguments(context& c, rng& r)
{
	std::vector<std::string> args(1, "program");
	std::map<std::string, std::string> want;
	static const char* keys[] = {"engine", "solver", "output", "a", "max_step", "initial_state", "k-1", "x.y"};
	for(size_t n = r.below(8); n--;)
	{
		std::string k = keys[r.below(8)], v;
		for(size_t l = r.below(8); l--;) { v += "abz019./-_= ,:"[r.below(14)]; }
		switch(r.below(8))
		{
		case 0: args.push_back("--" + k); break;				// no value: ignored
		case 1: args.push_back(k + "=" + v); break;				// no prefix: ignored
		case 2: args.push_back("-" + k + "=" + v); break;
		case 3: args.push_back(""); break;
		default: args.push_back("--" + k + "=" + v); want[k] = v; break;
		}
	}
	std::vector<char*> argv;
	std::string text;
	for(auto& a : args) { argv.push_back(&a[0]); text += " '" + a + "'"; }
	argv.push_back(nullptr);
	c.set_desc("arguments" + text);
	QVariantMap m(nbody_parse_arguments(int(args.size()), argv.data()));
	std::map<std::string, std::string> got;
	for(auto i = m.begin(); i != m.end(); ++i) { got[i.key().toStdString()] = i.value().toString().toStdString(); }
	c.check(got == want, "arguments", "parsed as " + show(m));
	c.ev("command lines parsed");
	c.seen("A" + text);
}

static void extrapolators(context& c, rng& r)
{
	nbody_data d;
	nbody_engine_simple e;
	d.make_universe(1, 10, 10, 10);
	e.init(&d);
	static const std::vector<std::string> odd = {"", "Neville", "berrut ", "nevill", "aitken", "berrutneville"};
	std::vector<size_t> sub;
	for(size_t i = 0, n = r.range(1, 8), x = 0; i < n; ++i) { x += r.range(1, 9); sub.push_back(x); }
	bool known = r.chance(0.7);
	std::string type = known ? (r.chance(0.5) ? "berrut" : "neville") : r.pick(odd);
	std::unique_ptr<nbody_extrapolator> x(nbody_create_extrapolator(QString::fromStdString(type), &e, r.range(1, 4), sub));
	c.ev("extrapolators_created");
	c.seen(fmt("extrapolator %s %zu", type.c_str(), sub.size()));
	if(!known)
	{
		if(x) { c.violation("extrapolator", fmt("factory created an extrapolator for the unknown name '%s'", type.c_str())); }
		return;
	}
	if(!x) { c.violation("extrapolator", "factory created no extrapolator named " + type); return; }
	if((dynamic_cast<nbody_extrapolator_berrut*>(x.get()) != nullptr) != (type == "berrut")
	   || (dynamic_cast<nbody_extrapolator_neville*>(x.get()) != nullptr) != (type == "neville"))
	{
		c.violation("extrapolator", "factory created another kind of extrapolator than " + type);
	}
	if(x->engine() != &e) { c.violation("extrapolator", "extrapolator uses another engine than given"); }
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	unsetenv("QT_LOGGING_RULES");
	qInstallMessageHandler(handler);
	rng r(1);
	for(size_t k = 0; k < c.n(3000, 60000); ++k)
	{
		if(!c.begin("configuration", r)) { continue; }
		g_text.clear();
		switch(k % 10 == 9 ? 3 : k % 3)
		{
		case 0: solvers(c, r); break;
		case 1: engines(c, r); break;
		case 2: arguments(c, r); break;
		default: extrapolators(c, r); break;
		}
		c.sample("done");
	}
	return c.done();
}
