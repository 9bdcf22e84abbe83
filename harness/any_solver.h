// Random solver configurations
#ifndef ANY_SOLVER_H
#define ANY_SOLVER_H
#include "solvers.h"
namespace nb {
//! Random parameters for any solver, adams included; text describes them
inline QVariantMap any_solver(rng& r, std::string& text, bool fast = false)
{
	std::map<QString, QVariant> m;
	size_t i = r.below(nkinds + 4);
	std::string name;
	size_t sub = r.range(2, 4), rec = r.range(0, 2), ref = r.range(0, 3), lev = r.range(1, 5);
	bool corr = r.chance(0.5);
	double thr = r.chance(0.3) ? 0 : r.logu(1e-9, 1e-2);
	if(i < nkinds) { name = kinds[i].name; }
	else { name = "adams"; }
	m["solver"] = QString(name.c_str());
	if(name == "adams")
	{
		std::string st = r.chance(0.1) ? "adams" : kinds[r.below(nkinds)].name;
		size_t rank = r.range(1, 5);
		m["starter_solver"] = QString(st.c_str());
		m["rank"] = static_cast<uint>(rank);
		name += fmt(" rank=%zu starter=%s", rank, st.c_str());
	}
	m["max_recursion"] = static_cast<uint>(fast ? 0 : rec);
	m["substep_subdivisions"] = static_cast<uint>(sub);
	m["refine_steps_count"] = static_cast<uint>(ref);
	m["max_level"] = static_cast<uint>(lev);
	m["correction"] = corr;
	m["error_threshold"] = thr;
	text = name + fmt(" rec=%zu sub=%zu ref=%zu lev=%zu corr=%d thr=%.3g", rec, sub, ref, lev, corr, thr);
	return QVariantMap(m);
}
} // namespace nb
#endif
