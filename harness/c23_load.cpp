// C23: saved and hand-written initial states, well-formed and malformed.
#include "stream.h"
#include <limits>
using namespace nb;

struct body { double v[7]; double radius; };
static std::string num(double x, rng& r)
{
	switch(r.below(4))
	{
	case 0: return fmt("%.17g", x);
	case 1: return fmt("%+.16e", x);
	case 2: return fmt("%.20g", x);
	default: return fmt("%.16E", x);
	}
}
static double coord(rng& r)
{
	switch(r.below(6))
	{
	case 0: return 0;
	case 1: return r.uni(-1, 1);
	case 2: return double(int64_t(r.range(0, 2000)) - 1000);
	case 3: return (r.chance(0.5) ? -1 : 1) * std::pow(10.0, r.uni(-280, 280));
	default: return (r.chance(0.5) ? -1 : 1) * r.logu(1e-12, 1e13);
	}
}
static std::vector<body> make(rng& r, size_t n)
{
	std::vector<body> v(n);
	for(auto& b : v) { for(double& x : b.v) { x = coord(r); } if(r.chance(0.9)) { b.v[6] = std::fabs(b.v[6]); } b.radius = r.chance(0.5) ? 0 : r.logu(1e-6, 1e6); }
	return v;
}
static std::string compare(const nbody_data& d, const std::vector<body>& v, double factor, double tol)
{
	if(d.get_count() != v.size()) { return fmt("%zu bodies instead of %zu", d.get_count(), v.size()); }
	for(size_t i = 0; i < v.size(); ++i)
	{
		const nbvertex_t& p = d.get_vertites()[i];
		const nbvertex_t& u = d.get_velosites()[i];
		double got[7] = {p.x, p.y, p.z, u.x, u.y, u.z, d.get_mass()[i]};
		for(int k = 0; k < 7; ++k)
		{
			double want = k == 6 ? v[i].v[k] * factor : v[i].v[k];
			if(!(std::fabs(got[k] - want) <= tol * std::fabs(want))) { return fmt("body %zu value %d is %.17g instead of %.17g", i, k, got[k], want); }
		}
	}
	return "";
}
//! radii have no accessor: they are taken from the last column of a saved copy
static std::string radii(const nbody_data& d, const std::vector<body>& v, bool given, const std::string& copy)
{
	if(!d.save(QString::fromStdString(copy))) { return "the loaded data set can not be saved"; }
	std::ifstream f(copy.c_str());
	std::string l;
	for(size_t i = 0; i < v.size(); ++i)
	{
		if(!std::getline(f, l)) { return "the saved copy is too short"; }
		std::vector<std::string> w;
		std::stringstream s(l);
		std::string x;
		while(s >> x) { w.push_back(x); }
		double want = given ? v[i].radius : 0, got = w.size() == 8 ? strtod(w[7].c_str(), nullptr) : NAN;
		if(!(std::fabs(got - want) <= 1e-14 * want)) { return fmt("radius of body %zu is %.17g instead of %.17g", i, got, want); }
	}
	return "";
}
static std::string table(const std::vector<body>& v, rng& r, bool radius)
{
	std::string t;
	for(auto& b : v)
	{
		if(r.chance(0.1)) { t += "// comment 1 2 3\n"; }
		if(r.chance(0.1)) { t += r.chance(0.5) ? "\n" : "   \n"; }
		if(r.chance(0.2)) { t += "  "; }
		for(int k = 0; k < 7; ++k) { t += num(b.v[k], r) + (r.chance(0.2) ? "   " : " "); }
		if(radius) { t += num(b.radius, r); if(r.chance(0.2)) { t += " some other data"; } }
		if(r.chance(0.2)) { t += r.chance(0.5) ? " // tail 1 2 3" : "//x"; }
		t += r.chance(0.1) ? "\r\n" : "\n";
	}
	if(r.chance(0.2) && !t.empty() && t[t.size() - 1] == '\n') { t.resize(t.size() - 1); }	// no line end after the last line
	return t;
}
static std::string zeno(const std::vector<body>& v, rng& r)
{
	std::string t = fmt("%zu\n3\n%s\n", v.size(), num(r.uni(0, 10), r).c_str());
	for(auto& b : v) { t += (r.chance(0.2) ? "  " : "") + num(b.v[6], r) + "\n"; }
	for(int o = 0; o < 6; o += 3) { for(auto& b : v) { t += (r.chance(0.2) ? "  " : "") + num(b.v[o], r) + " " + num(b.v[o + 1], r) + "  " + num(b.v[o + 2], r) + "\n"; } }
	return t;
}
static std::vector<std::string> split(const std::string& t)
{
	std::vector<std::string> v;
	std::stringstream s(t);
	std::string l;
	while(std::getline(s, l)) { v.push_back(l); }
	return v;
}
static std::string join(const std::vector<std::string>& v)
{
	std::string t;
	for(auto& l : v) { t += l + "\n"; }
	return t;
}
static std::vector<std::string> words(const std::string& l)
{
	std::vector<std::string> v;
	std::stringstream s(l);
	std::string w;
	while(s >> w) { v.push_back(w); }
	return v;
}
static std::string sentence(const std::vector<std::string>& v)
{
	std::string t;
	for(auto& w : v) { t += (t.empty() ? "" : " ") + w; }
	return t;
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	static const double SI = 6.67259e-11, ADK = 6.67259e-11 * 86400. * 86400. / (149597870700. * 149597870700. * 149597870700.);
	static const std::vector<std::string> junk = {"abc", "1.2.3", "--1", "0x1F", "1e", "e5", "1e5e5", "1.0f", "+-3", "one", "1;5", "*", "1_000", "3 .5x"};
	struct unit { const char* name; double factor; e_units_type t; };
	static const unit units[] = {{"G1", 1, eut_G1}, {"SI", SI, eut_SI}, {"ADK", ADK, eut_au_day_kg}};
	for(size_t k = 0; k < c.n(20000, 300000); ++k)
	{
		if(!c.begin("file", r)) { continue; }
		std::string dir = fresh_dir(c.scratch), fn = dir + "/state.txt";
		QString qfn = QString::fromStdString(fn);
		size_t n = r.chance(0.05) ? r.range(100, 400) : r.range(1, 9);
		auto v = make(r, n);
		int kind = static_cast<int>(r.below(6));
		// a data set that is already in use
		nbody_data d;
		size_t old = r.chance(0.5) ? r.range(1, 6) : 0;
		auto ov = make(r, old);
		auto fill = [](nbody_data& x, const std::vector<body>& w) { for(auto& b : w) { x.add_body(nbvertex_t(b.v[0], b.v[1], b.v[2]), nbvertex_t(b.v[3], b.v[4], b.v[5]), b.v[6], nbcolor_t(0.5f, 0.5f, 0.5f, 1), b.radius); } };
		fill(d, ov);
		if(kind == 0)
		{
			c.set_desc(fmt("save and load %zu bodies", n));
			nbody_data s;
			fill(s, v);
			bool ok = c.check(s.save(qfn), "save", "save failed");
			ok = ok && c.check(d.load(qfn), "reload", "a saved data set is rejected");
			if(ok)
			{
				std::string e = compare(d, v, 1, 1e-15);
				c.check(e.empty(), "round-trip", e);
				c.check(compare(s, v, 1, 0).empty(), "save-changes", "saving changes the data set");
				double big = 0;
				for(auto& b : v) { for(double x : b.v) { big = std::max(big, std::fabs(x)); } big = std::max(big, b.radius); }
				c.check(d.is_equal(s, 1e-15 * big), "radius", "a reloaded data set differs in the radius");
				if(r.chance(0.5)) { const unit& u = units[r.below(3)]; nbody_data x; c.check(x.load(qfn, u.t), "reload-units", "rejected"); e = compare(x, v, u.factor, 3e-15); c.check(e.empty(), "units", std::string(u.name) + ": " + e); }
			}
			c.ev("round trips");
		}
		else if(kind <= 2)
		{
			bool z = r.chance(0.4), rad = !z && r.chance(0.6);
			const unit& u = units[z ? 0 : r.below(3)];
			spit(fn, z ? zeno(v, r) : table(v, r, rad));
			c.set_desc(fmt("well-formed %s file of %zu bodies", z ? "Zeno" : u.name, n));
			QString ty = z ? "Zeno" : u.name;
			if(r.chance(0.3)) { ty = r.chance(0.5) ? ty.toLower() : ty.toUpper(); }
			bool direct = r.chance(0.4);
			bool ok = direct ? (z ? d.load_zeno_ascii(qfn) : d.load(qfn, u.t)) : d.load_initial(qfn, ty);
			if(c.check(ok, std::string("rejected-good-") + (z ? "zeno" : "table"), "a well-formed file is rejected"))
			{
				std::string e = compare(d, v, z ? 1 : u.factor, 3e-15);
				c.check(e.empty(), std::string("values-") + (z ? "zeno" : u.name), e);
				e = radii(d, v, rad, dir + "/copy.txt");
				c.check(e.empty(), "radius-column", e);
				if(!direct)
				{
					double big = 1;
					for(auto& b : v) { for(int q = 0; q < 3; ++q) { big = std::max(big, b.v[q]); } }
					// values parsed from up to 20 digits: the whole part may differ only where the value is next to a whole number
					double lo = std::max(1.0, std::floor(big * (1 - 3e-15))), hi = std::floor(big * (1 + 3e-15)), box = double(d.get_box_size());
					c.check(big < 1.8e19 ? box >= lo && box <= hi : box >= 1.8e19 * (1 - 1e-15), "box", fmt("box %zu for a largest coordinate of %.17g", d.get_box_size(), big));
				}
				c.check(d.get_time() == 0 && d.get_step() == 0, "clock", "a loaded initial state does not start at time zero");
			}
			c.check(nbody_data::get_mass_factor(u.t) == u.factor || std::fabs(nbody_data::get_mass_factor(u.t) / u.factor - 1) < 1e-14, "factor", "mass factor");
			c.ev("well-formed files");
		}
		else
		{
			bool z = r.chance(0.5);
			std::vector<std::string> l = split(z ? zeno(v, r) : table(v, r, false));
			std::string what;
			if(!z)
			{
				// lines that hold a body
				std::vector<size_t> body_lines;
				for(size_t i = 0; i < l.size(); ++i) { std::string t = l[i].substr(0, l[i].find("//")); if(words(t).size() >= 7) { l[i] = t; body_lines.push_back(i); } }
				size_t at = body_lines[r.chance(0.4) ? body_lines.size() - 1 : r.below(body_lines.size())];
				auto w = words(l[at]);
				w.resize(7);
				switch(r.below(3))
				{
				case 0: w.resize(r.range(1, 6)); what = fmt("line %zu has %zu columns", at, w.size()); break;
				case 1: { size_t q = r.below(7); w[q] = r.pick(junk); what = fmt("line %zu column %zu is '%s'", at, q, w[q].c_str()); break; }
				default: w.push_back(r.pick(junk)); what = fmt("line %zu has radius '%s'", at, w[7].c_str());
				}
				l[at] = sentence(w);
				if(w.size() > 7 && w[7] == "3 .5x") { w[7] = "x3"; l[at] = sentence(w); }	// would be a valid radius and other data
				if(w.size() == 7) { bool one = false; for(auto& x : w) { one = one || x == "3 .5x"; } if(one) { for(auto& x : w) { if(x == "3 .5x") { x = "3.5x"; } } l[at] = sentence(w); } }
			}
			else
			{
				switch(r.below(7))
				{
				case 0: { size_t keep = r.below(l.size()); l.resize(keep); what = fmt("only %zu lines of %zu", keep, 3 + 3 * n); break; }
				case 1: l[0] = fmt("%zu", n + r.range(1, 5)); what = "count too large"; break;
				case 2: l[0] = r.chance(0.5) ? "18446744073709551615" : (r.chance(0.5) ? "1000000000000" : "99999999999999999"); what = "count " + l[0]; break;
				case 3: l[1] = fmt("%zu", r.chance(0.5) ? size_t(2) : r.range(4, 9)); what = "dimension " + l[1]; break;
				case 4: { size_t q = r.below(2); l[q] = r.pick(junk); what = fmt("header line %zu is '%s'", q, l[q].c_str()); break; }
				case 5:
				{
					size_t at = 3 + r.below(3 * n);
					auto w = words(l[at]);
					size_t q = r.below(w.size());
					w[q] = r.pick(junk);
					if(w[q] == "3 .5x") { w[q] = "3.5x"; }
					l[at] = sentence(w);
					what = fmt("line %zu field %zu is '%s'", at, q, w[q].c_str());
					break;
				}
				default:
				{
					size_t at = 3 + n + r.below(2 * n);
					auto w = words(l[at]);
					if(r.chance(0.5)) { w.resize(r.range(1, 2)); }
					else { w.push_back("1"); }
					l[at] = sentence(w);
					what = fmt("line %zu has %zu fields", at, w.size());
				}
				}
			}
			spit(fn, join(l));
			c.set_desc(fmt("malformed %s file of %zu bodies: ", z ? "Zeno" : "table", n) + what);
			const unit& u = units[r.below(3)];
			bool ok = r.chance(0.5) ? (z ? d.load_zeno_ascii(qfn) : d.load(qfn, u.t)) : d.load_initial(qfn, z ? "Zeno" : u.name);
			c.check(!ok, std::string("accepted-bad-") + (z ? "zeno" : "table"), "accepted although " + what);
			if(!ok) { c.check(d.get_count() == 0 || compare(d, ov, 1, 0).empty(), "partial", fmt("%zu of %zu bodies are left in the data set after the rejection", d.get_count(), n)); }
			c.ev("malformed files");
		}
		c.seen(c.desc);
		c.sample(fmt("%zu bodies", d.get_count()));
		if(r.chance(0.05)) { nbody_data x; c.check(!x.load_initial(qfn, "XYZ") && !x.load(QString::fromStdString(dir + "/no")) && !x.load_zeno_ascii(QString::fromStdString(dir)) && !x.load_initial(QString::fromStdString(dir + "/no"), "G1"), "missing", "a missing file or unknown type is accepted"); }
		wipe(dir);
	}
	return c.done();
}
