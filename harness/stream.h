// Recorded streams: frames to write, an independent parser of the files, and comparison helpers.
#ifndef STREAM_H
#define STREAM_H
#include "nb.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include <fstream>
#include <sstream>
#include <dirent.h>
#include <sys/stat.h>

namespace nb {

struct frame
{
	double time;
	size_t step, box;
	std::vector<nbvertex_t> pos, vel;
	std::vector<nbcoord_t> mass;
	std::vector<nbcolor_t> col;
	size_t size() const { return pos.size(); }
	void to(nbody_data& d) const
	{
		d.resize(size());
		std::copy(pos.begin(), pos.end(), d.get_vertites());
		std::copy(vel.begin(), vel.end(), d.get_velosites());
		std::copy(mass.begin(), mass.end(), d.get_mass());
		std::copy(col.begin(), col.end(), d.get_color());
		d.set_time(time);
		d.set_step(step);
		d.set_box_size(box);
	}
	std::string raw() const	// as stored in a data part
	{
		std::string s(reinterpret_cast<const char*>(pos.data()), pos.size() * sizeof(nbvertex_t));
		s.append(reinterpret_cast<const char*>(vel.data()), vel.size() * sizeof(nbvertex_t));
		return s;
	}
	std::string masses() const { return std::string(reinterpret_cast<const char*>(mass.data()), mass.size() * sizeof(nbcoord_t)); }
	std::string colours() const { return std::string(reinterpret_cast<const char*>(col.data()), col.size() * sizeof(nbcolor_t)); }
};

inline double any_double(rng& r)
{
	switch(r.below(12))
	{
	case 0: return 0.0;
	case 1: return -0.0;
	case 2: return 4.9e-324;
	case 3: return -1.7976931348623157e308;
	case 4: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); return d; }	// any bits, NaN included
	case 5: return INFINITY;
	default: return r.uni(-100, 100);
	}
}

//! A sequence of frames of one data set (same bodies, masses, colours and box)
inline std::vector<frame> make_frames(rng& r, size_t n, size_t count)
{
	std::vector<frame> v;
	frame f;
	f.box = r.chance(0.1) ? 0 : (r.chance(0.3) ? (r.chance(0.8) ? r.below(1000000000) : r.next() >> r.below(34)) : r.range(1, 1000));
	for(size_t i = 0; i < n; ++i)
	{
		f.mass.push_back(any_double(r));
		f.col.push_back(nbcolor_t(float(r.uni()), float(r.uni()), float(r.uni(-1, 2)), float(r.uni())));
	}
	static const int edges[] = {16, 31, 32, 53, 63};
	f.step = r.chance(0.5) ? 0 : (r.chance(0.7) ? r.below(100000) : (size_t(1) << edges[r.below(5)]) - r.range(1, 60));
	f.time = r.chance(0.5) ? 0 : (r.chance(0.5) ? r.uni(0, 1e5) : r.logu(1e-12, 1e12));
	double dt = r.chance(0.5) ? 0.01 : r.logu(1e-7, 10);
	for(size_t k = 0; k < count; ++k)
	{
		f.pos.clear(); f.vel.clear();
		for(size_t i = 0; i < n; ++i)
		{
			f.pos.push_back(nbvertex_t(any_double(r), any_double(r), any_double(r)));
			f.vel.push_back(nbvertex_t(any_double(r), any_double(r), any_double(r)));
		}
		v.push_back(f);
		size_t ds = r.chance(0.6) ? 1 : r.range(1, 50);
		f.step += ds;
		f.time += dt * double(ds);
	}
	return v;
}

inline bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
inline bool is_file(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode); }
inline std::string slurp(const std::string& p)
{
	std::ifstream f(p.c_str(), std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}
inline void spit(const std::string& p, const std::string& t)
{
	std::ofstream f(p.c_str(), std::ios::binary);
	f << t;
}
inline std::vector<std::string> listing(const std::string& dir)
{
	std::vector<std::string> v;
	DIR* d = opendir(dir.c_str());
	if(!d) { return v; }
	while(dirent* e = readdir(d)) { if(e->d_name[0] != '.') { v.push_back(e->d_name); } }
	closedir(d);
	std::sort(v.begin(), v.end());
	return v;
}
inline void wipe(const std::string& dir)	// only files of a scratch directory made by the harness
{
	for(auto& f : listing(dir))
	{
		std::string p = dir + "/" + f;
		struct stat s;
		if(lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { wipe(p); }
		else { unlink(p.c_str()); }
	}
	rmdir(dir.c_str());
}
inline std::string fresh_dir(const std::string& base)
{
	static unsigned long n = 0;
	std::string d = base + fmt("/s%d_%lu", int(getpid()), ++n);
	mkdir(d.c_str(), 0700);
	return d;
}

struct idx_line { size_t step; double time; std::string time_text; long part; long long off; };
//! The files of a stream as an outsider sees them
struct raw_stream
{
	std::map<std::string, std::string> head;
	std::vector<std::string> head_order;
	std::vector<idx_line> lines;
	std::string error;
	bool torn = false;	// unterminated last line
	raw_stream(const std::string& base)
	{
		std::string t = slurp(base + ".idx");
		size_t p = 0;
		while(p < t.size())
		{
			size_t q = t.find('\n', p);
			if(q == std::string::npos) { torn = true; break; }
			std::string l = t.substr(p, q - p);
			p = q + 1;
			if(!l.empty() && l[0] == '#')
			{
				size_t b = l.find(' ');
				if(b == std::string::npos) { error = "header line '" + l + "'"; continue; }
				head[l.substr(1, b - 1)] = l.substr(b + 1);
				head_order.push_back(l.substr(1, b - 1));
				continue;
			}
			std::vector<std::string> f;
			size_t a = 0;
			for(;;)
			{
				size_t e = l.find('\t', a);
				f.push_back(l.substr(a, e == std::string::npos ? e : e - a));
				if(e == std::string::npos) { break; }
				a = e + 1;
			}
			if(f.size() != 4) { error = "index line '" + l + "'"; continue; }
			char* end;
			idx_line x;
			x.step = strtoull(f[0].c_str(), &end, 10);
			bool ok = *end == 0 && !f[0].empty();
			x.time = strtod(f[1].c_str(), &end); ok = ok && *end == 0 && !f[1].empty();
			x.time_text = f[1];
			x.part = strtol(f[2].c_str(), &end, 10); ok = ok && *end == 0 && !f[2].empty();
			x.off = strtoll(f[3].c_str(), &end, 10); ok = ok && *end == 0 && !f[3].empty();
			if(!ok) { error = "index line '" + l + "'"; continue; }
			lines.push_back(x);
		}
	}
	static std::string part(const std::string& base, long n) { return base + fmt("%ld.dat", n); }
};

//! Equality of a time with the one that went through the index (16 digits)
inline bool time_close(double a, double b) { return a == b || std::fabs(a - b) <= 7e-16 * std::max(std::fabs(a), std::fabs(b)); }

//! What a reader delivered against the frame that was written
inline std::string differs(const nbody_data& d, const frame& f, bool header = true)
{
	size_t n = f.size();
	if(d.get_count() != n) { return fmt("%zu bodies instead of %zu", d.get_count(), n); }
	if(memcmp(d.get_vertites(), f.pos.data(), n * sizeof(nbvertex_t))) { return "positions differ"; }
	if(memcmp(d.get_velosites(), f.vel.data(), n * sizeof(nbvertex_t))) { return "velocities differ"; }
	if(header && memcmp(d.get_mass(), f.mass.data(), n * sizeof(nbcoord_t))) { return "masses differ"; }
	if(header && memcmp(d.get_color(), f.col.data(), n * sizeof(nbcolor_t))) { return "colours differ"; }
	if(d.get_step() != f.step) { return fmt("step %zu instead of %zu", d.get_step(), f.step); }
	if(!time_close(d.get_time(), f.time)) { return fmt("time %.17g instead of %.17g", d.get_time(), f.time); }
	return "";
}
//! A destination full of other values
inline void scramble(nbody_data& d, size_t n, rng& r)
{
	d.resize(n);
	for(size_t i = 0; i < n; ++i)
	{
		d.get_vertites()[i] = nbvertex_t(r.uni(), r.uni(), r.uni());
		d.get_velosites()[i] = nbvertex_t(r.uni(), r.uni(), r.uni());
		d.get_mass()[i] = r.uni();
		d.get_color()[i] = nbcolor_t(0.1f, 0.2f, 0.3f, 0.4f);
	}
	d.set_time(r.uni(-9, -1));
	d.set_step(r.next());
	d.set_box_size(77777);
}
} // namespace nb
#endif
