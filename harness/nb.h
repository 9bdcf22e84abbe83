// Helpers shared by the monitors that drive engines: body generators and the direct-sum oracle.
#ifndef NB_H
#define NB_H
#include "mon.h"
#include "nbody_engines.h"
#include "nbody_solvers.h"
#include <memory>
#include <QVariantMap>

namespace nb {
using mon::rng;
using mon::fmt;
using mon::context;

struct bodies
{
	std::vector<double> x, y, z, vx, vy, vz, m;
	std::string kind;
	size_t size() const { return x.size(); }
	void add(double X, double Y, double Z, double VX, double VY, double VZ, double M)
	{
		x.push_back(X); y.push_back(Y); z.push_back(Z);
		vx.push_back(VX); vy.push_back(VY); vz.push_back(VZ); m.push_back(M);
	}
	std::vector<double> state() const
	{
		std::vector<double> s;
		for(auto p : {&x, &y, &z, &vx, &vy, &vz}) { s.insert(s.end(), p->begin(), p->end()); }
		return s;
	}
	void set_state(const std::vector<double>& s)
	{
		size_t n = size(), k = 0;
		for(auto p : {&x, &y, &z, &vx, &vy, &vz}) { std::copy(s.begin() + k * n, s.begin() + (k + 1) * n, p->begin()); ++k; }
	}
	void fill(nbody_data& d) const
	{
		for(size_t i = 0; i < size(); ++i)
		{
			d.add_body(nbvertex_t(x[i], y[i], z[i]), nbvertex_t(vx[i], vy[i], vz[i]), m[i], nbcolor_t(1, 1, 1, 1));
		}
	}
};

//! A configuration of n bodies; kinds cover separated, clustered, coincident and badly scaled sets
inline bodies make_bodies(rng& r, size_t n, int kind = -1)
{
	static const char* names[] = {"uniform", "clustered", "coincident", "near-softening", "scaled", "offset", "collinear", "grid"};
	if(kind < 0) { kind = r.below(8); }
	bodies b;
	b.kind = names[kind];
	double scale = kind == 4 ? r.logu(1e-3, 1e4) : 10;
	double off = kind == 5 ? r.logu(1e2, 1e6) : 0;
	for(size_t i = 0; i < n; ++i)
	{
		double X = r.uni(-scale, scale), Y = r.uni(-scale, scale), Z = r.uni(-scale, scale);
		double M = r.uni(0.1, 2);
		switch(kind)
		{
		case 1:	// clusters around an earlier body
			if(i && r.chance(0.8))
			{
				size_t j = r.below(i);
				double w = r.logu(1e-3, 1);
				X = b.x[j] + r.uni(-w, w); Y = b.y[j] + r.uni(-w, w); Z = b.z[j] + r.uni(-w, w);
			}
			M = r.logu(1e-3, 1e3);
			break;
		case 2:	// some bodies at exactly the same place
			if(i && r.chance(0.4))
			{
				size_t j = r.below(i);
				X = b.x[j]; Y = b.y[j]; Z = b.z[j];
			}
			break;
		case 3:	// pair distances around 1e-4 (r^2 around the softening limit)
			if(i && r.chance(0.6))
			{
				size_t j = r.below(i);
				double w = r.logu(1e-6, 1e-2);
				double u = r.uni(-1, 1), p = r.uni(0, 6.283185307179586), q = std::sqrt(1 - u * u);
				X = b.x[j] + w * q * std::cos(p); Y = b.y[j] + w * q * std::sin(p); Z = b.z[j] + w * u;
			}
			break;
		case 4:
			M = r.logu(1e-6, 1e6);
			break;
		case 5:
			X += off; Y -= off * 0.5;
			break;
		case 6:
			Y = 0; Z = 0;
			break;
		case 7:
			X = std::floor(X / 4); Y = std::floor(Y / 4); Z = std::floor(Z / 4);
			break;
		}
		b.add(X, Y, Z, r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), M);
	}
	return b;
}

typedef long double ld;
struct accel
{
	std::vector<ld> ax, ay, az;		// acceleration
	std::vector<ld> mag;			// sum over j of |a_ij|
	std::vector<ld> newt;			// sum over j of m_j / max(r^2, 1e-8)
};

//! One pair term in extended precision
inline void pair(const bodies& b, size_t i, size_t j, ld& fx, ld& fy, ld& fz, ld& mag)
{
	ld dx = ld(b.x[j]) - ld(b.x[i]), dy = ld(b.y[j]) - ld(b.y[i]), dz = ld(b.z[j]) - ld(b.z[i]);
	ld r2 = dx * dx + dy * dy + dz * dz;
	ld s2 = r2 < 1e-8L ? 1e-8L : r2;
	ld c = ld(b.m[j]) / (s2 * sqrtl(s2));
	fx = dx * c; fy = dy * c; fz = dz * c;
	mag = sqrtl(r2) * c;
}

inline accel direct(const bodies& b)
{
	size_t n = b.size();
	accel a;
	a.ax.assign(n, 0); a.ay = a.ax; a.az = a.ax; a.mag = a.ax; a.newt = a.ax;
	for(size_t i = 0; i < n; ++i)
	{
		for(size_t j = 0; j < n; ++j)
		{
			if(i == j) { continue; }
			ld fx, fy, fz, mg;
			pair(b, i, j, fx, fy, fz, mg);
			a.ax[i] += fx; a.ay[i] += fy; a.az[i] += fz; a.mag[i] += mg;
			ld dx = ld(b.x[j]) - b.x[i], dy = ld(b.y[j]) - b.y[i], dz = ld(b.z[j]) - b.z[i];
			a.newt[i] += b.m[j] / std::max(dx * dx + dy * dy + dz * dz, ld(1e-8L));
		}
	}
	return a;
}

//! Relative position rounding: coordinates may be large compared with distances, but the subtraction
//! of two doubles has a relative error of one rounding, so no extra term is needed for exact engines.
//! Results of the quadruple-precision build are judged at the precision of long double.
constexpr ld type_eps = sizeof(nbcoord_t) == 4 ? 1.2e-7L : sizeof(nbcoord_t) == 8 ? 2.3e-16L : 1.1e-19L;
inline ld rounding_tol(size_t n) { return (ld(n) + 32) * 4 * type_eps; }

struct engine_run
{
	std::unique_ptr<nbody_data> data;
	std::unique_ptr<nbody_engine> eng;
	nbody_engine::memory* y = nullptr;
	nbody_engine::memory* f = nullptr;
	engine_run(const bodies& b, const QVariantMap& p)
	{
		data.reset(new nbody_data());
		b.fill(*data);
		eng.reset(nbody_create_engine(p));
		if(eng) { ok = eng->init(data.get()); }
		if(ok)
		{
			f = eng->create_buffer(sizeof(nbcoord_t) * eng->problem_size());
		}
	}
	~engine_run()
	{
		if(eng && f) { eng->free_buffer(f); }
		if(eng && y) { eng->free_buffer(y); }
	}
	bool ok = false;
	//! Give the same engine another data set
	bool reinit(const bodies& b)
	{
		if(f) { eng->free_buffer(f); f = nullptr; }
		if(y) { eng->free_buffer(y); y = nullptr; }
		std::unique_ptr<nbody_data> other(new nbody_data());
		b.fill(*other);
		ok = eng->init(other.get());
		data.swap(other);
		if(ok) { f = eng->create_buffer(sizeof(nbcoord_t) * eng->problem_size()); }
		return ok;
	}
	//! Evaluate at the given state in a separate buffer
	std::vector<double> eval(const std::vector<double>& s, double t = 0)
	{
		if(!y) { y = eng->create_buffer(sizeof(nbcoord_t) * eng->problem_size()); }
		eng->write_buffer(y, s.data());
		std::vector<double> res(s.size(), 0), poison(s.size(), std::nan(""));
		eng->write_buffer(f, poison.data());
		eng->fcompute(t, y, f);
		eng->read_buffer(res.data(), f);
		eng->read_buffer(poison.data(), y);
		if(memcmp(poison.data(), s.data(), s.size() * sizeof(double)) != 0)
		{
			input_changed = true;
		}
		return res;
	}
	bool input_changed = false;
};

inline QVariantMap params(std::initializer_list<std::pair<const char*, QVariant>> l)
{
	QVariantMap m;
	for(auto& p : l) { m[p.first] = p.second; }
	return m;
}
inline std::string show(const QVariantMap& m)
{
	std::string s;
	for(auto i = m.begin(); i != m.end(); ++i)
	{
		s += (s.empty() ? "" : " ") + (i.key() + "=" + i.value().toString()).toStdString();
	}
	return s;
}

//! Largest ratio |f - oracle| / (tol * scale) over all bodies; also checks f's velocity part exactly
template<class V>
inline double compare(const bodies& b, const accel& a, const std::vector<V>& f, const std::vector<ld>& bound,
					  std::string& where)
{
	size_t n = b.size();
	double worst = 0;
	for(size_t i = 0; i < n; ++i)
	{
		if(!(f[i] == b.vx[i] && f[n + i] == b.vy[i] && f[2 * n + i] == b.vz[i]))
		{
			where = fmt("body %zu: position derivative (%g %g %g) is not the velocity (%g %g %g)", i, double(f[i]), double(f[n + i]), double(f[2 * n + i]), b.vx[i], b.vy[i], b.vz[i]);
			return INFINITY;
		}
		ld ex = ld(f[3 * n + i]) - a.ax[i], ey = ld(f[4 * n + i]) - a.ay[i], ez = ld(f[5 * n + i]) - a.az[i];
		ld e = sqrtl(ex * ex + ey * ey + ez * ez);
		double q = e == 0 ? 0 : (bound[i] > 0 ? double(e / bound[i]) : INFINITY);
		if(!(q <= worst))
		{
			worst = std::isnan(q) ? INFINITY : q;
			where = fmt("body %zu: acceleration (%.17g %.17g %.17g), direct sum (%.17Lg %.17Lg %.17Lg), error %.3Lg, allowed %.3Lg",
						i, double(f[3 * n + i]), double(f[4 * n + i]), double(f[5 * n + i]), a.ax[i], a.ay[i], a.az[i], e, bound[i]);
		}
	}
	return worst;
}

//! Every new report of the OpenCL device simulator is a violation
inline void device_log(context& c, long& pos)
{
	FILE* f = fopen("ocl.log", "r");
	if(!f) { return; }
	fseek(f, pos, SEEK_SET);
	char buf[1500];
	size_t q = fread(buf, 1, sizeof(buf) - 1, f);
	buf[q] = 0;
	fseek(f, 0, SEEK_END);
	pos = ftell(f);
	fclose(f);
	if(q) { c.violation("device", fmt("device simulator reports: %s", buf)); }
	c.ev("device logs inspected");
}
} // namespace nb
#endif
