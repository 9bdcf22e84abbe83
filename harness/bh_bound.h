// Rigorous error bound of the opening rule: a group (centre of mass P, radius R, every member within R of P)
// may be used as a point for body i only if |P - r_i| > k R.  With th = 1/k < 1 and D = |P - r_i|:
//   * multipole expansion about the centre of mass: the dipole vanishes, the rest is at most
//     m_j / D^2 * sum_{l>=2} (l+1) th^l = m_j / D^2 * (3 th^2 - 2 th^3) / (1 - th)^2, and r_ij <= D (1 + th);
//   * a member j with nearest neighbour at distance nn_j can only be in a group of radius R >= nn_j / 2, so the
//     pair (i, j) is summed exactly whenever r_ij < (k - 1) nn_j / 2.
// Pairs near the softening length use a first-order (Lipschitz) bound.
#ifndef BH_BOUND_H
#define BH_BOUND_H
#include "nb.h"
#include <array>
#include <map>
namespace nb {
inline std::vector<ld> bh_bound(const bodies& b, const accel& a, double k, size_t* inexact_pairs = nullptr)
{
	size_t n = b.size();
	ld th = 1.0L / k * (1 + 1e-9L + 50 * type_eps);
	ld g = (3 * th * th - 2 * th * th * th) / ((1 - th) * (1 - th)) * (1 + th) * (1 + th);
	ld g1 = 3 * th / ((1 - th) * (1 - th) * (1 - th));
	std::vector<ld> nn(n, INFINITY);
	std::vector<ld> d(n * n);
	ld maxc = 0;
	for(size_t i = 0; i < n; ++i)
	{
		maxc = std::max(maxc, ld(std::max(std::fabs(b.x[i]), std::max(std::fabs(b.y[i]), std::fabs(b.z[i])))));
		for(size_t j = 0; j < n; ++j)
		{
			ld dx = ld(b.x[j]) - b.x[i], dy = ld(b.y[j]) - b.y[i], dz = ld(b.z[j]) - b.z[i];
			d[i * n + j] = sqrtl(dx * dx + dy * dy + dz * dz);
			if(i != j) { nn[i] = std::min(nn[i], d[i * n + j]); }
		}
	}
	ld com_err = maxc * type_eps * 40;	// rounding of the centre of mass over the tree depth
	std::vector<ld> bound(n);
	for(size_t i = 0; i < n; ++i)
	{
		ld s = a.mag[i] * rounding_tol(n) + a.newt[i] * (450 * type_eps) + 1e-300L;
		for(size_t j = 0; j < n; ++j)
		{
			if(j == i || d[i * n + j] < (k - 1) * nn[j] * 0.5L * (1 - 1e-6L - 50 * type_eps) - com_err) { continue; }
			if(inexact_pairs) { ++*inexact_pairs; }
			ld r = d[i * n + j], q = std::max(r, ld(1e-4L));
			ld w = b.m[j] / (q * q);
			s += w * (r < 3e-4L ? g1 : g) + 4 * w * std::min(com_err / q, ld(1));
		}
		bound[i] = s;
	}
	return bound;
}

//! Large sets: the same bound for sampled bodies, with lower limits of the nearest-neighbour distances from a cell grid.
//! Returns the largest error/bound.
inline double bh_sampled(const bodies& b, const std::vector<double>& f, double k, rng& r, size_t samples, std::string& where, size_t* inexact_pairs = nullptr)
{
	size_t n = b.size();
	double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
	const std::vector<double>* p[3] = {&b.x, &b.y, &b.z};
	ld maxc = 0;
	for(int w = 0; w < 3; ++w) { for(double v : *p[w]) { lo[w] = std::min(lo[w], v); hi[w] = std::max(hi[w], v); maxc = std::max(maxc, fabsl(v)); } }
	double cell = 1e-300;
	for(int w = 0; w < 3; ++w) { cell = std::max(cell, (hi[w] - lo[w]) / std::cbrt(double(n))); }
	auto at = [&](size_t i, int w) { return int((((*p[w])[i]) - lo[w]) / cell); };
	std::map<std::array<int, 3>, std::vector<size_t>> grid;
	for(size_t i = 0; i < n; ++i) { grid[{at(i, 0), at(i, 1), at(i, 2)}].push_back(i); }
	std::vector<double> nn(n, cell * (1 - 1e-9));
	for(auto& g : grid)
	{
		for(int u = 0; u < 27; ++u)
		{
			auto o = grid.find({g.first[0] + u % 3 - 1, g.first[1] + u / 3 % 3 - 1, g.first[2] + u / 9 - 1});
			if(o == grid.end()) { continue; }
			for(size_t i : g.second) { for(size_t j : o->second)
			{
				if(i == j) { continue; }
				double dx = b.x[i] - b.x[j], dy = b.y[i] - b.y[j], dz = b.z[i] - b.z[j];
				nn[i] = std::min(nn[i], std::sqrt(dx * dx + dy * dy + dz * dz) * (1 - 1e-9));
			} }
		}
	}
	ld th = 1.0L / k * (1 + 1e-9L + 50 * type_eps);
	ld g = (3 * th * th - 2 * th * th * th) / ((1 - th) * (1 - th)) * (1 + th) * (1 + th);
	ld g1 = 3 * th / ((1 - th) * (1 - th) * (1 - th));
	ld com_err = maxc * type_eps * 40;
	double worst = 0;
	for(size_t q = 0; q < samples; ++q)
	{
		size_t i = q == 0 ? 0 : (q == 1 ? n - 1 : r.below(n));
		if(!(f[i] == b.vx[i] && f[n + i] == b.vy[i] && f[2 * n + i] == b.vz[i])) { where = fmt("body %zu: position derivative is not the velocity", i); return INFINITY; }
		ld ax = 0, ay = 0, az = 0, mag = 0, newt = 0, s = 1e-300L;
		for(size_t j = 0; j < n; ++j)
		{
			if(j == i) { continue; }
			ld fx, fy, fz, mg;
			pair(b, i, j, fx, fy, fz, mg);
			ax += fx; ay += fy; az += fz; mag += mg;
			ld dx = ld(b.x[j]) - b.x[i], dy = ld(b.y[j]) - b.y[i], dz = ld(b.z[j]) - b.z[i];
			ld d = sqrtl(dx * dx + dy * dy + dz * dz), e = std::max(d, ld(1e-4L)), w = b.m[j] / (e * e);
			newt += w;
			if(d < (k - 1) * nn[j] * 0.5L * (1 - 1e-6L - 50 * type_eps) - com_err) { continue; }
			if(inexact_pairs) { ++*inexact_pairs; }
			s += w * (d < 3e-4L ? g1 : g) + 4 * w * std::min(com_err / e, ld(1));
		}
		s += mag * rounding_tol(n) + newt * (450 * type_eps);
		ld ex = f[3 * n + i] - ax, ey = f[4 * n + i] - ay, ez = f[5 * n + i] - az;
		double v = double(sqrtl(ex * ex + ey * ey + ez * ez) / s);
		if(!(v <= worst))
		{
			worst = std::isnan(v) ? INFINITY : v;
			where = fmt("body %zu of %zu: acceleration (%.17g %.17g %.17g), direct sum (%.17Lg %.17Lg %.17Lg), error/bound %.3g", i, n, f[3 * n + i], f[4 * n + i], f[5 * n + i], ax, ay, az, v);
		}
	}
	return worst;
}
}
#endif
