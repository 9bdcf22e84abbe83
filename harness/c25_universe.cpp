// C25: generated universes against their construction rules.
#include "nb.h"
using namespace nb;

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	for(size_t k = 0; k < c.n(400, 8000); ++k)
	{
		if(!c.begin("universe", r)) { continue; }
		size_t want = r.chance(0.2) ? r.range(62, 66) : (r.chance(0.1) ? 64 * r.range(1, 6) : (r.chance(0.05) ? r.range(2000, 20000) : r.range(1, 700)));
		double sx = r.chance(0.3) ? 100 : r.logu(0.5, 1e4), sy = r.chance(0.5) ? sx : r.logu(0.5, 1e4), sz = r.chance(0.5) ? sx : r.logu(0.5, 1e4);
		nbody_data d, fresh;
		bool used = r.chance(0.5);
		if(used)
		{
			if(r.chance(0.5)) { d.make_universe(r.range(1, 300), 10, 20, 30); }
			for(size_t i = r.below(5); i > 0; --i) { d.add_body(nbvertex_t(1, 2, 3), nbvertex_t(4, 5, 6), 7, nbcolor_t(0, 0, 0, 0), 8); }
			if(r.chance(0.3)) { d.resize(r.below(1000)); }
			d.set_time(5); d.set_step(7);
			d.print_statistics(nullptr);
		}
		c.set_desc(fmt("%zu stars in %.17g x %.17g x %.17g%s", want, sx, sy, sz, used ? ", used data set" : ""));
		d.make_universe(want, sx, sy, sz);
		fresh.make_universe(want, sx, sy, sz);
		size_t per = (want + 63) / 64 * 64, n = d.get_count();
		c.ev("universes");
		if(!c.check(n == 2 * per && fresh.get_count() == n, "count", fmt("%zu bodies instead of two galaxies of %zu", n, per))) { continue; }
		bool same = memcmp(d.get_vertites(), fresh.get_vertites(), n * sizeof(nbvertex_t)) == 0 && memcmp(d.get_velosites(), fresh.get_velosites(), n * sizeof(nbvertex_t)) == 0 &&
					memcmp(d.get_mass(), fresh.get_mass(), n * sizeof(nbcoord_t)) == 0 && memcmp(d.get_color(), fresh.get_color(), n * sizeof(nbcolor_t)) == 0;
		c.check(same && d.is_equal(fresh, 0) && d.get_time() == fresh.get_time() && d.get_step() == fresh.get_step() && d.get_box_size() == fresh.get_box_size(), "reproducible", "the universe depends on what the data set held before");
		size_t box = static_cast<size_t>(std::max(1.0, std::max(sx, std::max(sy, sz))));
		c.check(d.get_box_size() == box, "box", fmt("box %zu instead of %zu", d.get_box_size(), box));
		double R = sx / 2;
		// drift: half of a third of the orbital speed law of two point masses of 1000 at distance R
		double drift = std::sqrt(1000.0 / (2 * std::max(R * R, 1e-8)) * R) / 3;
		std::vector<nbvertex_t> rel[2];
		for(int g = 0; g < 2; ++g)
		{
			size_t o = g * per;
			nbvertex_t ce = d.get_vertites()[o], vc = d.get_velosites()[o];
			double cx = sx / 2 + (g ? R : -R);
			c.check(std::fabs(ce.x - cx) <= 1e-12 * sx && std::fabs(ce.y - sy / 2) <= 1e-12 * sy && std::fabs(ce.z - sz / 2) <= 1e-12 * sz, "centre", fmt("galaxy %d is centred at (%g %g %g)", g, ce.x, ce.y, ce.z));
			double wv = g ? -drift : drift;
			c.check(vc.x == 0 && vc.z == 0 && std::fabs(vc.y - wv) <= 1e-12 * drift, "drift", fmt("galaxy %d drifts with (%g %g %g), expected y %g", g, vc.x, vc.y, vc.z, wv));
			long double total = 0;
			for(size_t i = 0; i < per; ++i) { total += d.get_mass()[o + i]; }
			c.check(std::fabs(double(total) - 1000) <= 1e-9, "mass", fmt("galaxy %d has mass %.17Lg", g, total));
			c.check(std::fabs(d.get_mass()[o] - 999) <= 1e-9, "central-mass", fmt("central body has mass %.17g", d.get_mass()[o]));
			double sm = 1.0 / double(per - 1);
			for(size_t i = 1; i < per; ++i)
			{
				nbvertex_t p = d.get_vertites()[o + i] - ce, v = d.get_velosites()[o + i] - vc;
				rel[g].push_back(p);
				c.check(std::fabs(d.get_mass()[o + i] - sm) <= 1e-9 * sm, "star-mass", fmt("star mass %.17g instead of %.17g", d.get_mass()[o + i], sm));
				c.check(std::isfinite(p.x + p.y + p.z + v.x + v.y + v.z), "finite", "a star has a value that is not finite");
				double len = std::sqrt(p.x * p.x + p.y * p.y + p.z * p.z);
				double sph = std::sqrt(p.x * p.x + p.y * p.y + p.z * p.z / 0.09);	// before flattening
				double slack = 1e-9 * (1 + (std::fabs(ce.x) + std::fabs(ce.y) + std::fabs(ce.z)) / R);
				c.check(sph <= R * (1 + slack), "radius", fmt("star %zu at distance %.17g (%.17g before flattening), galaxy radius %.17g", i, len, sph, R));
				// circular speed of the enclosed mass (softened below the minimum distance)
				double q = sph / R, enc = q * q * q * 1.0 + 999;
				double r2 = std::max(len * len, 1e-8);
				double speed = std::sqrt(enc * len / (r2 * std::sqrt(r2)) * len);
				double got = std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z);
				double noise = 1e-13 * (std::fabs(ce.x) + std::fabs(ce.y) + std::fabs(ce.z) + R) / std::max(len, 1e-300);	// position rounding
				double tol = speed * (1e-9 + 10 * noise) + 1e-12 * drift;
				if(noise < 1e-2)
				{
					c.check(std::fabs(got - speed) <= tol, "speed", fmt("star %zu moves with %.17g, circular speed is %.17g", i, got, speed));
					c.check(std::fabs(p.x * v.x + p.y * v.y + p.z * v.z) <= len * (tol + speed * 10 * noise), "direction", fmt("star %zu does not move around the centre", i));
				}
				c.ev("stars");
			}
			c.check(d.get_color()[o].y == 1.0f, "colour", "central body colour");
		}
		// colours: one per galaxy, different
		if(per > 2)
		{
			bool uni = true;
			for(size_t i = 2; i < per; ++i) { uni = uni && memcmp(&d.get_color()[i], &d.get_color()[1], sizeof(nbcolor_t)) == 0 && memcmp(&d.get_color()[per + i], &d.get_color()[per + 1], sizeof(nbcolor_t)) == 0; }
			c.check(uni && memcmp(&d.get_color()[1], &d.get_color()[per + 1], sizeof(nbcolor_t)) != 0, "colours", "stars of a galaxy do not share a colour of their own");
		}
		// the stars fill the galaxy: both halves in every direction, inner and outer part
		for(int g = 0; g < 2; ++g)
		{
			size_t pos[3] = {0, 0, 0}, inner = 0, dup = 0, m = rel[g].size();
			for(size_t i = 0; i < m; ++i)
			{
				const nbvertex_t& p = rel[g][i];
				pos[0] += p.x > 0; pos[1] += p.y > 0; pos[2] += p.z > 0;
				inner += std::sqrt(p.x * p.x + p.y * p.y + p.z * p.z / 0.09) < 0.7937 * R;	// half of the volume
				if(i && p.x == rel[g][i - 1].x && p.y == rel[g][i - 1].y) { ++dup; }
			}
			double sd = 7 * std::sqrt(double(m)) / 2;
			for(size_t q : pos) { c.check(std::fabs(double(q) - m / 2.0) <= sd, "spread", fmt("%zu of %zu stars on one side", q, m)); }
			c.check(std::fabs(double(inner) - m / 2.0) <= sd, "uniform", fmt("%zu of %zu stars in the inner half of the volume", inner, m));
			c.check(dup == 0, "distinct-stars", "stars coincide");
		}
		c.seen(fmt("%zu %g", want, sx));
		c.sample(fmt("%zu bodies", n));
	}
	return c.done();
}
