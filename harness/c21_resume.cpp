// C21: an uninterrupted run against runs interrupted after any frame (once or several times) and resumed
// from the recorded stream the way the simulation program does it.
#include "stream.h"
#include "any_solver.h"
#include <omp.h>
using namespace nb;

struct setup { bodies b; QVariantMap eng, sol; double dt, dump; long long limit; size_t box; bool clamp; };

static bool run(const setup& s, const std::string& base, bool resume, double end, std::string& err)
{
	nbody_data d;
	nbody_data_stream_reader rd;
	if(resume)
	{
		if(rd.load(QString::fromStdString(base)) != 0) { err = "can't load"; return false; }
		if(rd.seek(rd.get_frame_count() - 1) != 0) { err = "can't seek to the last frame"; return false; }
		d.resize(rd.get_body_count());
		if(rd.read(&d) != 0) { err = "can't read the last frame"; return false; }
	}
	else
	{
		s.b.fill(d);
		d.set_box_size(s.box);
	}
	std::unique_ptr<nbody_engine> e(nbody_create_engine(s.eng));
	std::unique_ptr<nbody_solver> so(nbody_create_solver(s.sol));
	if(!e || !so || !e->init(&d)) { err = "can't create"; return false; }
	so->set_engine(e.get());
	so->set_time_step(1e-9, s.dt);
	so->set_clamp_to_box(s.clamp);
	nbody_data_stream w;
	if(w.open(QString::fromStdString(base), s.limit, resume ? &rd : nullptr) != 0) { err = "can't open"; return false; }
	rd.close();
	if(so->run(&d, &w, end, s.dump, 0) != 0) { err = "run failed"; return false; }
	return true;
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	omp_set_num_threads(2);
	rng r(0);
	static const std::vector<std::string> single = {"euler", "midpoint", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "bs"};
	for(size_t k = 0; k < c.n(400, 12000); ++k)
	{
		if(!c.begin("resume", r)) { continue; }
		setup s;
		size_t n = r.range(1, 9);
		s.b = make_bodies(r, n, 0);
		std::string text, en;
		bool exact = r.chance(0.8);
		if(exact)
		{
			QVariantMap m;
			text = r.pick(single);
			m["solver"] = QString(text.c_str());
			m["max_recursion"] = static_cast<uint>(r.range(0, 2));
			m["error_threshold"] = r.logu(1e-9, 1e-2);
			m["max_level"] = static_cast<uint>(r.range(1, 5));
			s.sol = m;
		}
		else { s.sol = any_solver(r, text, true); }
		en = r.chance(0.3) ? "simple" : (r.chance(0.4) ? "openmp" : (r.chance(0.5) ? "block" : "simple_bh"));
		s.eng = params({{"engine", QString(en.c_str())}, {"tree_build_rate", 0}});
		s.dt = r.chance(0.3) ? 0.01 : r.logu(1e-4, 1e-1);
		size_t every = r.range(1, 5);
		s.dump = s.dt * (double(every) - (r.chance(0.5) ? 0 : r.uni(0, 0.6)));
		s.limit = r.chance(0.3) ? 0 : static_cast<long long>(r.range(1, 48 * n * 4));
		s.box = r.range(1, 15);
		s.clamp = r.chance(0.5);
		if(s.clamp) { for(size_t i = 0; i < n; ++i) { s.b.vx[i] *= 20; s.b.vz[i] *= 20; } }
		size_t frames = r.range(2, 10);
		double end = s.dt * (double(frames * every) - 0.5);
		std::string dir = fresh_dir(c.scratch), A = dir + "/a", B = dir + "/b", err;
		c.set_desc(fmt("%s on %s, %zu bodies, dt=%.17g, frame every %zu steps, %zu frames, limit %lld, box %zu clamp %d", text.c_str(), en.c_str(), n, s.dt, every, frames, s.limit, s.box, s.clamp));
		bool ok = run(s, A, false, end, err);
		if(!c.check(ok, "run", err)) { wipe(dir); continue; }
		// interruptions after random frames
		std::vector<size_t> cuts;
		size_t ncut = r.range(1, 3);
		for(size_t i = 0; i < ncut; ++i) { cuts.push_back(r.below(frames)); }
		std::sort(cuts.begin(), cuts.end());
		std::string hist;
		bool first = true;
		std::map<std::string, std::string> before;
		for(size_t q = 0; q <= cuts.size() && ok; ++q)
		{
			double stop = q == cuts.size() ? end : s.dt * (double(cuts[q] * every) - 0.5);
			hist += q == cuts.size() ? " end" : fmt(" %zu", cuts[q]);
			ok = c.check(run(s, B, !first, stop, err), first ? "run" : "resume", err + hist);
			first = false;
			c.ev("sessions");
			// what was there stays
			std::map<std::string, std::string> now;
			for(auto& f : listing(dir)) { if(f[0] == 'b') { now[f] = slurp(dir + "/" + f); } }
			for(auto& f : before) { c.check(now.count(f.first) && now[f.first].compare(0, f.second.size(), f.second) == 0, "earlier-damaged", "the earlier contents of " + f.first + " changed"); }
			before = now;
		}
		if(!ok) { wipe(dir); continue; }
		raw_stream ra(A), rb(B);
		c.check(rb.error.empty() && !rb.torn, "index", rb.error);
		c.check(slurp(A + ".mass") == slurp(B + ".mass") && slurp(A + ".col") == slurp(B + ".col"), "header-files", "mass or colour file differs");
		c.check(ra.head == rb.head, "header", "header differs");
		c.check(rb.head_order.size() == 3, "header-again", fmt("%zu header lines", rb.head_order.size()));
		// A stream that holds only the initial frame gets it once more when it is resumed (known finding): judged
		// under a key of its own, everything else as if that frame was there once.
		bool dup = false;
		while(rb.lines.size() > 1 && ra.lines[0].time <= 0 && rb.lines[1].step == rb.lines[0].step)
		{
			const idx_line& x = rb.lines[0];
			const idx_line& y = rb.lines[1];
			std::string px = slurp(raw_stream::part(B, x.part)), py = slurp(raw_stream::part(B, y.part));
			c.check(px.compare(size_t(x.off), 48 * n, py, size_t(y.off), 48 * n) == 0, "state", "the repeated initial frame differs from the initial frame");
			rb.lines.erase(rb.lines.begin() + 1);
			dup = true;
		}
		if(dup) { c.check(cuts[0] == 0, "repeated-frame", "the initial frame is repeated"); c.violation("initial-frame-repeated", "a run resumed from a stream that holds only the initial frame writes this frame again"); }
		if(!c.check(ra.lines.size() == rb.lines.size(), "cadence", fmt("%zu frames instead of %zu, interrupted after%s", rb.lines.size(), ra.lines.size(), hist.c_str()))) { wipe(dir); continue; }
		size_t fsz = 48 * n;
		for(size_t i = 0; i < ra.lines.size(); ++i)
		{
			const idx_line& a = ra.lines[i];
			const idx_line& b = rb.lines[i];
			c.check(a.step == b.step, "steps", fmt("frame %zu has step %zu instead of %zu", i, b.step, a.step));
			c.check(std::fabs(a.time - b.time) <= 1e-12 * (1 + std::fabs(a.time)), "times", fmt("frame %zu has time %.17g instead of %.17g", i, b.time, a.time));
			if(!dup) { c.check(a.part == b.part && a.off == b.off, "placement", fmt("frame %zu at part %ld offset %lld instead of %ld, %lld", i, b.part, b.off, a.part, a.off)); }
			std::string pa = slurp(raw_stream::part(A, a.part)), pb = slurp(raw_stream::part(B, b.part));
			if(!c.check(pa.size() >= size_t(a.off) + fsz && pb.size() >= size_t(b.off) + fsz, "stored", "frame not stored")) { continue; }
			if(exact) { c.check(pa.compare(size_t(a.off), fsz, pb, size_t(b.off), fsz) == 0, "state", fmt("frame %zu (step %zu) differs from the uninterrupted run, interrupted after%s", i, a.step, hist.c_str())); c.ev("frames compared"); }
		}
		c.seen(text + en + hist + fmt("%zu %d", n, s.clamp));
		c.sample(fmt("%zu frames, interrupted after%s", ra.lines.size(), hist.c_str()));
		wipe(dir);
	}
	return c.done();
}
