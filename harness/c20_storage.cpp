// C20: storage faults at the system-call boundary (full device, I/O errors, short writes, refused opens)
// during recording, runs and saving.  Success has to mean that the bytes are in the files, and a fault
// has to be reported.
#include "faults.h"
#include "stream.h"
#include <sys/resource.h>
#include <signal.h>
#include <QFile>
using namespace nb;

//! Is frame f (the i-th successful one) completely in the files?
static std::string stored(const std::string& base, const std::vector<frame>& fr, const std::vector<size_t>& good)
{
	raw_stream rs(base);
	if(rs.torn) { return "index ends in the middle of a line"; }
	if(rs.head["coord_size"] != "8" || rs.head["body_count"] != fmt("%zu", fr[0].size())) { return "index header is incomplete"; }
	if(slurp(base + ".mass") != fr[0].masses()) { return "mass file is incomplete"; }
	if(slurp(base + ".col") != fr[0].colours()) { return "colour file is incomplete"; }
	size_t g = 0;
	for(auto& l : rs.lines)
	{
		if(g == good.size()) { break; }
		const frame& f = fr[good[g]];
		if(l.step != f.step) { continue; }	// a frame whose write was reported as failed
		std::string p = slurp(raw_stream::part(base, l.part));
		std::string raw = f.raw();
		if(l.off < 0 || p.size() < size_t(l.off) + raw.size() || p.compare(size_t(l.off), raw.size(), raw) != 0) { return fmt("frame %zu is not in part %ld at %lld", good[g], l.part, l.off); }
		++g;
	}
	if(g < good.size()) { return fmt("frame %zu is not in the index", good[g]); }
	return "";
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	signal(SIGXFSZ, SIG_IGN);
	static const std::vector<int> errs = {ENOSPC, EIO, EDQUOT, EFBIG, EACCES, EMFILE, EROFS};
	for(size_t k = 0; k < c.n(1500, 40000); ++k)
	{
		if(!c.begin("storage", r)) { continue; }
		std::string dir = fresh_dir(c.scratch), base = dir + "/st", desc;
		faults::state& s = faults::S();
		s = faults::state();
		s.root = dir;
		int kind = static_cast<int>(r.below(10));
		size_t n = r.chance(0.3) ? r.range(300, 1200) : r.range(1, 60), cnt = r.range(1, 6);
		auto fr = make_frames(r, n, cnt);
		long long fsz = 48 * static_cast<long long>(n);
		long long limit = r.chance(0.3) ? 0 : static_cast<long long>(r.range(1, fsz * 3));
		// the fault
		s.m = faults::fail;
		s.err = r.pick(errs);
		if(r.chance(0.35)) { s.cap = static_cast<long long>(r.below(static_cast<uint64_t>(fsz) * (cnt + 1) + 600)); s.err = ENOSPC; s.at = -1; desc = fmt("device with %lld bytes free", s.cap); }
		else
		{
			s.at = static_cast<long>(r.below(5 + cnt * 3));
			s.sticky = r.chance(0.5);
			s.part = r.chance(0.3) ? r.uni(0.01, 1) : -1;
			desc = fmt("call %ld fails with %s%s%s", s.at, strerror(s.err), s.sticky ? ", later ones too" : "", s.part > 0 ? ", after a short write" : "");
		}
		if(kind < 6)
		{
			c.set_desc(fmt("recording %zu bodies %zu frames limit %lld: ", n, cnt, limit) + desc);
			nbody_data_stream w;
			nbody_data d;
			long before = s.injected;
			int q = w.open(QString::fromStdString(base), limit);
			if(s.injected > before) { c.check(q != 0, "open-swallowed", "a failing open is reported as success"); }
			else { c.check(q == 0, "open-spurious", "opening fails without a fault"); }
			std::vector<size_t> good;
			bool poisoned = q != 0;
			for(size_t i = 0; i < cnt; ++i)
			{
				fr[i].to(d);
				before = s.injected;
				int o = w.write(&d);
				c.ev(o == 0 ? "writes reported good" : "writes reported failed");
				bool hit = s.injected > before;
				if(hit) { c.ev("writes with a fault"); poisoned = true; }
				if(o == 0)
				{
					good.push_back(i);
					int m = s.m;
					s.m = faults::off;
					std::string e = stored(base, fr, good);
					c.check(e.empty(), "incomplete-success", fmt("write of frame %zu reports success, but %s", i, e.c_str()));
					// and through a reader
					nbody_data_stream_reader rd;
					nbody_data x;
					scramble(x, n, r);
					bool ok = rd.load(QString::fromStdString(base)) == 0 && rd.get_frame_count() > 0 && rd.seek(rd.get_frame_count() - 1) == 0 && rd.read(&x) == 0;
					c.check(ok && differs(x, fr[i]).empty(), "unreadable-success", fmt("write of frame %zu reports success, but it can not be read back", i));
					s.m = m;
				}
				else
				{
					c.check(poisoned, "spurious", fmt("write of frame %zu fails without a fault", i));
					if(r.chance(0.5)) { break; }
					if(r.chance(0.5)) { s.cap = -1; s.at = -1; }	// space was freed
				}
			}
			s.m = faults::off;
			w.close();
			c.seen(c.desc);
			c.sample(fmt("%zu good, %ld faults", good.size(), s.injected));
		}
		else if(kind < 8)	// a whole run
		{
			size_t nb_ = r.range(1, 8);
			bodies b = make_bodies(r, nb_, 0);
			nbody_data d;
			b.fill(d);
			d.set_box_size(10);
			std::unique_ptr<nbody_engine> e(nbody_create_engine(params({{"engine", "simple"}})));
			std::unique_ptr<nbody_solver> so(nbody_create_solver(params({{"solver", "euler"}})));
			e->init(&d);
			so->set_engine(e.get());
			so->set_time_step(0.01, 0.125);
			if(s.cap >= 0) { s.cap = static_cast<long long>(r.below(nb_ * 48 * 12 + 500)); desc = fmt("device with %lld bytes free", s.cap); }
			double end = 0.125 * static_cast<double>(r.range(1, 10));
			c.set_desc(fmt("run of %zu bodies to %g: ", nb_, end) + desc);
			nbody_data_stream w;
			int q = w.open(QString::fromStdString(base), r.chance(0.5) ? 0 : 100);
			if(q == 0)
			{
				q = so->run(&d, &w, end, 0.125, 0);
				long inj = s.injected;
				s.m = faults::off;
				w.close();
				raw_stream rs(base);
				c.ev(q == 0 ? "runs good" : "runs failed");
				if(q == 0)
				{
					size_t want = static_cast<size_t>(end / 0.125 + 0.5) + 1;
					c.check(rs.lines.size() == want && !rs.torn, "run-swallowed", fmt("the run reports success, %zu of %zu frames are indexed", rs.lines.size(), want));
					for(auto& l : rs.lines) { c.check(slurp(raw_stream::part(base, l.part)).size() >= size_t(l.off) + 48 * nb_, "run-swallowed", fmt("the run reports success, frame of step %zu is incomplete", l.step)); }
				}
				else
				{
					c.check(inj > 0, "run-spurious", "the run fails without a fault");
					// the run stopped at the failing frame
					size_t full = 0;
					for(auto& l : rs.lines) { if(slurp(raw_stream::part(base, l.part)).size() >= size_t(l.off) + 48 * nb_) { ++full; } }
					c.check(d.get_step() <= full + 1, "run-continued", fmt("the run went on to step %zu with %zu frames stored", d.get_step(), full));
				}
				if(inj > 0 && s.sticky) { c.check(q != 0, "run-swallowed", "persistent storage failure, but the run reports success"); }
			}
			s.m = faults::off;
			c.seen(c.desc);
		}
		else	// save
		{
			nbody_data d;
			bodies b = make_bodies(r, n);
			b.fill(d);
			std::string fn = dir + "/state.txt";
			s.at = s.cap >= 0 ? -1 : static_cast<long>(r.below(2 + n * 190 / 16384 + 1));
			if(s.cap >= 0) { s.cap = static_cast<long long>(r.below(n * 200 + 10)); }
			c.set_desc(fmt("save %zu bodies: ", n) + desc + fmt(" (call %ld, room %lld)", s.at, s.cap));
			bool ok = d.save(QString::fromStdString(fn));
			long inj = s.injected;
			s.m = faults::off;
			std::string t = slurp(fn);
			size_t lines = static_cast<size_t>(std::count(t.begin(), t.end(), '\n'));
			c.ev(ok ? "saves good" : "saves failed");
			if(ok)
			{
				nbody_data x;
				c.check(lines == n && x.load(QString::fromStdString(fn)) && x.get_count() == n, "save-incomplete", fmt("save reports success, the file has %zu of %zu lines", lines, n));
			}
			else { c.check(inj > 0, "save-spurious", "save fails without a fault"); }
			c.seen(c.desc);
		}
		s.m = faults::off;
		wipe(dir);
	}
	// real limits of the operating system
	for(size_t k = 0; k < c.n(60, 600); ++k)
	{
		if(!c.begin("file size limit", r)) { continue; }
		std::string dir = fresh_dir(c.scratch), base = dir + "/st";
		size_t n = r.range(1, 400), cnt = r.range(2, 6);
		auto fr = make_frames(r, n, cnt);
		struct rlimit old, lim;
		getrlimit(RLIMIT_FSIZE, &old);
		lim = old;
		lim.rlim_cur = r.range(1, 48 * n * cnt + 200);
		c.set_desc(fmt("file size limit %llu, %zu bodies, %zu frames", static_cast<unsigned long long>(lim.rlim_cur), n, cnt));
		nbody_data_stream w;
		nbody_data d;
		std::vector<size_t> good;
		std::vector<std::string> errors;
		c.check(w.open(QString::fromStdString(base), 0) == 0, "open-spurious", "open");
		for(size_t i = 0; i < cnt; ++i)
		{
			fr[i].to(d);
			setrlimit(RLIMIT_FSIZE, &lim);
			int q = w.write(&d);
			setrlimit(RLIMIT_FSIZE, &old);
			c.ev(q == 0 ? "writes reported good" : "writes reported failed");
			if(q != 0) { break; }
			good.push_back(i);
			std::string e = stored(base, fr, good);
			c.check(e.empty(), "incomplete-success", fmt("write of frame %zu reports success, but %s", i, e.c_str()));
		}
		bool fits = 48 * n * cnt <= lim.rlim_cur && 200 + 60 * cnt <= lim.rlim_cur;
		if(fits) { c.check(good.size() == cnt, "spurious", "write fails although it fits"); }
		c.seen(c.desc);
		wipe(dir);
	}
	return c.done();
}
