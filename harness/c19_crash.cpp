// C19: a recording process is killed at every system call that touches the stream (before it, after it,
// or in the middle of a write); the survivor's files are then read and appended to.
#include "faults.h"
#include "stream.h"
#include <sys/wait.h>
#include <signal.h>
using namespace nb;

struct shared { volatile long acked; volatile long calls; volatile long bad; };

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	shared* sh = static_cast<shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	for(size_t k = 0; k < c.n(40, 1500); ++k)
	{
		if(!c.begin("crash", r)) { continue; }
		size_t n = r.chance(0.25) ? r.range(250, 900) : r.range(1, 60), cnt = r.range(2, 6);
		auto fr = make_frames(r, n, cnt + 3);
		std::string dir = fresh_dir(c.scratch);
		long long fsz = 48 * static_cast<long long>(n);
		long long limit = r.chance(0.3) ? 0 : (r.chance(0.4) ? 1 : static_cast<long long>(r.range(1, fsz * 3)));
		size_t pre = r.chance(0.5) ? r.range(1, cnt - 1) : 0;	// frames written by an earlier, complete session
		std::string desc = fmt("%zu bodies, %zu frames (%zu by an earlier session), limit %lld", n, cnt, pre, limit);
		auto record = [&](const std::string& base, size_t from, bool append, bool hold)
		{
			nbody_data_stream w;
			nbody_data_stream_reader rd;
			nbody_data d;
			if(append && rd.load(QString::fromStdString(base)) != 0) { return 10; }
			if(w.open(QString::fromStdString(base), limit, append ? &rd : nullptr) != 0) { return 11; }
			for(size_t i = from; i < cnt; ++i)
			{
				fr[i].to(d);
				if(w.write(&d) != 0) { return 12; }
				sh->acked = static_cast<long>(i) + 1;
			}
			if(!hold) { w.close(); }
			return 0;
		};
		auto start = [&](const std::string& base)
		{
			if(!pre) { return true; }
			size_t keep = cnt;
			cnt = pre;
			int q = record(base, 0, false, false);
			cnt = keep;
			return q == 0;
		};
		// number of calls
		long total = 0;
		{
			std::string d0 = fresh_dir(dir);
			c.check(start(d0 + "/st"), "first-session", "can't record");
			faults::S() = faults::state();
			faults::S().root = d0;
			faults::S().m = faults::count;
			int q = record(d0 + "/st", pre, pre > 0, false);
			faults::S().m = faults::off;
			total = faults::S().calls;
			c.check(q == 0, "second-session", fmt("can't record (%d)", q));
			wipe(d0);
		}
		std::vector<std::pair<long, double>> points;	// call, fraction (-1 before, 2 after, else torn)
		for(long p = 0; p < total; ++p)
		{
			points.push_back({p, -1});
			points.push_back({p, 2});
			points.push_back({p, r.uni(0, 1)});
			points.push_back({p, r.chance(0.5) ? 0.999 : r.uni(0.5, 1)});
		}
		size_t maxp = c.n(60, 160);
		while(points.size() > maxp) { points.erase(points.begin() + static_cast<long>(r.below(points.size()))); }
		for(auto& p : points)
		{
			std::string d1 = fresh_dir(dir), base = d1 + "/st";
			start(base);
			c.set_desc(desc + fmt(", dies at call %ld of %ld %s", p.first, total, p.second < 0 ? "before it" : (p.second > 1 ? "after it" : fmt("after %.3f of the bytes", p.second).c_str())));
			sh->acked = static_cast<long>(pre);
			pid_t pid = fork();
			if(pid == 0)
			{
				faults::state& s = faults::S();
				s = faults::state();
				s.root = d1;
				s.m = faults::crash;
				s.at = p.first;
				s.part = p.second > 1 ? -1 : p.second;
				s.after = p.second > 1;
				int q = record(base, pre, pre > 0, true);
				_exit(q);
			}
			int status = 0;
			waitpid(pid, &status, 0);
			if(!WIFEXITED(status) || (WEXITSTATUS(status) != 42 && WEXITSTATUS(status) != 0)) { c.violation("recording-failed", fmt("recording process ended with status %d", status)); wipe(d1); continue; }
			c.ev(WEXITSTATUS(status) == 42 ? "crashes" : "survived");
			size_t acked = static_cast<size_t>(sh->acked);
			c.seen(desc + fmt("%ld %g", p.first, p.second));
			// first reader
			auto verify = [&](const std::vector<frame>& want, size_t must, const char* when) -> long
			{
				nbody_data_stream_reader rd;
				if(rd.load(QString::fromStdString(base)) != 0)
				{
					c.check(must == 0, std::string("unreadable-") + when, fmt("%zu frames were recorded successfully but the stream can not be loaded", must));
					return -1;
				}
				size_t fc = rd.get_frame_count();
				c.check(fc >= must, std::string("lost-") + when, fmt("%zu frames were recorded successfully, the stream has %zu", must, fc));
				c.check(fc <= want.size(), std::string("extra-") + when, fmt("the stream has %zu frames, at most %zu were begun", fc, want.size()));
				size_t last_ok = 0;
				for(size_t i = 0; i < fc && i < want.size(); ++i)
				{
					nbody_data d;
					scramble(d, n, r);
					int q = rd.seek(i) == 0 ? rd.read(&d) : -1;
					c.ev("frames read back");
					if(q != 0) { c.check(i >= must, std::string("frame-unreadable-") + when, fmt("frame %zu of %zu recorded can not be read", i, must)); continue; }
					std::string e = differs(d, want[i]);
					c.check(e.empty(), std::string("frame-damaged-") + when, fmt("frame %zu (%zu recorded): %s", i, must, e.c_str()));
					last_ok = i + 1;
				}
				return static_cast<long>(last_ok);
			};
			std::vector<frame> begun(fr.begin(), fr.begin() + std::min(cnt, acked + 1));
			long have = verify(begun, acked, "after-crash");
			if(have > 0)
			{
				// append two more frames to whatever the reader accepts
				nbody_data_stream_reader rd;
				bool ok = rd.load(QString::fromStdString(base)) == 0 && rd.get_frame_count() <= cnt;
				size_t fc = rd.get_frame_count();
				nbody_data_stream w;
				nbody_data d;
				ok = ok && c.check(w.open(QString::fromStdString(base), limit, &rd) == 0, "append-open", "the stream can not be opened to append");
				if(ok)
				{
					std::vector<frame> want(fr.begin(), fr.begin() + fc);
					for(size_t i = 0; i < 2; ++i)
					{
						fr[fc + i].to(d);
						c.check(w.write(&d) == 0, "append-write", "frame can not be appended");
						want.push_back(fr[fc + i]);
					}
					w.close();
					verify(want, want.size(), "after-append");
					c.ev("appends");
				}
			}
			wipe(d1);
		}
		c.sample(desc + fmt(", %ld calls, %zu crash points", total, points.size()));
		wipe(dir);
	}
	return c.done();
}
