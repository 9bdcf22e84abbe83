// C17/C18: sessions of writing (also with reused writers), then the files as an outsider sees them
// (argument "layout") or through readers with arbitrary seeks, repeated reads and reuse.
#include "stream.h"
using namespace nb;

struct written { std::string dir, base; std::vector<frame> f; long long limit; bool reopened; };

int main(int argc, char** argv)
{
	context c(argc, argv);
	bool layout = c.arg == "layout";
	rng r(0);
	for(size_t k = 0; k < c.n(800, 30000); ++k)
	{
		if(!c.begin("session", r)) { continue; }
		std::vector<written> st;
		size_t nst = r.range(1, 3);
		std::string dir = fresh_dir(c.scratch), text;
		bool one_writer = r.chance(0.5);
		std::unique_ptr<nbody_data_stream> w(new nbody_data_stream);
		bool ok = true;
		for(size_t s = 0; s < nst && ok; ++s)
		{
			written x;
			size_t n = r.chance(0.1) ? r.range(300, 900) : (r.chance(0.2) ? 1 : r.range(1, 40)), count = r.range(1, 14);
			x.f = make_frames(r, n, count);
			x.base = dir + (r.chance(0.3) ? fmt("/sub%zu/deep/st", s) : fmt("/st%zu_", s));
			long long fsz = 48 * static_cast<long long>(n);
			switch(r.below(6))
			{
			case 0: x.limit = 0; break;
			case 1: x.limit = -static_cast<long long>(r.range(1, 100)); break;
			case 2: x.limit = 1; break;
			case 3: x.limit = fsz * static_cast<long long>(r.range(1, 4)) + static_cast<long long>(r.range(0, 2)) - 1; break;	// around a frame border
			case 4: x.limit = static_cast<long long>(r.range(1, fsz * 5)); break;
			default: x.limit = 1 << 30;
			}
			text += fmt("[%zu bodies %zu frames limit %lld] ", n, count, x.limit);
			c.set_desc(text);
			if(!one_writer || r.chance(0.2)) { w.reset(new nbody_data_stream); }
			if(r.chance(0.2))	// an older, longer stream of the same name
			{
				auto old = make_frames(r, r.range(1, 50), r.range(1, 20));
				nbody_data_stream o;
				nbody_data d;
				ok = ok && c.check(o.open(QString::fromStdString(x.base), r.range(1, 3000)) == 0, "open", "can't open");
				for(auto& f : old) { f.to(d); ok = ok && c.check(o.write(&d) == 0, "write", "can't write"); }
				c.ev("overwritten streams");
			}
			if(one_writer && s && r.chance(0.5)) { w->close(); }
			ok = ok && c.check(w->open(QString::fromStdString(x.base), x.limit) == 0, "open", "can't open " + x.base);
			// part of the frames may be added by a second session
			size_t cut = r.chance(0.5) ? r.range(1, count) : count;
			nbody_data d;
			for(size_t i = 0; i < count && ok; ++i)
			{
				if(i == cut)
				{
					w->close();
					nbody_data_stream_reader rd;
					ok = c.check(rd.load(QString::fromStdString(x.base)) == 0, "load", "can't load to append");
					if(!r.chance(0.5)) { w.reset(new nbody_data_stream); }
					ok = ok && c.check(w->open(QString::fromStdString(x.base), x.limit, &rd) == 0, "append", "can't open to append");
					c.ev("appended sessions");
					if(!ok) { break; }
				}
				if(r.chance(0.3)) { nbody_data fresh; x.f[i].to(fresh); ok = c.check(w->write(&fresh) == 0, "write", "can't write"); }
				else { x.f[i].to(d); ok = c.check(w->write(&d) == 0, "write", "can't write"); }
				c.ev("frames");
			}
			if(r.chance(0.5)) { w->close(); }	// otherwise read while the writer still has it open
			st.push_back(x);
		}
		if(!ok) { wipe(dir); continue; }
		if(layout)
		{
			for(auto& x : st)
			{
				raw_stream rs(x.base);
				size_t n = x.f[0].size();
				long long fsz = 48 * static_cast<long long>(n);
				c.check(rs.error.empty() && !rs.torn, "index-format", rs.error + (rs.torn ? " unterminated line" : ""));
				c.check(rs.head["coord_size"] == "8", "header-coord", "coord_size " + rs.head["coord_size"]);
				c.check(rs.head["body_count"] == fmt("%zu", n), "header-count", "body_count " + rs.head["body_count"] + fmt(" for %zu bodies", n));
				c.check(rs.head["box_size"] == fmt("%zu", x.f[0].box), "header-box", "box_size " + rs.head["box_size"] + fmt(" for %zu", x.f[0].box));
				c.check(rs.head_order.size() == 3, "header-lines", fmt("%zu header lines", rs.head_order.size()));
				c.check(slurp(x.base + ".mass") == x.f[0].masses(), "mass-file", "mass file differs from the masses");
				c.check(slurp(x.base + ".col") == x.f[0].colours(), "colour-file", "colour file differs from the colours");
				if(!c.check(rs.lines.size() == x.f.size(), "line-count", fmt("%zu index lines for %zu frames", rs.lines.size(), x.f.size()))) { continue; }
				long part = 0;
				long long pos = 0;
				std::map<long, std::string> files;
				for(size_t i = 0; i < x.f.size(); ++i)
				{
					if(x.limit > 0 && pos >= x.limit) { ++part; pos = 0; c.ev("part changes"); }
					const idx_line& l = rs.lines[i];
					c.check(l.part == part && l.off == pos, "placement", fmt("frame %zu at part %ld offset %lld, expected part %ld offset %lld (limit %lld, frame size %lld)", i, l.part, l.off, part, pos, x.limit, fsz));
					c.check(l.step == x.f[i].step && time_close(l.time, x.f[i].time), "index-clock", fmt("frame %zu indexed as step %zu time %s, is step %zu time %.17g", i, l.step, l.time_text.c_str(), x.f[i].step, x.f[i].time));
					if(!files.count(l.part)) { files[l.part] = slurp(raw_stream::part(x.base, l.part)); }
					const std::string& t = files[l.part];
					c.check(l.off >= 0 && t.size() >= size_t(l.off + fsz) && t.compare(size_t(l.off), size_t(fsz), x.f[i].raw()) == 0, "content", fmt("part %ld offset %lld does not hold frame %zu", l.part, l.off, i));
					pos += fsz;
				}
				// parts hold nothing but the frames
				std::map<long, long long> sz;
				for(auto& l : rs.lines) { sz[l.part] += fsz; }
				for(auto& f : files) { c.check(static_cast<long long>(f.second.size()) == sz[f.first], "part-size", fmt("part %ld has %zu bytes for %lld bytes of frames", f.first, f.second.size(), sz[f.first])); }
				c.seen(fmt("%zu %zu %lld", n, x.f.size(), x.limit));
			}
			c.sample(text);
			wipe(dir);
			continue;
		}
		// ---- readers
		size_t nrd = r.range(1, 2);
		std::unique_ptr<nbody_data_stream_reader> rd(new nbody_data_stream_reader);
		std::vector<std::unique_ptr<nbody_data>> dst;
		std::string hist;
		for(size_t q = 0; q < nrd + 2 && ok; ++q)
		{
			if(r.chance(0.3)) { rd.reset(new nbody_data_stream_reader); }
			const written& x = st[r.below(st.size())];
			size_t n = x.f[0].size(), cnt = x.f.size();
			if(r.chance(0.2)) { rd->close(); }
			if(r.chance(0.2)) { c.check(rd->load(QString::fromStdString(dir + "/nothing")) != 0, "load-missing", "loading a missing stream succeeds"); c.check(rd->get_frame_count() == 0 && rd->seek(0) != 0, "after-failed-load", "a reader without stream offers frames"); }
			if(!c.check(rd->load(QString::fromStdString(x.base)) == 0, "load", "can't load " + x.base)) { break; }
			c.check(rd->get_frame_count() == cnt, "frame-count", fmt("%zu frames instead of %zu", rd->get_frame_count(), cnt));
			c.check(rd->get_body_count() == n && rd->get_coord_size() == 8 && rd->get_box_size() == nbcoord_t(x.f[0].box), "header", fmt("header says %zu bodies, coordinate size %zu, box %g", rd->get_body_count(), rd->get_coord_size(), rd->get_box_size()));
			c.check(rd->get_steps_count() == x.f.back().step && time_close(rd->get_max_time(), x.f.back().time), "end", fmt("stream ends at step %zu time %.17g, last frame is step %zu time %.17g", rd->get_steps_count(), rd->get_max_time(), x.f.back().step, x.f.back().time));
			size_t cur = 0;
			size_t ops = r.range(1, 3 * cnt + 6);
			nbody_data keep;
			scramble(keep, n, r);
			hist.clear();
			for(size_t o = 0; o < ops; ++o)
			{
				switch(r.below(5))
				{
				case 0:
				{
					size_t to = r.chance(0.15) ? cur : (r.chance(0.2) ? cnt - 1 : r.below(cnt));
					hist += fmt(" s%zu", to);
					c.set_desc(text + "ops" + hist.substr(hist.size() > 200 ? hist.size() - 200 : 0));
					c.check(rd->seek(to) == 0, "seek", fmt("seek to %zu failed", to));
					cur = to;
					c.check(rd->get_current_frame() == to, "current", fmt("current frame %zu after seek to %zu", rd->get_current_frame(), to));
					c.ev("seeks");
					break;
				}
				case 1:
					if(r.chance(0.4))
					{
						size_t to = cnt + r.below(5);
						hist += fmt(" s%zu!", to);
						c.check(rd->seek(to) != 0, "seek-range", fmt("seek to %zu of %zu frames succeeds", to, cnt));
						c.ev("invalid seeks");
					}
					else if(r.chance(0.3))
					{
						nbody_data wrong;
						wrong.resize(n + 1 + r.below(3));
						hist += " r!";
						c.check(rd->read(&wrong) != 0, "read-count", "read into a data set of another size succeeds");
						c.check(rd->read(nullptr) != 0, "read-null", "read into nothing succeeds");
					}
					break;
				default:
				{
					nbody_data other;
					bool use_keep = r.chance(0.5);
					if(!use_keep) { scramble(other, n, r); }
					nbody_data& d = use_keep ? keep : other;
					hist += " r";
					c.set_desc(text + "ops" + hist.substr(hist.size() > 200 ? hist.size() - 200 : 0));
					if(!c.check(rd->read(&d) == 0, "read", fmt("reading frame %zu of %zu fails", cur, cnt))) { break; }
					std::string e = differs(d, x.f[cur]);
					c.check(e.empty(), "content:" + e.substr(0, e.find_first_of("0123456789")), fmt("frame %zu of %zu: %s", cur, cnt, e.c_str()));
					c.check(d.get_box_size() == x.f[cur].box, "box", fmt("box %zu instead of %zu", d.get_box_size(), x.f[cur].box));
					c.ev("reads");
					if(cur + 1 < cnt) { ++cur; }
				}
				}
			}
			c.seen(fmt("%zu %zu %lld ", n, cnt, x.limit) + hist);
		}
		c.sample(text + hist.substr(0, 80));
		wipe(dir);
	}
	return c.done();
}
