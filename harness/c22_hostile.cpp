// C22: streams whose files hold arbitrary bytes.  An independent parser says which reads may succeed
// and what they have to deliver; everything runs under the sanitizers.
#include "stream.h"
#include <QString>
using namespace nb;

static std::string mutate(const std::string& t, rng& r, bool text)
{
	std::string s = t;
	size_t n = r.range(1, 3);
	for(size_t i = 0; i < n; ++i)
	{
		switch(r.below(text ? 10 : 5))
		{
		case 0: if(!s.empty()) { s.resize(r.below(s.size())); } break;	// truncated
		case 1: if(!s.empty()) { s[r.below(s.size())] = char(r.next()); } break;
		case 2: if(!s.empty()) { size_t a = r.below(s.size()); s.erase(a, r.range(1, 40)); } break;
		case 3: s.insert(r.below(s.size() + 1), std::string(r.range(1, 20), char(r.next()))); break;
		case 4: s += std::string(r.range(1, 200), char(r.next())); break;
		default:
		{
			static const std::vector<std::string> tok = {"-1", "0", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "nan", "inf", "1e400", "1e-400", "", " ", "\t", "#", "#body_count 0\n",
				"#body_count 1\n", "#body_count 18446744073709551615\n", "#body_count 100000000000\n", "#coord_size 8\n", "#box_size 99999999999999999999\n", "\r\n", "\n\n", "0x10", "1.5", "+3", "1e3", "999999", "\0", "\xff\xfe", "00000000000000000001", "abc", "none"};
			// replace a whole token
			size_t a = r.below(s.size() + 1);
			size_t b = s.find_last_of("\t\n ", a), e = s.find_first_of("\t\n ", a);
			b = b == std::string::npos ? 0 : b + 1;
			if(e == std::string::npos || e < b) { e = s.size(); }
			if(b > s.size()) { b = s.size(); }
			s.replace(b, e > b ? e - b : 0, r.pick(tok));
		}
		}
	}
	return s;
}

//! Value of the last plain header line of that name; -1 if there is none, -2 if a line is not plain enough to judge
static long long header_value(const std::string& base, const std::string& name)
{
	std::string t = slurp(base + ".idx");
	if(t.find_first_of(std::string("\0\r\xff\xfe", 4)) != std::string::npos) { return -2; }
	t.resize(t.rfind('\n') == std::string::npos ? 0 : t.rfind('\n') + 1);
	long long v = -1;
	std::stringstream s(t);
	for(std::string l; std::getline(s, l);)
	{
		if(l.compare(0, name.size() + 2, "#" + name + " ") != 0) { continue; }
		std::string x = l.substr(name.size() + 2);
		if(x.empty() || x.find_first_not_of("abcdefghijklmnopqrstuvwxyz") == std::string::npos) { continue; }	// no number at all
		if(x.find_first_not_of("0123456789") != std::string::npos || x.size() > 15) { return -2; }
		v = atoll(x.c_str());
	}
	return v;
}

int main(int argc, char** argv)
{
	context c(argc, argv);
	rng r(0);
	for(size_t k = 0; k < c.n(3000, 100000); ++k)
	{
		if(!c.begin("hostile", r)) { continue; }
		std::string dir = fresh_dir(c.scratch), base = dir + "/st";
		size_t n = r.range(1, 12), cnt = r.range(1, 8);
		auto fr = make_frames(r, n, cnt);
		nbody_data d;
		std::string what;
		{
			nbody_data_stream w;
			if(!c.check(w.open(QString::fromStdString(base), r.chance(0.3) ? 0 : static_cast<qint64>(r.range(1, 48 * n * 4))) == 0, "open", "open")) { wipe(dir); continue; }
			for(auto& f : fr) { f.to(d); c.check(w.write(&d) == 0, "write", "write"); }
		}
		auto files = listing(dir);
		bool clean_idx = true, clean_mass = true, clean_col = true;
		std::map<std::string, int> damage;
		size_t nd = r.range(1, 2);
		for(size_t i = 0; i < nd; ++i)
		{
			std::string f = r.chance(0.5) ? "st.idx" : r.pick(files);
			std::string p = dir + "/" + f;
			if(r.chance(0.12)) { unlink(p.c_str()); what += f + " removed; "; }
			else if(r.chance(0.03)) { unlink(p.c_str()); mkdir(p.c_str(), 0700); what += f + " is a directory; "; }
			else if(f == "st.idx" && r.chance(0.1)) { std::string g; size_t len = r.below(600); for(size_t q = 0; q < len; ++q) { g += char(r.next()); } spit(p, g); what += "random index; "; }
			else { std::string t = slurp(p); std::string m = mutate(t, r, f == "st.idx"); spit(p, m); what += f + fmt(" %zu->%zu bytes; ", t.size(), m.size()); }
			++damage[f];
			clean_idx = clean_idx && f != "st.idx";
			clean_mass = clean_mass && f != "st.mass";
			clean_col = clean_col && f != "st.col";
		}
		c.set_desc(fmt("%zu bodies %zu frames: ", n, cnt) + what);
		raw_stream rs(base);
		nbody_data_stream_reader rd;
		int rc = rd.load(QString::fromStdString(base));
		c.ev(rc == 0 ? "loaded" : "rejected");
		// the data parts as they are now
		std::map<long, std::string> part;
		for(auto& l : rs.lines) { if(!part.count(l.part)) { part[l.part] = slurp(raw_stream::part(base, l.part)); } }
		std::string mass = slurp(base + ".mass"), col = slurp(base + ".col");
		if(clean_idx)
		{
			// only parts, colours or masses are damaged: exactly the frames not stored completely are unreadable
			bool first_ok = is_file(raw_stream::part(base, 0));
			if(first_ok) { c.check(rc == 0, "rejected-good-index", "a stream with intact index and first part is rejected"); }
			c.ev("intact index");
		}
		if(rc == 0)
		{
			size_t fc = rd.get_frame_count(), bc = rd.get_body_count();
			if(clean_idx) { c.check(fc == cnt && bc == n, "counts", fmt("%zu frames of %zu bodies", fc, bc)); }
			c.check(bc > 0 && rd.get_coord_size() == 8, "accepted-header", fmt("accepted header: %zu bodies, coordinate size %zu", bc, rd.get_coord_size()));
			// header values: the last line of that name that is a number
			long long want_box = header_value(base, "box_size"), want_count = header_value(base, "body_count");
			if(want_box != -2) { c.check(want_box >= 0 && double(rd.get_box_size()) == double(want_box), "header-box", fmt("box %g, index says %lld", double(rd.get_box_size()), want_box)); }
			if(want_count != -2) { c.check(want_count > 0 && bc == size_t(want_count), "header-count", fmt("%zu bodies, index says %lld", bc, want_count)); }
			if(bc <= 100000)
			{
				size_t ops = r.range(1, 12);
				for(size_t o = 0; o < ops; ++o)
				{
					size_t f = r.below(fc + (r.chance(0.2) ? 2 : 0));
					int s = rd.seek(f);
					c.ev("seeks");
					c.check(f < fc || s != 0, "seek-range", "seek behind the last frame succeeds");
					if(s == 0) { c.check(rd.get_current_frame() == f, "current", "current frame"); }
					nbody_data dst;
					scramble(dst, bc, r);
					std::vector<nbcolor_t> c0(dst.get_color(), dst.get_color() + bc);
					size_t at = rd.get_current_frame();
					int q = rd.read(&dst);
					c.ev(q == 0 ? "reads" : "refused reads");
					// which index line is this frame? (independent parser; lines that Qt and strtod read differently are not judged)
					bool known = fc == rs.lines.size() && rs.error.empty() && at < fc;
					if(known)
					{
						const idx_line& l = rs.lines[at];
						const std::string& p = part[l.part];
						size_t len = 48 * bc;
						bool have = l.part >= 0 && is_file(raw_stream::part(base, l.part)) && l.off >= 0 && size_t(l.off) <= p.size() && p.size() - size_t(l.off) >= len;
						bool mass_ok = mass.size() >= 8 * bc;
						if(q == 0)
						{
							std::string got(reinterpret_cast<const char*>(dst.get_vertites()), 24 * bc);
							got.append(reinterpret_cast<const char*>(dst.get_velosites()), 24 * bc);
							c.check(have, "invented-frame", fmt("frame %zu read although part %ld (%zu bytes) has no complete frame at %lld", at, l.part, p.size(), l.off));
							if(have) { c.check(p.compare(size_t(l.off), len, got) == 0, "wrong-bytes", fmt("frame %zu does not hold the bytes at part %ld offset %lld", at, l.part, l.off)); }
							c.check(mass_ok, "invented-masses", fmt("frame %zu read although the mass file has %zu bytes for %zu bodies", at, mass.size(), bc));
							if(mass_ok) { c.check(memcmp(mass.data(), dst.get_mass(), 8 * bc) == 0, "wrong-masses", "masses differ from the mass file"); }
							if(col.size() >= sizeof(nbcolor_t) * bc) { c.check(memcmp(col.data(), dst.get_color(), sizeof(nbcolor_t) * bc) == 0, "wrong-colours", "colours differ from the colour file"); }
							else { c.check(memcmp(c0.data(), dst.get_color(), sizeof(nbcolor_t) * bc) == 0, "invented-colours", fmt("the colour file has %zu bytes for %zu bodies, but the colours were changed", col.size(), bc)); }
							c.check(double(dst.get_box_size()) == double(rd.get_box_size()), "box", fmt("frame has box %zu, stream %g", dst.get_box_size(), double(rd.get_box_size())));
							if(clean_idx) { c.check(dst.get_step() == fr[at].step && time_close(dst.get_time(), fr[at].time), "clock", "step or time of another frame"); }
						}
						else if(have && mass_ok && s == 0) { c.check(col.size() < sizeof(nbcolor_t) * bc, "lost-frame", fmt("frame %zu is completely stored but can not be read", at)); }
					}
					else { c.ev("not judged"); }
				}
			}
			else { nbody_data z; z.resize(3); c.check(rd.read(&z) != 0, "count", "read into a data set of another size"); }
		}
		else
		{
			nbody_data z;
			z.resize(n);
			c.check(rd.get_frame_count() == 0 && rd.seek(0) != 0 && rd.read(&z) != 0, "after-failed-load", "a reader whose load failed offers frames");
		}
		c.seen(what);
		c.sample(what + (rc == 0 ? "loaded" : "rejected"));
		wipe(dir);
	}
	// huge body counts must not end the program
	for(int k = 0; k < 6; ++k)
	{
		if(!c.begin("resize", r)) { continue; }
		nbody_data d;
		size_t n = k < 3 ? (size_t(1) << (60 + k)) : ~size_t(0) - size_t(k) * 1000;
		c.set_desc(fmt("resize to %zu", n));
		d.resize(3);
		bool ok = d.resize(n);
		c.check(!ok && d.get_count() <= 3, "resize", "impossible size accepted");
	}
	return c.done();
}
