// Common part of the monitors: case bookkeeping, event counters, violation reports.
//
// A harness is a program `NAME --seed S --tier quick|thorough --out FILE [--start K] [--only K]`.
// It runs numbered cases.  Before a case runs its number and description are stored in a small
// file mapped into memory, so that the driver knows which case a crash or hang belongs to.
// Results are JSON lines appended to FILE.
#ifndef MON_H
#define MON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace mon {

struct rng
{
	uint64_t s;
	explicit rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
	uint64_t next()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	size_t range(size_t a, size_t b) { return a + below(b - a + 1); }	// inclusive
	double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * uni(); }
	double logu(double a, double b) { return a * std::pow(b / a, uni()); }
	double normal() { double s = 0; for(int i = 0; i < 12; ++i) { s += uni(); } return s - 6; }
	bool chance(double p) { return uni() < p; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline std::string esc(const std::string& s)
{
	std::string r;
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else { r += c; }
	}
	return r;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
	char b[2048];
	va_list ap;
	va_start(ap, f);
	vsnprintf(b, sizeof(b), f, ap);
	va_end(ap);
	return b;
}

struct context
{
	uint64_t seed = 1, scale = 1;
	bool thorough = false;
	long start = 0, only = -1, shard = 0, shards = 1;
	FILE* out = nullptr;
	char* cur = nullptr;
	std::string scratch = ".";
	std::string arg;
	long index = -1;
	std::string desc;
	std::map<std::string, uint64_t> events;
	std::map<std::string, int> viol_count;
	std::set<uint64_t> distinct;
	uint64_t cases = 0;
	int nsamples = 0;

	context(int argc, char** argv)
	{
		std::string outf = "/dev/stdout", curf;
		for(int i = 1; i + 1 < argc; i += 2)
		{
			std::string k = argv[i], v = argv[i + 1];
			if(k == "--seed") { seed = strtoull(v.c_str(), 0, 10); }
			else if(k == "--tier") { thorough = v == "thorough"; }
			else if(k == "--start") { start = atol(v.c_str()); }
			else if(k == "--only") { only = atol(v.c_str()); }
			else if(k == "--out") { outf = v; }
			else if(k == "--cur") { curf = v; }
			else if(k == "--scratch") { scratch = v; }
			else if(k == "--scale") { scale = strtoull(v.c_str(), 0, 10); }
			else if(k == "--arg") { arg = v; }
			else if(k == "--shard") { sscanf(v.c_str(), "%ld/%ld", &shard, &shards); }
		}
		out = fopen(outf.c_str(), "a");
		setvbuf(out, nullptr, _IOLBF, 0);
		if(!curf.empty())
		{
			int fd = open(curf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
			if(ftruncate(fd, 8192) == 0)
			{
				cur = static_cast<char*>(mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
			}
			close(fd);
		}
	}
	//! Size of the quick or the thorough campaign; the quick one of a cheap check may be scaled up to the thorough one
	size_t n(size_t quick, size_t thor) const { return thorough ? thor : scale > 1 && quick < thor ? std::min<size_t>(quick * scale, thor) : quick; }
	//! Announce a case. Its random numbers depend only on the seed and the case number.
	bool begin(const std::string& d, rng& r)
	{
		++index;
		desc = d;
		r = rng(seed * 1000003ull + static_cast<uint64_t>(index) * 7919ull + 17);
		if(only >= 0 ? index != only : (index < start || index % shards != shard))
		{
			return false;
		}
		set_desc(d);
		++cases;
		return true;
	}
	void set_desc(const std::string& d)
	{
		desc = d;
		if(cur)
		{
			snprintf(cur, 8192, "%ld\n%s\n", index, desc.c_str());
		}
	}
	void ev(const std::string& k, uint64_t c = 1) { events[k] += c; }
	void seen(uint64_t h) { distinct.insert(h); }
	void seen(const std::string& s) { seen(std::hash<std::string>()(s)); }
	void sample(const std::string& s)
	{
		if(nsamples < 4)
		{
			++nsamples;
			fprintf(out, "{\"type\":\"sample\",\"text\":\"%s\"}\n", esc(desc + ": " + s).c_str());
		}
	}
	void violation(const std::string& key, const std::string& msg)
	{
		if(++viol_count[key] > 3)
		{
			return;
		}
		fprintf(out, "{\"type\":\"violation\",\"key\":\"%s\",\"case\":%ld,\"desc\":\"%s\",\"msg\":\"%s\"}\n",
				esc(key).c_str(), index, esc(desc).c_str(), esc(msg).c_str());
		fflush(out);
	}
	bool check(bool ok, const std::string& key, const std::string& msg)
	{
		ev("checks");
		if(!ok)
		{
			violation(key, msg);
		}
		return ok;
	}
	//! Flush counters (also called between batches, so a later crash loses little)
	void flush()
	{
		fprintf(out, "{\"type\":\"counters\",\"cases\":%llu,\"events\":{", (unsigned long long)cases);
		bool first = true;
		for(auto& e : events)
		{
			fprintf(out, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second);
			first = false;
		}
		fprintf(out, "},\"distinct\":[");
		first = true;
		for(uint64_t h : distinct)
		{
			fprintf(out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
			first = false;
		}
		fprintf(out, "]}\n");
		fflush(out);
		cases = 0;
		events.clear();
		distinct.clear();
	}
	int done()
	{
		flush();
		fprintf(out, "{\"type\":\"done\",\"last\":%ld}\n", index);
		fflush(out);
		return 0;
	}
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char* c = static_cast<const unsigned char*>(p);
	for(size_t i = 0; i < n; ++i)
	{
		h ^= c[i];
		h *= 1099511628211ull;
	}
	return h;
}

} // namespace mon
#endif
