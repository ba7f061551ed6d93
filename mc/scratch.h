// A scratch file in the check's own scratch directory (created and removed by run.py).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
#include <sys/stat.h>
namespace mc {
inline std::string scratch_dir() { const char* s = getenv("MC_SCRATCH"); return s && *s ? s : "."; }
struct TempFile {
	std::string path;
	TempFile() { static int k = 0; path = scratch_dir() + "/f" + std::to_string(getpid()) + "_" + std::to_string(k++); }
	void write(const std::string& s) { FILE* f = fopen(path.c_str(), "wb"); if (!f) abort(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
	std::string read() const { std::string r; FILE* f = fopen(path.c_str(), "rb"); if (!f) return "<no file>"; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
	~TempFile() { remove(path.c_str()); }
	TempFile(const TempFile&) = delete; TempFile& operator=(const TempFile&) = delete;
};
} // namespace mc
// Write faults: while alive, no file of this process can grow beyond `limit` bytes (write fails with EFBIG, as on a full disk).
#include <sys/resource.h>
#include <csignal>
namespace mc {
struct WriteLimit {
	rlimit old;
	explicit WriteLimit(size_t limit) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit n = old; n.rlim_cur = limit; if (setrlimit(RLIMIT_FSIZE, &n)) abort(); }
	~WriteLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};
} // namespace mc
