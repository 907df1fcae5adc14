// Native side of the harness interface: replays input vectors against the real code and the real
// libraries. One vector per input line ("name#k=value ..."), one forked child per vector, one JSON
// line of result per vector.
#include <sym.h>
#include <FreeImage.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <fstream>
#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

static std::map<std::string, uint64_t> g_in;
static std::map<std::string, unsigned> g_occ;
static std::map<std::string, int64_t> g_params;
static std::vector<std::pair<std::string, uint64_t>> g_obs;
static int g_out = -1;

static std::string esc(const std::string& s)
{
	std::string r;
	for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
	return r;
}
[[noreturn]] static void finish(const char* status, const std::string& msg)
{
	std::string r = std::string("{\"status\":\"") + status + "\",\"msg\":\"" + esc(msg) + "\",\"obs\":[";
	for (size_t i = 0; i < g_obs.size(); ++i)
		r += (i ? ",[\"" : "[\"") + esc(g_obs[i].first) + "\"," + std::to_string(g_obs[i].second) + "]";
	r += "]}\n";
	for (size_t o = 0; o < r.size();)
	{
		ssize_t k = write(g_out, r.data() + o, r.size() - o);
		if (k <= 0) break;
		o += k;
	}
	_exit(0);
}
extern "C" {
uint64_t sym_bits(const char* name, int width)
{
	std::string n = std::string(name) + "#" + std::to_string(g_occ[name]++);
	auto it = g_in.find(n);
	uint64_t v = it == g_in.end() ? 0 : it->second;
	return width >= 64 ? v : v & ((1ull << width) - 1);
}
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi)
{
	std::string n = std::string(name) + "#" + std::to_string(g_occ[name]++);
	auto it = g_in.find(n);
	uint64_t v = it == g_in.end() ? 0 : it->second;
	if (v > hi - lo) v = 0;
	return lo + v;
}
uint64_t sym_concretize(uint64_t v) { return v; }
int64_t sym_param(const char* name, int64_t def) { auto it = g_params.find(name); return it == g_params.end() ? def : it->second; }
void sym_assume(int c) { if (!c) finish("assume", ""); }
void sym_assert(int c, const char* msg) { if (!c) finish("assert", msg); }
void sym_cover(const char*) {}
void sym_observe(const char* name, uint64_t v) { g_obs.push_back({name, v}); }
void sym_end() { finish("ok", ""); }
void sym_print(const char* s, uint64_t v) { fprintf(stderr, "%s %llx\n", s, (unsigned long long)v); }
int sym_and(int a, int b) { return a && b; }
int sym_or(int a, int b) { return a || b; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_is_symbolic(uint64_t) { return 0; }
int sym_mem_ok(const void*, uint64_t) { return 1; }
int sym_is_undef(uint64_t) { return 0; }
int sym_native() { return 1; }
void env_file(const char* path, const void* data, size_t n) { FILE* f = fopen(path, "wb"); if (n) fwrite(data, 1, n, f); fclose(f); }
void env_dir(const char* path) { mkdir(path, 0755); }
void env_write_limit(long n)
{
	signal(SIGXFSZ, SIG_IGN);
	struct rlimit r; getrlimit(RLIMIT_FSIZE, &r);
	r.rlim_cur = n < 0 ? RLIM_INFINITY : (rlim_t)n;
	setrlimit(RLIMIT_FSIZE, &r);
}
long env_file_size(const char* path) { struct stat st; return stat(path, &st) == 0 && S_ISREG(st.st_mode) ? (long)st.st_size : -1; }
void env_file_read(const char* path, void* out, size_t n) { FILE* f = fopen(path, "rb"); if (f) { if (fread(out, 1, n, f)) {} fclose(f); } }
void env_image(const char* path, void* b)
{
	FIBITMAP* bmp = (FIBITMAP*)b;
	FREE_IMAGE_FORMAT f = FIF_TIFF;
	if (!FreeImage_Save(f, bmp, path, TIFF_NONE)) { fprintf(stderr, "env_image failed\n"); finish("error", "env_image"); }
}
void env_threads(unsigned) {}
}

int main(int argc, char** argv)
{
	std::string entry = argv[1];
	int timeout = 20;
	for (int i = 2; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a.compare(0, 8, "--param=") == 0)
		{
			size_t e = a.find('=', 8);
			g_params[a.substr(8, e - 8)] = atoll(a.c_str() + e + 1);
		}
		else if (a.compare(0, 10, "--timeout=") == 0) timeout = atoi(a.c_str() + 10);
	}
	void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
	if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
	char dir[] = "/tmp/symreplay.XXXXXX";
	if (!mkdtemp(dir)) return 2;
	std::string line;
	unsigned idx = 0;
	while (std::getline(std::cin, line))
	{
		std::string sub = std::string(dir) + "/" + std::to_string(idx++);
		mkdir(sub.c_str(), 0755);
		int p[2]; if (pipe(p)) return 2;
		int e[2]; if (pipe(e)) return 2;
		pid_t pid = fork();
		if (pid == 0)
		{
			close(p[0]); close(e[0]);
			g_out = p[1];
			dup2(e[1], 2);
			int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
			if (chdir(sub.c_str())) _exit(3);
			alarm(timeout);
			std::istringstream s(line);
			std::string t;
			while (std::getline(s, t, '\t')) { size_t q = t.rfind('='); if (q == std::string::npos) continue; g_in[t.substr(0, q)] = strtoull(t.c_str() + q + 1, nullptr, 10); }
			if (void (*before)() = (void (*)())dlsym(RTLD_DEFAULT, "sym_history")) before();
			fn();
			finish("ok", "");
		}
		close(p[1]); close(e[1]);
		std::string out, err;
		bool po = true, eo = true;
		while (po || eo)
		{
			struct pollfd pf[2] = {{po ? p[0] : -1, POLLIN, 0}, {eo ? e[0] : -1, POLLIN, 0}};
			poll(pf, 2, -1);
			char b[4096];
			if (po && pf[0].revents) { ssize_t k = read(p[0], b, sizeof b); if (k <= 0) po = false; else out.append(b, k); }
			if (eo && pf[1].revents) { ssize_t k = read(e[0], b, sizeof b); if (k <= 0) eo = false; else if (err.size() < 200000) err.append(b, k); }
		}
		close(p[0]); close(e[0]);
		int st; waitpid(pid, &st, 0);
		if (!out.empty() && out.back() == '\n') fputs(out.c_str(), stdout);
		else
		{
			std::string m = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
			size_t a = err.find("ERROR:");
			if (a != std::string::npos) m += " " + err.substr(a, 300);
			else m += " " + err.substr(0, 300);
			printf("{\"status\":\"crash\",\"msg\":\"%s\",\"obs\":[]}\n", esc(m).c_str());
		}
		fflush(stdout);
	}
	// Scratch directory of this run only.
	std::string cmd = std::string("rm -rf ") + dir;
	if (strncmp(dir, "/tmp/symreplay.", 15) == 0) return system(cmd.c_str()) ? 2 : 0;
	return 0;
}
