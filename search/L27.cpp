// L27: memory_file over real files in a scratch directory
#include "common.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <lexertl/memory_file.hpp>
using namespace vp;
static std::string dir; static int nfd() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n - 1; }
// pages of the scratch files that are still mapped
static size_t pages() { std::ifstream f("/proc/self/maps"); std::string l; size_t n = 0; while (std::getline(f, l)) if (l.find(dir) != std::string::npos) { unsigned long a, b; if (sscanf(l.c_str(), "%lx-%lx", &a, &b) == 2) n += (b - a) / 4096; } return n; }
struct file { std::string path; std::string bytes; bool ok; };
static std::vector<file> fs;
template<typename CT> static void one(const char* nm) {
    int fd0 = nfd(); std::ostringstream ds; ds << nm << ":"; int opens = 0; bool bad = false;
    {
        std::unique_ptr<lexertl::basic_memory_file<CT>> m; const file* curf = nullptr;
        auto ck = [&]() {
            std::string d = ds.str(); cur(d); bool has = curf && curf->ok && !curf->bytes.empty(); size_t n = has ? curf->bytes.size() / sizeof(CT) : 0;
            if ((m->data() != nullptr) != has) { fail("null", d + " data() is " + (has ? "null" : "not null")); bad = true; return; }
            if (m->size() != n) { fail("size", d + " size() is " + std::to_string(m->size())); bad = true; return; }
            if (has && memcmp(m->data(), curf->bytes.data(), n * sizeof(CT)) != 0) { fail("bytes", d + " bytes differ"); bad = true; return; }
            size_t want = has ? (curf->bytes.size() + 4095) / 4096 : 0, got = pages(); if (want != got) { fail("mapping", d + " pages mapped: " + std::to_string(got) + " expected " + std::to_string(want)); bad = true; return; }
            int h = nfd() - fd0; if (h > 1 || (!curf && h != 0)) { fail("handles", d + " open handles: " + std::to_string(h)); bad = true; return; }
        };
        if (chance(50)) { curf = &fs[rnd(fs.size())]; ds << " construct(" << curf->bytes.size() << (curf->ok ? "" : " missing") << ")"; m = std::make_unique<lexertl::basic_memory_file<CT>>(curf->path.c_str()); ++opens; } else { ds << " default"; m = std::make_unique<lexertl::basic_memory_file<CT>>(); }
        ck(); int k = (int)rnd(6); for (int i = 0; i < k && !bad; ++i) { if (chance(25)) { ds << " close"; m->close(); curf = nullptr; } else { curf = &fs[rnd(fs.size())]; ds << " open(" << curf->bytes.size() << (curf->ok ? "" : " unreadable") << ")"; m->open(curf->path.c_str()); ++opens; } ck(); }
    }
    eval(ds.str(), opens > 1); if (C().samples < 3) sample(ds.str()); if (bad) return;
    if (pages()) fail("leak", ds.str() + " destroyed: a mapping is left"); if (nfd() != fd0) fail("fdleak", ds.str() + " destroyed: a handle is left");
}
int main(int argc, char** argv) {
    init(argc, argv); char t[] = "/tmp/vpl27XXXXXX"; if (!mkdtemp(t)) return 2; dir = t;
    for (size_t n : {0, 1, 2, 3, 4, 5, 7, 100, 4093, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 40001}) { file f; f.path = dir + "/f" + std::to_string(n); f.ok = true; for (size_t i = 0; i < n; ++i) f.bytes += (char)rnd(256); std::ofstream(f.path, std::ios::binary) << f.bytes; fs.push_back(f); }
    fs.push_back({dir + "/missing", "", false}); fs.push_back({dir, "", false}); fs.push_back(fs[0]);
    while (timeleft() && !toomany()) { one<char>("char"); one<wchar_t>("wchar_t"); one<char32_t>("char32_t"); }
    for (auto& f : fs) if (f.path != dir) unlink(f.path.c_str()); rmdir(dir.c_str());
    return finish();
}
