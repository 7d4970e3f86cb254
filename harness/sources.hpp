// Every kind of data source over the same bytes, and a source of our own which notices any access outside the data.
#pragma once
#include "util.hpp"
#include <fstream>
#include <unistd.h>
namespace fg = fastgltf;
namespace fs = std::filesystem;

// A scratch directory of this process.
struct Scratch {
	fs::path dir;
	Scratch() { static unsigned n = 0; dir = fs::temp_directory_path() / ("mc-" + std::to_string(getpid()) + "-" + std::to_string(n++)); fs::remove_all(dir); fs::create_directories(dir); }
	~Scratch() { std::error_code ec; fs::remove_all(dir, ec); }
	void write(const std::string& name, const std::string& data) const { std::ofstream f(dir / name, std::ios::binary | std::ios::trunc); f.write(data.data(), std::streamsize(data.size())); if (!f.flush()) mc::die("scratch file"); }
};
// Reads are only allowed within the data. Padding beyond it is ours.
struct StrictGetter final : fg::GltfDataGetter {
	const std::string& d; size_t pos = 0; std::string wrong; std::vector<std::unique_ptr<std::byte[]>> keep;
	explicit StrictGetter(const std::string& s) : d(s) {}
	bool ok(size_t n) { if (n <= d.size() - pos) return true; if (wrong.empty()) wrong = mc::fmt("read of %zu at %zu of %zu bytes", n, pos, d.size()); return false; }
	void read(void* p, size_t n) override { if (!ok(n)) { if (n < (1 << 20)) memset(p, 0xEE, n); pos = d.size(); return; } if (n) memcpy(p, d.data() + pos, n); pos += n; }
	fg::span<std::byte> read(size_t n, size_t pad) override {
		if (!ok(n)) { pos = d.size(); n = std::min<size_t>(n, 1 << 20); pad = std::min<size_t>(pad, 1 << 20); keep.emplace_back(new std::byte[n + pad + 1]()); return fg::span<std::byte>(keep.back().get(), n); }
		keep.clear(); keep.emplace_back(new std::byte[n + pad + 1]); if (n) memcpy(keep.back().get(), d.data() + pos, n); memset(keep.back().get() + n, 0x5A, pad); pos += n; return fg::span<std::byte>(keep.back().get(), n);
	}
	void reset() override { pos = 0; }
	size_t bytesRead() override { return pos; }
	size_t totalSize() override { return d.size(); }
};
