// Simulated storage for ZenKit's FILE*/iostream seams: how much each transfer moves, and which transfer fails, is decided
// by the simulation's choice sequence.
#pragma once
#include "core.hh"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <streambuf>

namespace sim {
	/// The device behind a stream: a byte array plus a transfer policy.
	struct Device {
		Sim* s = nullptr;
		std::vector<std::byte> data;
		size_t pos = 0;
		size_t chunk = SIZE_MAX;      // nominal transfer size
		bool jitter = false;          // vary every transfer in [1, chunk]
		int64_t fail_read_at = -1;    // the n-th read transfer fails (EIO)
		bool fail_sticky = false;     // and every later one, too
		int64_t eof_at = -1;          // reads report end-of-data from this offset on (file truncated under us)
		size_t write_cap = SIZE_MAX;  // full disk: no byte is accepted beyond this size
		uint64_t reads = 0, writes = 0, short_reads = 0;
		bool failed = false;

		size_t limit(size_t n) {
			size_t c = chunk == 0 ? 1 : chunk;
			if (jitter) c = 1 + (size_t) s->below(c > 64 ? 64 : c);
			if (c < n) {
				++short_reads;
				return c;
			}
			return n;
		}
		/// -1: error
		ssize_t read(char* buf, size_t n) {
			int64_t k = (int64_t) reads++;
			if (fail_read_at >= 0 && (k == fail_read_at || (fail_sticky && k > fail_read_at))) {
				failed = true;
				s->fault("read-error(EIO)");
				return -1;
			}
			size_t end = eof_at >= 0 ? std::min(data.size(), (size_t) eof_at) : data.size();
			size_t av = pos < end ? end - pos : 0;
			n = limit(std::min(n, av));
			if (n) memcpy(buf, data.data() + pos, n);
			pos += n;
			return (ssize_t) n;
		}
		ssize_t write(char const* buf, size_t n) {
			++writes;
			size_t room = pos < write_cap ? write_cap - pos : 0;
			if (n > room) {
				if (room == 0) {
					s->fault("full-disk(ENOSPC)");
					failed = true;
					return -1;
				}
				s->fault("short-write");
				n = room;
			}
			n = limit(n);
			if (pos + n > data.size()) data.resize(pos + n);
			memcpy(data.data() + pos, buf, n);
			pos += n;
			return (ssize_t) n;
		}
		bool seek(int64_t off, int whence) {
			int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t) pos : (int64_t) data.size();
			if (base + off < 0) return false;
			pos = (size_t) (base + off);
			return true;
		}
		void policy(Sim& sm) {
			s = &sm;
			switch (sm.below(4)) {
			case 0: chunk = SIZE_MAX; break;
			case 1: chunk = 1 + sm.below(8); break;
			case 2: chunk = 1 + sm.below(64); jitter = true; break;
			default: chunk = 4096; break;
			}
		}
	};

	inline FILE* open_cookie(Device* d, char const* mode, bool unbuffered) {
		cookie_io_functions_t io {};
		io.read = [](void* c, char* b, size_t n) -> ssize_t {
			ssize_t r = ((Device*) c)->read(b, n);
			if (r < 0) errno = EIO;
			return r;
		};
		io.write = [](void* c, char const* b, size_t n) -> ssize_t {
			// fopencookie: 0 reports an error
			size_t done = 0;
			while (done < n) {
				ssize_t r = ((Device*) c)->write(b + done, n - done);
				if (r <= 0) break;
				done += (size_t) r;
			}
			if (done == 0 && n != 0) errno = ENOSPC;
			return (ssize_t) done;
		};
		io.seek = [](void* c, off64_t* o, int w) -> int {
			if (!((Device*) c)->seek(*o, w)) {
				errno = EINVAL;
				return -1;
			}
			*o = (off64_t) ((Device*) c)->pos;
			return 0;
		};
		io.close = [](void*) { return 0; };
		FILE* f = fopencookie(d, mode, io);
		if (unbuffered && f) setvbuf(f, nullptr, _IONBF, 0);
		return f;
	}

	/// Seekable buffered input streambuf over a Device. A failing transfer raises (istream turns it into badbit).
	class InBuf : public std::streambuf {
	public:
		InBuf(Device* d, size_t bufsz) : d(d), b(bufsz ? bufsz : 1) { setg(b.data(), b.data(), b.data()); }

	protected:
		int_type underflow() override {
			if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
			ssize_t n = d->read(b.data(), b.size());
			if (n < 0) throw std::ios_base::failure("simulated read error");
			setg(b.data(), b.data(), b.data() + n);
			if (n == 0) return traits_type::eof();
			return traits_type::to_int_type(*gptr());
		}
		pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
			off_type cur = (off_type) d->pos - (egptr() - gptr());
			off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? cur : (off_type) d->data.size();
			off_type t = base + off;
			if (t < 0) return pos_type(off_type(-1));
			if (dir == std::ios_base::cur && off == 0) return pos_type(cur);
			d->pos = (size_t) t;
			setg(b.data(), b.data(), b.data());
			return pos_type(t);
		}
		pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

	private:
		Device* d;
		std::vector<char> b;
	};

	/// Unbuffered output streambuf over a Device.
	class OutBuf : public std::streambuf {
	public:
		explicit OutBuf(Device* d) : d(d) {}

	protected:
		int_type overflow(int_type c) override {
			if (c == traits_type::eof()) return traits_type::not_eof(c);
			char ch = (char) c;
			return d->write(&ch, 1) == 1 ? c : traits_type::eof();
		}
		std::streamsize xsputn(char const* p, std::streamsize n) override {
			std::streamsize done = 0;
			while (done < n) {
				ssize_t r = d->write(p + done, (size_t) (n - done));
				if (r <= 0) break;
				done += r;
			}
			return done;
		}
		pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
			off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? (off_type) d->pos : (off_type) d->data.size();
			if (base + off < 0) return pos_type(off_type(-1));
			d->pos = (size_t) (base + off);
			return pos_type((off_type) d->pos);
		}
		pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

	private:
		Device* d;
	};
} // namespace sim
