From 8c2c68e131160750a7692704c8cab692258b5205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:28 +0000
Subject: [PATCH 001/103] fix: make every input stream report its end and stay
 usable after reaching it

The std::istream backend stayed in a failed state after a read hit the end of
the data, which made every later seek and tell fail. The FILE* and std::istream
backends also reported eof() only after reading past the end while the memory
backends report it at the end, so chunked loaders behaved differently depending
on the kind of stream they were given.
---
 src/Stream.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index efedbc2..f721612 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -227,7 +227,11 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return feof(_m_stream);
+				auto c = fgetc(_m_stream);
+				if (c == EOF) return true;
+
+				ungetc(c, _m_stream);
+				return false;
 			}
 
 		private:
@@ -240,7 +244,11 @@ namespace zenkit {
 
 			size_t read(void* buf, size_t len) noexcept override {
 				_m_stream->read(static_cast<char*>(buf), static_cast<long>(len));
-				return static_cast<size_t>(_m_stream->gcount());
+				auto count = static_cast<size_t>(_m_stream->gcount());
+
+				// Running into the end of the data must not disable `seek` and `tell`.
+				if (_m_stream->eof()) _m_stream->clear(_m_stream->rdstate() & std::ios::badbit);
+				return count;
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
@@ -252,7 +260,9 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return _m_stream->eof();
+				if (_m_stream->peek() != std::istream::traits_type::eof()) return false;
+				_m_stream->clear(_m_stream->rdstate() & std::ios::badbit);
+				return true;
 			}
 
 		private:
-- 
2.43.0


From 810d07491baf3e07c6f678fb3ac41536e25df2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:28 +0000
Subject: [PATCH 002/103] fix: report failed writes to a std::ostream instead
 of claiming success

---
 src/Stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index f721612..7bd06fd 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -360,7 +360,7 @@ namespace zenkit {
 
 			size_t write(void const* buf, size_t len) noexcept override {
 				_m_stream->write(static_cast<char const*>(buf), static_cast<long>(len));
-				return len;
+				return _m_stream->good() ? len : 0;
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
-- 
2.43.0


From f342af3f535e2e895af98c951fe8a3bcceccfcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:43 +0000
Subject: [PATCH 003/103] fix: do not terminate when a VFS path continues below
 a file

Vfs::resolve is noexcept but threw std::bad_variant_access (thus terminating
the process) for a path like 'FILE.TEX/X', and Vfs::remove let the same
exception escape instead of returning false.
---
 src/Vfs.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 690a702..98a7df8 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -183,6 +183,9 @@ namespace zenkit {
 				continue;
 			}
 
+			// A file does not have any children.
+			if (context->type() != VfsNodeType::DIRECTORY) return nullptr;
+
 			auto name = path.substr(0, next);
 			context = context->child(name);
 
@@ -533,7 +536,7 @@ namespace zenkit {
 		auto childName = path.substr(lastSlash + 1);
 
 		VfsNode* pNode = this->resolve(parentPath);
-		if (pNode == nullptr) return false;
+		if (pNode == nullptr || pNode->type() != VfsNodeType::DIRECTORY) return false;
 		return pNode->remove(childName);
 	}
 
-- 
2.43.0


From 5c3cba0371ca77504f6b4416f8550b035a9fc322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 004/103] fix: reject VDF volumes with truncated, cyclic or
 out-of-bounds catalogs

A truncated catalog made Vfs::mount_disk loop forever, a directory entry
referring to one of its ancestors made it recurse forever, an entry with
offset + size above 2^32 passed the bounds check and exposed memory outside of
the volume, and nodes mounted from a stream before an error was raised were
left with dangling file data. An empty volume, as written by Vfs::save, can now
be mounted, too.
---
 src/Vfs.cc | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 98a7df8..8436ea9 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -442,8 +442,9 @@ namespace zenkit {
 		auto mem = std::make_unique<std::byte[]>(size);
 		buf->read(mem.get(), size);
 
-		this->mount_disk(mem.get(), size, overwrite);
-		_m_data.push_back(std::move(mem));
+		// Nodes mounted before an error is detected refer to this memory, so it has to be kept in any case.
+		auto& data = _m_data.emplace_back(std::move(mem));
+		this->mount_disk(data.get(), size, overwrite);
 	}
 
 	VfsNode const& Vfs::root() const noexcept {
@@ -627,8 +628,32 @@ namespace zenkit {
 			catalog_offset = r->tell();
 		}
 
-		std::function<bool(VfsNode*)> load_entry =
-		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+		// A volume without any entries does not have a catalog.
+		if (catalog_offset == size) return;
+
+		// Every catalog entry is referenced at most once, otherwise the catalog contains a cycle.
+		constexpr std::uint64_t entry_size = 64 + 4 * 4;
+		std::uint64_t entries_left = size / entry_size;
+
+		auto seek_entry = [&r, size](std::uint64_t offset) {
+			if (offset > size) throw VfsBrokenDiskError {"catalog entry out of bounds"};
+			r->seek(static_cast<ssize_t>(offset), Whence::BEG);
+		};
+
+		std::function<bool(VfsNode*)> load_entry = [&load_entry,
+		                                            &seek_entry,
+		                                            &entries_left,
+		                                            overwrite,
+		                                            catalog_offset,
+		                                            timestamp,
+		                                            zipped,
+		                                            &r,
+		                                            buf,
+		                                            size](VfsNode* parent) {
+			    if (r->tell() + entry_size > size || entries_left-- == 0) {
+				    throw VfsBrokenDiskError {"catalog truncated or cyclic"};
+			    }
+
 			    auto e_name = r->read_string(64);
 			    auto e_offset = r->read_uint();
 			    auto e_size = r->read_uint();
@@ -684,7 +709,7 @@ namespace zenkit {
 				    }
 
 				    auto self_offset = r->tell();
-				    r->seek(catalog_offset + e_offset * 80, Whence::BEG);
+				    seek_entry(catalog_offset + e_offset * entry_size);
 				    while (!load_entry(existing))
 					    ;
 				    r->seek(static_cast<ssize_t>(self_offset), Whence::BEG);
@@ -692,7 +717,7 @@ namespace zenkit {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (e_offset + e_size > size)) {
+				    if (zipped ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
@@ -730,7 +755,7 @@ namespace zenkit {
 			    return last;
 		    };
 
-		r->seek(catalog_offset, Whence::BEG);
+		seek_entry(catalog_offset);
 		while (!load_entry(&_m_root))
 			;
 	}
-- 
2.43.0


From ab1c2df5fe0735699b66dd4f94d654d44f34728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:24 +0000
Subject: [PATCH 005/103] fix: skip empty directories when saving a VDF volume

A directory entry refers to its first child by index. For an empty directory
that index belonged to the entries of another directory, or lay behind the end
of the catalog, so that the saved volume could not be loaded correctly.
---
 src/Vfs.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 8436ea9..d0d66d2 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -225,12 +225,18 @@ namespace zenkit {
 		return const_cast<VfsNode*>(const_cast<Vfs const*>(this)->find(name));
 	}
 
+	/// Volumes can't represent empty directories: each directory entry refers to its first child.
+	static bool is_storable(VfsNode const& node) {
+		if (node.type() == VfsNodeType::FILE) return true;
+		return std::any_of(node.children().begin(), node.children().end(), is_storable);
+	}
+
 	static uint32_t count_nodes(VfsNode const* node) {
 		uint32_t count = 1; /* self */
 
 		if (node->type() == VfsNodeType::DIRECTORY) {
 			for (auto& child : node->children()) {
-				count += count_nodes(&child);
+				if (is_storable(child)) count += count_nodes(&child);
 			}
 		}
 
@@ -328,8 +334,12 @@ namespace zenkit {
 		std::function<void(VfsNode const*)> write_node = [&](VfsNode const* node) {
 			unsigned i = 0;
 			std::vector<std::pair<uint32_t, VfsNode const*>> dirs;
+			auto child_count =
+			    std::count_if(node->children().begin(), node->children().end(), is_storable);
 
 			for (auto& child : node->children()) {
+				if (!is_storable(child)) continue;
+
 				name = child.name();
 				name.resize(64, '\x20');
 
@@ -346,7 +356,7 @@ namespace zenkit {
 
 					write_catalog->write_uint(w->tell()); // Offset
 					write_catalog->write_uint(sz);        // Size (always uncompressed)
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0x40000000 : 0); // Type
+					write_catalog->write_uint(i + 1 == child_count ? 0x40000000 : 0); // Type
 
 #ifdef _ZK_WITH_ZIPPED_VDF
 					if (compressed && !vfs_is_wave_file(child.name())) {
@@ -363,7 +373,7 @@ namespace zenkit {
 					dirs.emplace_back(write_catalog->tell(), &child);
 					write_catalog->write_uint(0);                                                          // Offset
 					write_catalog->write_uint(0);                                                          // Size
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0xC0000000 : 0x80000000); // Type
+					write_catalog->write_uint(i + 1 == child_count ? 0xC0000000 : 0x80000000); // Type
 				}
 
 				write_catalog->write_uint(0); // Attributes
-- 
2.43.0


From f5f60ca36edaac7f6ecffc151ceb8983b5d26772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:47 +0000
Subject: [PATCH 006/103] fix: write the VDF signature last so that an
 interrupted save is detected

The header, including the signature, was written before the catalog. A volume
whose writing was interrupted in between was accepted by Vfs::mount_disk, which
then interpreted file contents as catalog entries.
---
 src/Vfs.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index d0d66d2..0300f18 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -394,14 +394,15 @@ namespace zenkit {
 
 		write_node(&_m_root);
 
-		// Write the header
+		auto off = w->tell();
+		w->seek(static_cast<ssize_t>(header_size), Whence::BEG);
+		w->write(catalog.data(), catalog.size());
+
+		// Write the header. The signature goes last, so that an incomplete volume is not mistaken for a valid one.
 		std::string comment = "Created using ZenKit";
 		comment.resize(256, '\x1A');
 
-		auto off = w->tell();
-		w->seek(0, Whence::BEG);
-		w->write_string(comment);
-		w->write_string(version == GameVersion::GOTHIC_1 ? VFS_DISK_SIGNATURE_G1 : VFS_DISK_SIGNATURE_G2);
+		w->seek(256 + 16, Whence::BEG);
 		w->write_uint(index);
 		w->write_uint(files);
 		w->write_uint(unix_t == 0 ? vfs_unix_to_dos_time(time(nullptr)) : vfs_unix_to_dos_time(unix_t));
@@ -412,8 +413,9 @@ namespace zenkit {
 #else
 		w->write_uint(VFS_VOLUME_FLAG_NORMAL);
 #endif
-		w->seek(static_cast<ssize_t>(header_size), Whence::BEG);
-		w->write(catalog.data(), catalog.size());
+		w->seek(0, Whence::BEG);
+		w->write_string(comment);
+		w->write_string(version == GameVersion::GOTHIC_1 ? VFS_DISK_SIGNATURE_G1 : VFS_DISK_SIGNATURE_G2);
 	}
 
 	void Vfs::mount_disk(std::filesystem::path const& host, VfsOverwriteBehavior overwrite) {
-- 
2.43.0


From 110cd4b1b180bb9ae0a39e796d74c7bfdef4cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:47 +0000
Subject: [PATCH 007/103] fix: store the VDF timestamp in the time zone it is
 read back in

Vfs::mount_disk interprets the DOS timestamp of a volume as local time (and
always as standard time) but Vfs::save wrote it in UTC.
---
 src/Vfs.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 0300f18..8bac77b 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -244,7 +244,7 @@ namespace zenkit {
 	}
 
 	static std::uint32_t vfs_unix_to_dos_time(std::time_t unix_) noexcept {
-		tm t = *gmtime(&unix_);
+		tm t = *localtime(&unix_);
 
 		uint32_t dos = 0;
 		dos |= (t.tm_year - 80) << 25;
@@ -442,6 +442,7 @@ namespace zenkit {
 		t.tm_hour = static_cast<int32_t>((dos >> 11) & 0x1F);
 		t.tm_min = static_cast<int32_t>((dos >> 5) & 0x3F);
 		t.tm_sec = static_cast<int32_t>((dos >> 0) & 0x1F) * 2;
+		t.tm_isdst = -1;
 
 		return mktime(&t);
 	}
-- 
2.43.0


From 0b31a1282907f0a0033c412f3017a7166dd7bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:08 +0000
Subject: [PATCH 008/103] fix: compare host file times and disk times on the
 same clock

Vfs::mount_host stored time stamps relative to the (implementation-defined)
epoch of the file clock, 204 years off the epoch used for disks and new
directories, so the NEWER and OLDER overwrite behaviors always lost or won.
---
 src/Vfs.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 8bac77b..fe8c8fc 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -554,6 +554,16 @@ namespace zenkit {
 		return pNode->remove(childName);
 	}
 
+	/// The epoch of the file clock is implementation-defined, so times need to be converted to be comparable.
+	static std::time_t vfs_host_time(std::filesystem::file_time_type time) {
+#ifdef _MSC_VER
+		auto sys = std::chrono::clock_cast<std::chrono::system_clock>(time);
+#else
+		auto sys = std::chrono::file_clock::to_sys(time);
+#endif
+		return std::chrono::floor<std::chrono::seconds>(sys).time_since_epoch().count();
+	}
+
 	void Vfs::mount_host(std::filesystem::path const& sourcePath,
 	                     std::string_view mountPoint,
 	                     VfsOverwriteBehavior overwrite) {
@@ -563,18 +573,17 @@ namespace zenkit {
 		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
 			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
 				    auto const& path = ref.path();
-				    auto time =
-				        std::chrono::duration_cast<std::chrono::seconds>(ref.last_write_time().time_since_epoch());
+				    auto time = vfs_host_time(ref.last_write_time());
 
 				    if (ref.is_directory()) {
-					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time.count()));
+					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
 					    load_directory(newP, path);
 				    } else if (ref.file_size() > 0) {
 #ifdef _ZK_WITH_MMAP
 					    auto& mem = this->_m_data_mapped.emplace_back(path);
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {mem.data(), mem.size(), false},
-					                                 time.count()));
+					                                 time));
 #else
 					    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
 					    auto size = stream.tellg();
@@ -585,7 +594,7 @@ namespace zenkit {
 
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
-					                                 time.count()));
+					                                 time));
 #endif
 				    }
 			    }
-- 
2.43.0


From 3ac91d3021ab38c3e56ba0e6d7ea2f2f95f48448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:53 +0000
Subject: [PATCH 009/103] fix: mount single files with Vfs::mount_host as
 documented

---
 src/Vfs.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index fe8c8fc..76c7a53 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -569,15 +569,16 @@ namespace zenkit {
 	                     VfsOverwriteBehavior overwrite) {
 		auto root = VfsNode::directory(sourcePath.filename().string());
 
-		std::function<void(VfsNode*, std::filesystem::path const&)> load_directory =
-		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
-			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
+		std::function<void(VfsNode*, std::filesystem::directory_entry const&)> load_entry =
+		    [this, &load_entry](VfsNode* parent, std::filesystem::directory_entry const& ref) {
 				    auto const& path = ref.path();
 				    auto time = vfs_host_time(ref.last_write_time());
 
 				    if (ref.is_directory()) {
 					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
-					    load_directory(newP, path);
+					    for (auto const& child : std::filesystem::directory_iterator(path)) {
+						    load_entry(newP, child);
+					    }
 				    } else if (ref.file_size() > 0) {
 #ifdef _ZK_WITH_MMAP
 					    auto& mem = this->_m_data_mapped.emplace_back(path);
@@ -597,10 +598,15 @@ namespace zenkit {
 					                                 time));
 #endif
 				    }
-			    }
 		    };
 
-		load_directory(&root, sourcePath);
+		if (std::filesystem::is_regular_file(sourcePath)) {
+			load_entry(&root, std::filesystem::directory_entry {sourcePath});
+		} else {
+			for (auto const& child : std::filesystem::directory_iterator(sourcePath)) {
+				load_entry(&root, child);
+			}
+		}
 
 		for (auto& child : root.children()) {
 			this->mount(child, mountPoint, overwrite);
-- 
2.43.0


From 7dbdeb5a4f5a27a500f35db1f192103b3ff9c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:58 +0000
Subject: [PATCH 010/103] fix: count references when assigning VFS file
 descriptors

The implicit assignment operator copied the pointer to the reference count
without counting, leaking the previous data and freeing the new data twice.
---
 include/zenkit/Vfs.hh |  1 +
 src/Vfs.cc            | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/zenkit/Vfs.hh b/include/zenkit/Vfs.hh
index 2d326eb..8e5d133 100644
--- a/include/zenkit/Vfs.hh
+++ b/include/zenkit/Vfs.hh
@@ -44,6 +44,7 @@ namespace zenkit {
 
 		VfsFileDescriptor(std::byte const* mem, size_t len, bool del, bool zipped = false, size_t raw_size = 0);
 		VfsFileDescriptor(VfsFileDescriptor const& cpy);
+		VfsFileDescriptor& operator=(VfsFileDescriptor const& cpy);
 		~VfsFileDescriptor() noexcept;
 
 	private:
diff --git a/src/Vfs.cc b/src/Vfs.cc
index 76c7a53..939c2bd 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -47,6 +47,16 @@ namespace zenkit {
 		*this->refcnt += 1;
 	}
 
+	VfsFileDescriptor& VfsFileDescriptor::operator=(VfsFileDescriptor const& cpy) {
+		auto tmp = cpy;
+		std::swap(this->memory, tmp.memory);
+		std::swap(this->size, tmp.size);
+		std::swap(this->raw_size, tmp.raw_size);
+		std::swap(this->zipped, tmp.zipped);
+		std::swap(this->refcnt, tmp.refcnt);
+		return *this;
+	}
+
 	VfsFileDescriptor::~VfsFileDescriptor() noexcept {
 		if (this->refcnt == nullptr) return;
 		*this->refcnt -= 1;
-- 
2.43.0


From 2d2aa616ebe69d408f50cfaba3027c333ca5229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:10 +0000
Subject: [PATCH 011/103] fix: detect failed memory mappings and do not leak
 the file handle

mmap(2) reports failure as MAP_FAILED, not as a null pointer, so a failed
mapping was used as file data. The descriptor leaked when fstat failed.
---
 src/MmapPosix.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/MmapPosix.cc b/src/MmapPosix.cc
index f6d289c..5871e8d 100644
--- a/src/MmapPosix.cc
+++ b/src/MmapPosix.cc
@@ -17,19 +17,28 @@ namespace zenkit {
 
 		struct stat st {};
 		if (fstat(handle, &st) != 0) {
+			close(handle);
 			throw std::runtime_error {"Failed to stat " + path.string()};
 		}
 
-		_m_data =
-		    static_cast<std::byte*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0));
-		if (_m_data == nullptr) {
+		// An empty file can't be mapped.
+		if (st.st_size == 0) {
+			close(handle);
+			_m_data = nullptr;
+			_m_size = 0;
+			return;
+		}
+
+		auto* mapped = mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0);
+		close(handle);
+
+		if (mapped == MAP_FAILED) {
 			throw std::runtime_error {"Failed to mmap " + path.string()};
 		}
 
+		_m_data = static_cast<std::byte*>(mapped);
 		_m_size = static_cast<std::size_t>(st.st_size);
 		_m_platform_handle = (void*) _m_data;
-
-		close(handle);
 	}
 
 	Mmap::Mmap(Mmap&& other) noexcept {
-- 
2.43.0


From a21627eede568941331c5eeb60b9f4624a83cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:16 +0000
Subject: [PATCH 012/103] fix: reject VDF volumes with a truncated header

---
 src/Vfs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 939c2bd..d407ac6 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -635,6 +635,10 @@ namespace zenkit {
 		auto catalog_offset = r->read_uint();
 		auto volume_flags = r->read_uint();
 
+		if (size < 256 + 16 + 6 * sizeof(uint32_t)) {
+			throw VfsBrokenDiskError {"header truncated"};
+		}
+
 		bool zipped = false;
 		if (volume_flags == VFS_VOLUME_FLAG_NORMAL) {
 			zipped = false;
-- 
2.43.0


From 8dc9e11f4e3ae8fd9f5303a9d4ab7f3800d570be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:43 +0000
Subject: [PATCH 013/103] fix: do not mount a VDF volume which could only be
 read in part

---
 src/Vfs.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index d407ac6..953d61a 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -463,7 +463,9 @@ namespace zenkit {
 		buf->seek(0, Whence::BEG);
 
 		auto mem = std::make_unique<std::byte[]>(size);
-		buf->read(mem.get(), size);
+		if (buf->read(mem.get(), size) != size) {
+			throw VfsBrokenDiskError {"failed to read the volume"};
+		}
 
 		// Nodes mounted before an error is detected refer to this memory, so it has to be kept in any case.
 		auto& data = _m_data.emplace_back(std::move(mem));
-- 
2.43.0


From 71d7192cfe0c8954faa985b715ba3e20e37aa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:09 +0000
Subject: [PATCH 014/103] fix: validate block headers of compressed streams and
 never serve a stale block

---
 src/Stream.cc | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index 7bd06fd..bed3cf0 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -598,23 +598,48 @@ namespace zenkit {
 					// Validate: blocks_count must be consistent with the header.
 					// In a valid ZippedStream, blocks_count == ceil(length / block_size).
 					// Reject if it doesn't match — the data is not a ZippedStream.
-					uint32_t expected_blocks =
-					    (_m_header.length_uncompressed + _m_header.block_size - 1) / _m_header.block_size;
+					uint32_t expected_blocks = (_m_header.length_uncompressed - 1) / _m_header.block_size + 1;
 					if (_m_header.blocks_count != expected_blocks) {
 						ZKLOGE("ReadZipped", "Block count mismatch: expected %u, got %u", expected_blocks,
 									_m_header.blocks_count);
 						return false;
 					}
 
+					// Validate: every block needs at least a header, so there can not be
+					// more of them than there is room for in the underlying stream.
+					auto begin = _m_stream->tell();
+					_m_stream->seek(0, Whence::END);
+					auto end = _m_stream->tell();
+					_m_stream->seek(static_cast<ssize_t>(begin), Whence::BEG);
+
+					if (_m_header.blocks_count > (end - begin) / BLOCK_HEADER_SIZE) {
+						ZKLOGE("ReadZipped", "Stream too short for %u blocks", _m_header.blocks_count);
+						return false;
+					}
+
 					_m_blocks.resize(_m_header.blocks_count);
 
 					// Scan through the interleaved block headers to record each
 					// block's compressed data offset, then skip past its data.
+					uint32_t remaining = _m_header.length_uncompressed;
 					for (auto& blk : _m_blocks) {
+						if (end - _m_stream->tell() < BLOCK_HEADER_SIZE) return false;
+
 						blk.len_src = _m_stream->read_uint();
 						blk.len_cmp = _m_stream->read_uint();
 						blk.size_blk = _m_stream->read_uint();
 						blk.offset = _m_stream->tell(); // compressed data starts here
+
+						// Validate: all blocks but the last one are filled completely and
+						// their data lies within the stream.
+						if (blk.len_src != std::min(remaining, _m_header.block_size) ||
+						    blk.len_cmp > end - blk.offset) {
+							ZKLOGE("ReadZipped", "Invalid block header: len_src=%u, len_cmp=%u", blk.len_src,
+										blk.len_cmp);
+							return false;
+						}
+
+						remaining -= blk.len_src;
 						_m_stream->seek(static_cast<ssize_t>(blk.len_cmp), Whence::CUR);
 					}
 
@@ -625,6 +650,8 @@ namespace zenkit {
 			}
 
 		private:
+			static constexpr size_t BLOCK_HEADER_SIZE = 12;
+
 			std::unique_ptr<Read> _m_stream;
 
 			struct StreamHeader {
@@ -652,6 +679,9 @@ namespace zenkit {
 			bool cache_block(uint32_t idx) {
 				if (idx >= _m_blocks.size()) return false;
 
+				// The cache contents are replaced below, even if that fails later.
+				_m_cache_valid = false;
+
 				BlockInfo& blk = _m_blocks[idx];
 				_m_stream->seek(blk.offset, Whence::BEG);
 				std::vector<uint8_t> cmp_data(blk.len_cmp);
@@ -662,7 +692,7 @@ namespace zenkit {
 				mz_ulong out_len = static_cast<mz_ulong>(blk.len_src);
 				int res = mz_uncompress(_m_cache.data(), &out_len, cmp_data.data(), static_cast<mz_ulong>(blk.len_cmp));
 
-				if (res != MZ_OK) return false;
+				if (res != MZ_OK || out_len != blk.len_src) return false;
 
 				_m_cache_idx = idx;
 				_m_cache_valid = true;
-- 
2.43.0


From b86edd5b05c9dad5fb867a930711d1ffd501096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:09 +0000
Subject: [PATCH 015/103] fix: read empty files of compressed volumes as empty

---
 src/Vfs.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 953d61a..2fd7c4e 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -146,7 +146,7 @@ namespace zenkit {
 
 			// ZippedStream header validation failed (e.g. raw Ogg Vorbis audio).
 			// Fall back to raw data using the catalog entry size.
-			return Read::from(fd.memory, fd.raw_size);
+			return Read::from(fd.memory, std::min(fd.raw_size, fd.size));
 		}
 #endif
 
@@ -761,7 +761,9 @@ namespace zenkit {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
+				    // Files without any contents are not stored as a stream.
+				    auto stream = zipped && e_size != 0;
+				    if (stream ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
@@ -789,10 +791,10 @@ namespace zenkit {
 				    // For zipped files, the descriptor gets the full remaining buffer
 				    // so ReadZipped can read the compressed stream. raw_size preserves
 				    // the catalog entry size for fallback (e.g. raw audio files).
-				    auto desc_size = zipped ? (size - e_offset) : static_cast<std::size_t>(e_size);
+				    auto desc_size = stream ? (size - e_offset) : static_cast<std::size_t>(e_size);
 				    (void) parent->create(
 				        VfsNode::file(e_name,
-				                      VfsFileDescriptor {buf + e_offset, desc_size, false, zipped, e_size},
+				                      VfsFileDescriptor {buf + e_offset, desc_size, false, stream, e_size},
 				                      timestamp));
 			    }
 
-- 
2.43.0


From 17b74c2ae87cf5fdf7d5b43b9958d94b489c5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:18 +0000
Subject: [PATCH 016/103] fix: write values into ASCII archives the way they
 are read back

---
 src/archive/ArchiveAscii.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index baa3e39..375d7a3 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -263,7 +263,7 @@ namespace zenkit {
 		this->_m_write->write_char('[');
 		this->_m_write->write_string(object_name);
 		this->_m_write->write_char(' ');
-		this->_m_write->write_string(empty_class ? "%" : class_name.data());
+		this->_m_write->write_string(empty_class ? "%" : class_name);
 		this->_m_write->write_char(' ');
 		this->_m_write->write_string(intosv(buf, version));
 		this->_m_write->write_char(' ');
@@ -303,7 +303,7 @@ namespace zenkit {
 	}
 
 	void WriteArchiveAscii::write_int(std::string_view name, std::int32_t v) {
-		std::array<char, std::numeric_limits<int32_t>::digits10 + 1> buf {};
+		std::array<char, std::numeric_limits<int32_t>::digits10 + 2> buf {};
 		this->write_entry(name, "int", intosv(buf, v));
 	}
 
@@ -313,12 +313,12 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_byte(std::string_view name, std::uint8_t v) {
 		std::array<char, std::numeric_limits<uint8_t>::digits10 + 1> buf {};
-		this->write_entry(name, "byte", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_word(std::string_view name, std::uint16_t v) {
 		std::array<char, std::numeric_limits<uint16_t>::digits10 + 1> buf {};
-		this->write_entry(name, "word", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_enum(std::string_view name, std::uint32_t v) {
@@ -360,7 +360,7 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_mat3x3(std::string_view name, Mat3 const& v) {
 		auto vT = v.transpose();
-		this->write_raw_float(name, vT.pointer(), 9);
+		this->write_raw(name, reinterpret_cast<std::byte const*>(vT.pointer()), 9 * sizeof(float));
 	}
 
 	void WriteArchiveAscii::write_raw(std::string_view name, std::vector<std::byte> const& v) {
@@ -372,9 +372,8 @@ namespace zenkit {
 		this->_m_write->write_string(name);
 		this->_m_write->write_string("=raw:");
 
-		std::array<char, 3> buf {};
-		buf[2] = '\0';
 		for (auto i = 0u; i < length; ++i) {
+			std::array<char, 3> buf {};
 			std::to_chars(buf.data(), buf.data() + buf.size(), static_cast<unsigned char>(v[i]), 16);
 
 			if (buf[1] == '\0') {
-- 
2.43.0


From b3b7f45a07ec6d6d0e9fba19c8e2ad0c48307dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:39 +0000
Subject: [PATCH 017/103] fix: keep the size of an archive header when the date
 changes while writing

---
 src/archive/ArchiveAscii.cc   | 36 +++++++++++++++++++----------------
 src/archive/ArchiveAscii.hh   |  2 ++
 src/archive/ArchiveBinary.cc  | 36 +++++++++++++++++++----------------
 src/archive/ArchiveBinary.hh  |  2 ++
 src/archive/ArchiveBinsafe.cc | 27 ++++++++++++++------------
 src/archive/ArchiveBinsafe.hh |  2 ++
 6 files changed, 61 insertions(+), 44 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 375d7a3..67fd924 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -241,6 +241,18 @@ namespace zenkit {
 	}
 
 	WriteArchiveAscii::WriteArchiveAscii(Write* w) : _m_write(w) {
+		char const* username = getenv("USER");
+		if (username == nullptr) username = getenv("USERNAME");
+		if (username == nullptr) username = "Anonymous";
+		this->_m_user = username;
+
+		char date_buffer[20];
+		std::time_t clk;
+		std::time(&clk);
+		auto* time = std::localtime(&clk);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		this->_m_date = date_buffer;
+
 		this->_m_head = this->_m_write->tell();
 		this->write_header();
 	}
@@ -419,33 +431,25 @@ namespace zenkit {
 		auto cur = this->_m_write->tell();
 		this->_m_write->seek(static_cast<ssize_t>(this->_m_head), Whence::BEG);
 
-		char const* username = getenv("USER");
-		if (username == nullptr) username = getenv("USERNAME");
-		if (username == nullptr) username = "Anonymous";
-
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
-
+		// NOTE: The date and user never change after creation. This header is re-written in-place.
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
 		this->_m_write->write_line("zCArchiverGeneric");
 		this->_m_write->write_line("ASCII");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(this->_m_date);
 		this->_m_write->write_string("user ");
-		this->_m_write->write_line(username);
+		this->_m_write->write_line(this->_m_user);
 		this->_m_write->write_line("END");
 
-		memset(date_buffer, ' ', 20);
-		date_buffer[11] = '\0';
-		std::to_chars(date_buffer, date_buffer + 10, _m_index);
+		char object_count[20];
+		memset(object_count, ' ', 20);
+		object_count[11] = '\0';
+		std::to_chars(object_count, object_count + 10, _m_index);
 
 		this->_m_write->write_string("objects ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(object_count);
 		this->_m_write->write_line("END\n");
 
 		if (cur != _m_head) {
diff --git a/src/archive/ArchiveAscii.hh b/src/archive/ArchiveAscii.hh
index 5bbc4c0..33eeda4 100644
--- a/src/archive/ArchiveAscii.hh
+++ b/src/archive/ArchiveAscii.hh
@@ -77,5 +77,7 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::uint32_t _m_indent {0};
 		std::size_t _m_head;
+		std::string _m_user;
+		std::string _m_date;
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 6175abc..115a555 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -124,6 +124,18 @@ namespace zenkit {
 	}
 
 	WriteArchiveBinary::WriteArchiveBinary(Write* w) : _m_write(w) {
+		char const* username = getenv("USER");
+		if (username == nullptr) username = getenv("USERNAME");
+		if (username == nullptr) username = "Anonymous";
+		this->_m_user = username;
+
+		char date_buffer[20];
+		std::time_t clk;
+		std::time(&clk);
+		auto* time = std::localtime(&clk);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		this->_m_date = date_buffer;
+
 		this->_m_head = this->_m_write->tell();
 		this->write_header();
 	}
@@ -236,33 +248,25 @@ namespace zenkit {
 		auto cur = this->_m_write->tell();
 		this->_m_write->seek(static_cast<ssize_t>(_m_head), Whence::BEG);
 
-		char const* username = getenv("USER");
-		if (username == nullptr) username = getenv("USERNAME");
-		if (username == nullptr) username = "Anonymous";
-
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
-
+		// NOTE: The date and user never change after creation. This header is re-written in-place.
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
 		this->_m_write->write_line("zCArchiverGeneric");
 		this->_m_write->write_line("BINARY");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(this->_m_date);
 		this->_m_write->write_string("user ");
-		this->_m_write->write_line(username);
+		this->_m_write->write_line(this->_m_user);
 		this->_m_write->write_line("END");
 
-		std::memset(date_buffer, ' ', 20);
-		date_buffer[10] = '\0';
-		std::to_chars(date_buffer, date_buffer + 9, _m_index);
+		char object_count[20];
+		std::memset(object_count, ' ', 20);
+		object_count[10] = '\0';
+		std::to_chars(object_count, object_count + 9, _m_index);
 
 		this->_m_write->write_string("objects ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(object_count);
 		this->_m_write->write_line("END\n");
 
 		if (cur != _m_head) {
diff --git a/src/archive/ArchiveBinary.hh b/src/archive/ArchiveBinary.hh
index d09c8da..7f943e3 100644
--- a/src/archive/ArchiveBinary.hh
+++ b/src/archive/ArchiveBinary.hh
@@ -77,5 +77,7 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::stack<size_t> _m_objects {};
 		std::size_t _m_head;
+		std::string _m_user;
+		std::string _m_date;
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 604a890..f8fed60 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -273,6 +273,18 @@ namespace zenkit {
 	}
 
 	WriteArchiveBinsafe::WriteArchiveBinsafe(Write* w) : _m_write(w) {
+		char const* username = getenv("USER");
+		if (username == nullptr) username = getenv("USERNAME");
+		if (username == nullptr) username = "Anonymous";
+		this->_m_user = username;
+
+		char date_buffer[20];
+		std::time_t clk;
+		std::time(&clk);
+		auto* time = std::localtime(&clk);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		this->_m_date = date_buffer;
+
 		this->_m_head = this->_m_write->tell();
 		this->write_header();
 	}
@@ -401,25 +413,16 @@ namespace zenkit {
 		auto cur = this->_m_write->tell();
 		this->_m_write->seek(static_cast<ssize_t>(_m_head), Whence::BEG);
 
-		char const* username = getenv("USER");
-		if (username == nullptr) username = getenv("USERNAME");
-		if (username == nullptr) username = "Anonymous";
-
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
-
+		// NOTE: The date and user never change after creation. This header is re-written in-place.
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
 		this->_m_write->write_line("zCArchiverBinSafe");
 		this->_m_write->write_line("BIN_SAFE");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(this->_m_date);
 		this->_m_write->write_string("user ");
-		this->_m_write->write_line(username);
+		this->_m_write->write_line(this->_m_user);
 		this->_m_write->write_line("END");
 
 		this->_m_write->write_uint(2);
diff --git a/src/archive/ArchiveBinsafe.hh b/src/archive/ArchiveBinsafe.hh
index 3b46b53..be1a2d8 100644
--- a/src/archive/ArchiveBinsafe.hh
+++ b/src/archive/ArchiveBinsafe.hh
@@ -124,5 +124,7 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::map<std::string, std::uint16_t, std::less<>> _m_hash_keys;
 		std::size_t _m_head;
+		std::string _m_user;
+		std::string _m_date;
 	};
 } // namespace zenkit
-- 
2.43.0


From a77a52d12f4cf734dec63262707bb881c1c2d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:56 +0000
Subject: [PATCH 018/103] fix: do not swallow data starting with a newline
 after a binary archive header

---
 src/archive/ArchiveBinary.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 115a555..99ec102 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -22,9 +22,14 @@ namespace zenkit {
 			}
 		}
 
-		if (read->read_line_then_ignore("\n") != "END") {
+		if (read->read_line(false) != "END") {
 			throw ParserError {"ReadArchiveBinary", "second END missing"};
 		}
+
+		// Skip the empty line after the header, but nothing else: the data following it may start with a newline, too.
+		if (auto mark = read->tell(); read->read_char() != '\n') {
+			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
+		}
 	}
 
 	bool ReadArchiveBinary::read_object_begin(ArchiveObject& obj) {
-- 
2.43.0


From 477167f654b8233431e50cb7a97d986d50224f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 019/103] fix: check the hash table of BIN_SAFE archives and
 skip values together with their keys

---
 src/archive/ArchiveBinsafe.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index f8fed60..5b684b3 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <charconv>
 #include <cstring>
+#include <limits>
 
 namespace zenkit {
 	void ReadArchiveBinsafe::read_header() {
@@ -20,6 +21,10 @@ namespace zenkit {
 			read->seek(hash_table_offset, Whence::BEG);
 
 			auto hash_table_size = read->read_uint();
+			if (hash_table_size > std::numeric_limits<std::uint16_t>::max() + 1u) {
+				throw ParserError {"ReadArchive.Binsafe", "invalid hash table size"};
+			}
+
 			_m_hash_table_entries.resize(hash_table_size);
 
 			for (std::uint32_t i = 0; i < hash_table_size; ++i) {
@@ -28,6 +33,10 @@ namespace zenkit {
 				auto hash_value = read->read_uint();
 				auto key = read->read_string(key_length);
 
+				if (insertion_index >= hash_table_size) {
+					throw ParserError {"ReadArchive.Binsafe", "invalid hash table index"};
+				}
+
 				_m_hash_table_entries[insertion_index] = hash_table_entry {key, hash_value};
 			}
 
@@ -103,7 +112,7 @@ namespace zenkit {
 		}
 
 		auto hash = read->read_uint();
-		return _m_hash_table_entries[hash].key;
+		return _m_hash_table_entries.at(hash).key;
 	}
 
 	std::string ReadArchiveBinsafe::read_string() {
@@ -219,7 +228,14 @@ namespace zenkit {
 	}
 
 	void ReadArchiveBinsafe::skip_entry() {
-		switch (static_cast<ArchiveEntryType>(read->read_ubyte())) {
+		auto type = static_cast<ArchiveEntryType>(read->read_ubyte());
+		if (type == ArchiveEntryType::HASH) {
+			// The value follows the key. It has to be skipped as well because it might look like an object otherwise.
+			(void) read->read_uint();
+			type = static_cast<ArchiveEntryType>(read->read_ubyte());
+		}
+
+		switch (type) {
 		case ArchiveEntryType::STRING:
 		case ArchiveEntryType::RAW:
 		case ArchiveEntryType::RAW_FLOAT:
-- 
2.43.0


From ebbd890a72041cdc9438f90805c0686d80181c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 020/103] fix: report out-of-range numbers and a missing object
 end in archives as parser errors

---
 src/Archive.cc               |  4 +++-
 src/archive/ArchiveAscii.cc  | 14 +++++++-------
 src/archive/ArchiveBinary.cc |  5 +++--
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/Archive.cc b/src/Archive.cc
index 8797a87..6c260d6 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -226,7 +226,7 @@ namespace zenkit {
 			if (optional != "END") {
 				throw ParserError {"ReadArchive", "first END missing"};
 			}
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive", e, "reading int"};
 		}
 	}
@@ -535,6 +535,8 @@ namespace zenkit {
 				++level;
 			} else if (read_object_end()) {
 				--level;
+			} else if (read->eof()) {
+				throw ParserError {"ReadArchive", "unexpected end of archive while skipping an object"};
 			} else {
 				skip_entry();
 			}
diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 67fd924..9cec670 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -23,7 +23,7 @@ namespace zenkit {
 
 			try {
 				_m_objects = std::stoi(objects.substr(objects.find(' ') + 1));
-			} catch (std::invalid_argument const& e) {
+			} catch (std::logic_error const& e) {
 				throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 			}
 		}
@@ -107,7 +107,7 @@ namespace zenkit {
 	std::int32_t ReadArchiveAscii::read_int() {
 		try {
 			return std::stoi(read_entry("int"));
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -115,7 +115,7 @@ namespace zenkit {
 	float ReadArchiveAscii::read_float() {
 		try {
 			return std::stof(read_entry("float"));
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -123,7 +123,7 @@ namespace zenkit {
 	std::uint8_t ReadArchiveAscii::read_byte() {
 		try {
 			return std::stoul(read_entry("int")) & 0xFF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -131,7 +131,7 @@ namespace zenkit {
 	std::uint16_t ReadArchiveAscii::read_word() {
 		try {
 			return std::stoul(read_entry("int")) & 0xFF'FF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -139,7 +139,7 @@ namespace zenkit {
 	std::uint32_t ReadArchiveAscii::read_enum() {
 		try {
 			return std::stoul(read_entry("enum")) & 0xFFFF'FFFF;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
@@ -147,7 +147,7 @@ namespace zenkit {
 	bool ReadArchiveAscii::read_bool() {
 		try {
 			return std::stoul(read_entry("bool")) != 0;
-		} catch (std::invalid_argument const& e) {
+		} catch (std::logic_error const& e) {
 			throw ParserError {"ReadArchive.Ascii", e, "reading int"};
 		}
 	}
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 99ec102..a6824e8 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -17,7 +17,7 @@ namespace zenkit {
 
 			try {
 				_m_objects = std::stoi(objects.substr(objects.find(' ') + 1));
-			} catch (std::invalid_argument const& e) {
+			} catch (std::logic_error const& e) {
 				throw ParserError {"ReadArchiveBinary", e, "reading int"};
 			}
 		}
@@ -46,7 +46,7 @@ namespace zenkit {
 	}
 
 	bool ReadArchiveBinary::read_object_end() {
-		if (read->tell() == _m_object_end.top()) {
+		if (!_m_object_end.empty() && read->tell() == _m_object_end.top()) {
 			_m_object_end.pop();
 			return true;
 		}
@@ -121,6 +121,7 @@ namespace zenkit {
 
 	void ReadArchiveBinary::skip_object(bool skip_current) {
 		if (skip_current) {
+			if (_m_object_end.empty()) throw ParserError {"ReadArchiveBinary", "not inside an object"};
 			read->seek(static_cast<ssize_t>(_m_object_end.top()), Whence::BEG);
 			_m_object_end.pop();
 		} else {
-- 
2.43.0


From 5caf714e66a996918b6942d3e68c8a14ce3cc32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:48 +0000
Subject: [PATCH 021/103] fix: do not read past the end of object names in
 BIN_SAFE archives

---
 src/archive/ArchiveBinsafe.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 5b684b3..7e1f908 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -314,9 +314,11 @@ namespace zenkit {
 		char buf[6 + 127 * 2 + 10 * 2];
 		auto n = snprintf(buf,
 		                  sizeof buf - 1,
-		                  "[%.127s %.127s %d %d]",
+		                  "[%.*s %.*s %u %u]",
+		                  static_cast<int>(std::min<size_t>(object_name.length(), 127)),
 		                  object_name.data(),
-		                  class_name.empty() ? "%" : class_name.data(),
+		                  empty_class ? 1 : static_cast<int>(std::min<size_t>(class_name.length(), 127)),
+		                  empty_class ? "%" : class_name.data(),
 		                  version,
 		                  empty_class ? 0 : _m_index);
 
@@ -336,7 +338,14 @@ namespace zenkit {
 		this->_m_write->write_ubyte(static_cast<uint8_t>(ArchiveEntryType::STRING));
 
 		char buf[6 + 127 * 2 + 10 * 2];
-		auto n = snprintf(buf, sizeof buf - 1, "[%.127s %.127s %d %d]", object_name.data(), "\xA7", 0, index);
+		auto n = snprintf(buf,
+		                  sizeof buf - 1,
+		                  "[%.*s %s %u %u]",
+		                  static_cast<int>(std::min<size_t>(object_name.length(), 127)),
+		                  object_name.data(),
+		                  "\xA7",
+		                  0u,
+		                  index);
 
 		this->_m_write->write_ushort(n);
 		this->_m_write->write_string(buf);
-- 
2.43.0


From 3c839e3a9ff452ee117b9a011548e0b41467194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:10 +0000
Subject: [PATCH 022/103] fix: never write a new object as a reference to a
 freed one

---
 include/zenkit/Archive.hh | 2 ++
 src/Archive.cc            | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/zenkit/Archive.hh b/include/zenkit/Archive.hh
index 661ba57..5f1c3c1 100644
--- a/include/zenkit/Archive.hh
+++ b/include/zenkit/Archive.hh
@@ -10,6 +10,7 @@
 #include <memory>
 #include <string>
 #include <unordered_map>
+#include <vector>
 #include <variant>
 
 namespace zenkit {
@@ -301,6 +302,7 @@ namespace zenkit {
 
 	private:
 		std::unordered_map<Object const*, uint32_t> _m_cache {};
+		std::vector<std::shared_ptr<Object const>> _m_written {};
 		bool _m_save {false};
 	};
 } // namespace zenkit
diff --git a/src/Archive.cc b/src/Archive.cc
index 6c260d6..5951743 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -572,6 +572,9 @@ namespace zenkit {
 			return;
 		}
 
+		// Objects are identified by address, so they have to stay alive for as long as they may be referred to.
+		if (obj != nullptr) _m_written.push_back(obj);
+
 		this->write_object(name, obj.get(), version);
 	}
 
-- 
2.43.0


From dd524d5a68c925a62cfb626dd970e60af142d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 023/103] fix: write virtual objects the way they are read

---
 src/vobs/VirtualObject.cc | 95 ++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 45 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 6c23fd2..73eab1d 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -8,7 +8,6 @@
 #include <unordered_map>
 
 namespace zenkit {
-	static std::shared_ptr<Visual> const DEFAULT_VISUAL = std::make_shared<Visual>();
 	static bool pack = true;
 
 	/// \brief A mapping of archive class names to visual_type values.
@@ -106,7 +105,7 @@ namespace zenkit {
 			this->physics_enabled = static_cast<bool>((bit1 & 0b000000001000000u) >> 6u);
 
 			if (version == GameVersion::GOTHIC_2) {
-				this->anim_mode = static_cast<AnimationType>(bit1 & 0b000000110000000u >> 7u);
+				this->anim_mode = static_cast<AnimationType>((bit1 & 0b000000110000000u) >> 7u);
 				this->bias = static_cast<std::int32_t>((bit1 & 0b011111000000000u) >> 9u);
 				this->ambient = static_cast<bool>((bit1 & 0b100000000000000u) >> 14u);
 
@@ -155,6 +154,7 @@ namespace zenkit {
 			}
 		}
 
+		this->visual = nullptr;
 		if (has_visual_object) {
 			this->visual = std::dynamic_pointer_cast<Visual>(r.read_object(version));
 
@@ -167,15 +167,16 @@ namespace zenkit {
 				}
 
 				this->visual->name = visual_name;
-				this->visual->type = it->second;
+				this->visual->type = this->associated_visual_type;
 				if (this->visual->type == VisualType::DECAL) {
 					this->visual_decal.emplace(*reinterpret_cast<VisualDecal*>(this->visual.get()));
 				}
-			} else {
-				this->visual = DEFAULT_VISUAL;
 			}
-		} else {
-			this->visual = DEFAULT_VISUAL;
+		}
+
+		if (this->visual == nullptr) {
+			this->visual = std::make_shared<Visual>();
+			this->visual->name = visual_name;
 		}
 
 		if (has_ai_object) {
@@ -203,6 +204,12 @@ namespace zenkit {
 	void VirtualObject::save(WriteArchive& w, GameVersion version) const {
 		Object::save(w, version);
 
+		auto has_visual_name = this->visual && !this->visual->name.empty();
+		auto has_visual_object = this->visual && this->visual->type != VisualType::UNKNOWN;
+
+		// Quirk: Event managers are only stored in save-games (see ::load).
+		auto has_event_manager_object = this->event_manager && w.is_save_game();
+
 		if (pack) {
 			w.write_int("pack", 1);
 			std::vector<std::byte> packed;
@@ -226,21 +233,15 @@ namespace zenkit {
 			std::uint16_t bit1 = 0;
 			bit1 |= !preset_name.empty() << 0u;
 			bit1 |= !vob_name.empty() << 1u;
-			bit1 |= (this->visual && !this->visual->name.empty()) << 2u;
-			bit1 |= (!!this->visual && this->visual->type != VisualType::UNKNOWN) << 3u;
+			bit1 |= has_visual_name << 2u;
+			bit1 |= has_visual_object << 3u;
 			bit1 |= (!!this->ai) << 4u;
-			bit1 |= (!!this->event_manager) << 5u;
-
-			// Gothic 1 does not store rigid-body information.
-			if (version == GameVersion::GOTHIC_1) {
-				bit1 |= this->physics_enabled << 6u;
-			} else {
-				bit1 |= (this->physics_enabled && this->rigid_body) << 6u;
-			}
+			bit1 |= has_event_manager_object << 5u;
+			bit1 |= this->physics_enabled << 6u;
 
 			if (version == GameVersion::GOTHIC_2) {
-				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 2) << 7u;
-				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 13u;
+				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
+				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 9u;
 				bit1 |= this->ambient << 14u;
 
 				pw->write_ushort(bit1);
@@ -251,6 +252,30 @@ namespace zenkit {
 			}
 
 			w.write_raw("dataRaw", packed);
+
+			if (!this->preset_name.empty()) {
+				w.write_string("presetName", this->preset_name);
+			}
+
+			if (!this->vob_name.empty()) {
+				w.write_string("vobName", this->vob_name);
+			}
+
+			if (has_visual_name) {
+				w.write_string("visual", this->visual->name);
+			}
+
+			if (has_visual_object) {
+				w.write_object("visual", this->visual, version);
+			}
+
+			if (this->ai) {
+				w.write_object("ai", this->ai, version);
+			}
+
+			if (has_event_manager_object) {
+				w.write_object(this->event_manager, version);
+			}
 		} else {
 			w.write_int("pack", 0);
 			w.write_string("presetName", this->preset_name);
@@ -258,7 +283,7 @@ namespace zenkit {
 			w.write_mat3x3("trafoOSToWSRot", this->rotation);
 			w.write_vec3("trafoOSToWSPos", this->position);
 			w.write_string("vobName", this->vob_name);
-			w.write_string("visual", this->visual_name);
+			w.write_string("visual", has_visual_name ? this->visual->name : "");
 			w.write_bool("showVisual", this->show_visual);
 			w.write_enum("visualCamAlign", static_cast<int>(this->sprite_camera_facing_mode));
 
@@ -278,39 +303,19 @@ namespace zenkit {
 				w.write_int("zbias", this->bias);
 				w.write_bool("isAmbient", this->ambient);
 			}
-		}
-
-		if (!this->preset_name.empty()) {
-			w.write_string("presetName", this->preset_name);
-		}
 
-		if (!this->vob_name.empty()) {
-			w.write_string("vobName", this->vob_name);
-		}
-
-		if (this->visual && !this->visual->name.empty()) {
-			w.write_string("visual", this->visual->name);
-		}
-
-		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
-			w.write_object("visual", this->visual, version);
-		}
-
-		if (this->ai) {
+			// Unpacked objects always contain these two but no event manager.
+			w.write_object("visual", has_visual_object ? this->visual : nullptr, version);
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager) {
-			w.write_object(this->event_manager, version);
-		}
-
 		if (w.is_save_game()) {
 			w.write_byte("sleepMode", this->sleep_mode);
 			w.write_float("nextOnTimer", this->next_on_timer);
 
-			// Gothic 1 does not store rigid-body information.
-			if (this->physics_enabled && this->rigid_body) {
-				this->rigid_body->save(w, version);
+			// Unpacked objects cannot tell whether physics are enabled, so ::load always expects a rigid body for them.
+			if (this->physics_enabled || !pack) {
+				this->rigid_body.value_or(RigidBody {}).save(w, version);
 			}
 		}
 	}
-- 
2.43.0


From c00773a588c9e8d42e42d7a144a501dbb429b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 024/103] fix: save the flags of triggers from the fields which
 hold them

---
 src/vobs/Trigger.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 23f9c29..4a0828b 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -45,9 +45,23 @@ namespace zenkit {
 
 	void VTrigger::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
+
+		// The deprecated fields only provide the bits which have no field of their own.
+		std::uint8_t raw_flags = this->flags & ~0b101u;
+		raw_flags |= this->start_enabled << 0;
+		raw_flags |= this->send_untrigger << 2;
+
+		std::uint8_t raw_filter_flags = this->filter_flags & ~0b111111u;
+		raw_filter_flags |= this->react_to_on_trigger << 0;
+		raw_filter_flags |= this->react_to_on_touch << 1;
+		raw_filter_flags |= this->react_to_on_damage << 2;
+		raw_filter_flags |= this->respond_to_object << 3;
+		raw_filter_flags |= this->respond_to_pc << 4;
+		raw_filter_flags |= this->respond_to_npc << 5;
+
 		w.write_string("triggerTarget", this->target);
-		w.write_raw("flags", reinterpret_cast<std::byte const*>(&this->flags), 1);
-		w.write_raw("filterFlags", reinterpret_cast<std::byte const*>(&this->filter_flags), 1);
+		w.write_raw("flags", reinterpret_cast<std::byte const*>(&raw_flags), 1);
+		w.write_raw("filterFlags", reinterpret_cast<std::byte const*>(&raw_filter_flags), 1);
 		w.write_string("respondToVobName", this->vob_target);
 		w.write_int("numCanBeActivated", this->max_activation_count);
 		w.write_float("retriggerWaitSec", this->retrigger_delay_sec);
-- 
2.43.0


From bc998ebdaf9da0d5c12d2f6df248b7dd0a1c6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 025/103] fix: write as many trigger list targets as announced

---
 src/vobs/Trigger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 4a0828b..85c7ffb 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -234,7 +234,7 @@ namespace zenkit {
 		w.write_enum("listProcess", static_cast<std::uint32_t>(this->mode));
 
 		w.write_byte("numTargets", this->targets.size());
-		for (auto i = 0u; i < this->targets.size(); ++i) {
+		for (auto i = 0u; i < (this->targets.size() & 0xffu); ++i) {
 			w.write_string("triggerTarget" + std::to_string(i), targets[i].name);
 			w.write_float("fireDelay" + std::to_string(i), targets[i].delay);
 		}
-- 
2.43.0


From 66f08fe21bb9e6d2d34922ca4bc6bc7173ab19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 026/103] fix: save camera poses as they are read and all key
 frames of cutscene cameras

---
 src/vobs/Camera.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 97c037c..19b3f06 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -44,9 +44,10 @@ namespace zenkit {
 		w.write_float("continuity", this->continuity);
 		w.write_float("timeScale", this->time_scale);
 		w.write_bool("timeIsFixed", this->time_fixed);
-		w.write_raw("originalPose",
-		            reinterpret_cast<std::byte const*>(this->original_pose.pointer()),
-		            4 * 4 * sizeof(float));
+
+		std::vector<std::byte> pose;
+		Write::to(&pose)->write_mat4(this->original_pose);
+		w.write_raw("originalPose", pose);
 	}
 
 	void VCutsceneCamera::parse(VCutsceneCamera& obj, ReadArchive& r, GameVersion version) {
@@ -108,15 +109,15 @@ namespace zenkit {
 		w.write_bool("autoCamPlayerMovable", this->auto_player_movable);
 		w.write_bool("autoCamUntriggerOnLastKey", this->auto_untrigger_last);
 		w.write_float("autoCamUntriggerOnLastKeyDelay", this->auto_untrigger_last_delay);
-		w.write_int("numPos", this->position_count);
-		w.write_int("numTargets", this->target_count);
+		w.write_int("numPos", static_cast<std::int32_t>(this->trajectory_frames.size()));
+		w.write_int("numTargets", static_cast<std::int32_t>(this->target_frames.size()));
 
-		for (auto i = 0; i < this->position_count; ++i) {
-			w.write_object(this->trajectory_frames[static_cast<size_t>(i)], version);
+		for (auto& frame : this->trajectory_frames) {
+			w.write_object(frame, version);
 		}
 
-		for (auto i = 0; i < this->target_count; ++i) {
-			w.write_object(this->target_frames[static_cast<size_t>(i)], version);
+		for (auto& frame : this->target_frames) {
+			w.write_object(frame, version);
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-- 
2.43.0


From 91ec9194ed6f66058a2a17cd08805c213797346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 027/103] fix: do not mix the range animation into the color
 animation of saved lights

---
 src/vobs/Light.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vobs/Light.cc b/src/vobs/Light.cc
index 5183385..5c42bbc 100644
--- a/src/vobs/Light.cc
+++ b/src/vobs/Light.cc
@@ -5,6 +5,7 @@
 
 #include "../Internal.hh"
 
+#include <limits>
 #include <sstream>
 
 namespace zenkit {
@@ -93,6 +94,7 @@ namespace zenkit {
 			w.write_bool("turnedOn", this->on);
 
 			std::ostringstream os;
+			os.precision(std::numeric_limits<float>::max_digits10);
 			for (auto& r : this->range_animation_scale) {
 				os << r << " ";
 			}
@@ -101,7 +103,7 @@ namespace zenkit {
 			w.write_float("rangeAniFPS", this->range_animation_fps);
 			w.write_bool("rangeAniSmooth", this->range_animation_smooth);
 
-			os.clear();
+			os.str("");
 			for (auto& c : this->color_animation_list) {
 				os << "(" << static_cast<int>(c.r) << " " << static_cast<int>(c.g) << " " << static_cast<int>(c.b)
 				   << ") ";
-- 
2.43.0


From efde483c10103b509aa99fb1199e4a010b0e6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 028/103] fix: write the state of code masters to save-games

---
 src/vobs/Misc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index c711191..6ac1477 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -161,7 +161,12 @@ namespace zenkit {
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-			// FIXME: This is not implemented because its behavior is unknown.
+			w.write_byte("numSlavesTriggered", this->s_num_triggered_slaves);
+
+			for (auto i = 0u; i < (this->slaves.size() & 0xffu); ++i) {
+				// FIXME: Figure out how to write these correctly.
+				w.write_object("slaveTriggered" + std::to_string(i), nullptr, version);
+			}
 		}
 	}
 
-- 
2.43.0


From 0b8636c1c95bd530cb88718c13c5d9c282cd7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 029/103] fix: split the packed inventory of NPCs correctly and
 accept empty item entries

---
 src/vobs/Misc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index 6ac1477..bb25526 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -371,7 +371,7 @@ namespace zenkit {
 			do {
 				auto next = std::find(it, pack.end(), ';');
 				this->packed[idx++].assign(it, next);
-				it = next;
+				it = next == pack.end() ? next : next + 1;
 			} while (it != pack.end() && idx < 9);
 		}
 
@@ -381,7 +381,7 @@ namespace zenkit {
 		for (auto i = 0u; i < item_count; ++i) {
 			this->items[i] = r.read_object<VItem>(version); // item0
 
-			if ((this->items[i]->s_flags & 0x200) != 0) {
+			if (this->items[i] != nullptr && (this->items[i]->s_flags & 0x200) != 0) {
 				(void) r.read_int(); // shortKey<n> // TODO
 			}
 		}
@@ -543,7 +543,7 @@ namespace zenkit {
 			auto& item = this->items[i];
 			w.write_object("item" + std::to_string(i), item, version);
 
-			if ((item->s_flags & 0x200) != 0) {
+			if (item != nullptr && (item->s_flags & 0x200) != 0) {
 				w.write_int("shortKey" + std::to_string(i), 0); // TODO
 			}
 		}
-- 
2.43.0


From 41caf1bbdd1fc3e1512a31f51042cd1fc0ddaa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:02 +0000
Subject: [PATCH 030/103] fix: find the points of ways in a waynet without
 relying on reference counts

---
 src/world/WayNet.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index 1711aaa..286c0cf 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -6,6 +6,8 @@
 
 #include "../Internal.hh"
 
+#include <unordered_set>
+
 namespace zenkit {
 	void WayPoint::load(ReadArchive& r, GameVersion) {
 		this->name = r.read_string();      // wpName
@@ -26,22 +28,31 @@ namespace zenkit {
 	void WayNet::load(ReadArchive& r, GameVersion version) {
 		[[maybe_unused]] auto ver = r.read_int(); // waynetVersion
 		auto count_points = r.read_int();         // numWaypoints
-		this->points.reserve(count_points);
+		std::unordered_set<WayPoint const*> known {};
 
 		for (auto i = 0; i < count_points; ++i) {
-			this->points.push_back(r.read_object<WayPoint>(version));
-			this->points.back()->free_point = true;
+			auto point = r.read_object<WayPoint>(version);
+			if (point == nullptr) {
+				throw ParserError {"WayNet", "missing waypoint"};
+			}
+
+			point->free_point = true;
+			known.insert(point.get());
+			this->points.push_back(std::move(point));
 		}
 
 		auto count_edges = r.read_int(); // numWays
-		this->edges.reserve(count_edges);
 
 		for (auto i = 0; i < count_edges; ++i) {
 			auto wayl = r.read_object<WayPoint>(version);
 			auto wayr = r.read_object<WayPoint>(version);
 
-			if (wayl.use_count() < 3) this->points.push_back(wayl);
-			if (wayr.use_count() < 3) this->points.push_back(wayr);
+			if (wayl == nullptr || wayr == nullptr) {
+				throw ParserError {"WayNet", "way without a waypoint"};
+			}
+
+			if (known.insert(wayl.get()).second) this->points.push_back(wayl);
+			if (known.insert(wayr.get()).second) this->points.push_back(wayr);
 
 			this->edges.emplace_back(wayl, wayr);
 		}
-- 
2.43.0


From de08b5de17af86abbb1c8c3cf00cf7a2e2e11d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:02 +0000
Subject: [PATCH 031/103] fix: save the alpha function of materials

---
 src/Material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Material.cc b/src/Material.cc
index 35fd893..7b86d5e 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -116,7 +116,7 @@ namespace zenkit {
 			w.write_float("waveMaxAmplitude", this->wave_max_amplitude);
 			w.write_float("waveGridSize", this->wave_grid_size);
 			w.write_bool("ignoreSunLight", this->ignore_sun);
-			w.write_bool("alphaFunc", static_cast<bool>(this->alpha_func));
+			w.write_enum("alphaFunc", static_cast<uint32_t>(this->alpha_func));
 		}
 
 		w.write_vec2("defaultMapping", this->default_mapping);
-- 
2.43.0


From 6b8703465fdc10a29c9ab95a994883441391b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:02 +0000
Subject: [PATCH 032/103] fix: do not return another cutscene block for an
 unknown name

---
 src/CutsceneLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 49bd4cd..1e3043d 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -109,7 +109,7 @@ namespace zenkit {
 			return it->name < n;
 		});
 
-		if (result == this->blocks.end()) {
+		if (result == this->blocks.end() || (*result)->name != name) {
 			return nullptr;
 		}
 
-- 
2.43.0


From addaabde1ff88c4f2e871901789cfc6fa7d69b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:02 +0000
Subject: [PATCH 033/103] fix: report missing blocks of cutscene libraries
 instead of crashing

---
 src/CutsceneLibrary.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 1e3043d..2c241e5 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -80,6 +80,10 @@ namespace zenkit {
 		}
 
 		auto blk = r.read_object(version);
+		if (blk == nullptr) {
+			throw ParserError {"CutsceneLibrary", "missing block for " + this->name};
+		}
+
 		if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
 			this->block = std::static_pointer_cast<CutsceneAtomicBlock>(blk);
 		} else if (blk->get_object_type() == ObjectType::zCCSBlock) {
@@ -118,10 +122,14 @@ namespace zenkit {
 
 	void CutsceneLibrary::load(ReadArchive& r, GameVersion version) {
 		auto item_count = r.read_int(); // NumOfItems
-		this->blocks.reserve(static_cast<std::uint64_t>(item_count));
 
 		for (auto i = 0; i < item_count; ++i) {
-			this->blocks.push_back(r.read_object<CutsceneBlock>(version));
+			auto block = r.read_object<CutsceneBlock>(version);
+			if (block == nullptr) {
+				throw ParserError {"CutsceneLibrary", "missing block"};
+			}
+
+			this->blocks.push_back(std::move(block));
 		}
 
 		// Prepare blocks for binary search in block_by_name
-- 
2.43.0


From a13c48beca420ab59c6720676584e0230c6bd986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:02 +0000
Subject: [PATCH 034/103] fix: item flags are only known to readers of
 save-games

---
 src/vobs/Misc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index bb25526..ac7a43d 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -543,7 +543,7 @@ namespace zenkit {
 			auto& item = this->items[i];
 			w.write_object("item" + std::to_string(i), item, version);
 
-			if (item != nullptr && (item->s_flags & 0x200) != 0) {
+			if (w.is_save_game() && item != nullptr && (item->s_flags & 0x200) != 0) {
 				w.write_int("shortKey" + std::to_string(i), 0); // TODO
 			}
 		}
-- 
2.43.0


From a4a22a7422f6c831b17875f26ec4d06bad4e07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 035/103] fix: do not access memory out of bounds when loading
 empty or damaged BSP trees

---
 src/world/BspTree.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index d82cf23..eba6cd8 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -1,6 +1,7 @@
 // Copyright © 2021-2024 GothicKit Contributors.
 // SPDX-License-Identifier: MIT
 #include "zenkit/world/BspTree.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "../Internal.hh"
@@ -37,6 +38,10 @@ namespace zenkit {
 		if (leaf) {
 			indices.push_back(self_index);
 		} else {
+			if (in->eof()) {
+				throw ParserError {"BspTree", "node list is truncated"};
+			}
+
 			auto flags = in->read_ubyte();
 
 			node.plane = {};
@@ -50,7 +55,8 @@ namespace zenkit {
 			}
 
 			if ((flags & 0x01) != 0) {
-				node.front_index = static_cast<std::int32_t>(nodes.size());
+				// NOTE: `node` may dangle when child nodes have been added.
+				nodes[self_index].front_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
@@ -60,7 +66,7 @@ namespace zenkit {
 			}
 
 			if ((flags & 0x02) != 0) {
-				node.back_index = static_cast<std::int32_t>(nodes.size());
+				nodes[self_index].back_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
@@ -95,10 +101,15 @@ namespace zenkit {
 				this->nodes.reserve(node_count);
 				this->leaf_node_indices.reserve(leaf_count);
 
-				_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				if (node_count > 0) {
+					_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				}
 
 				for (auto idx : this->leaf_node_indices) {
 					auto& node = this->nodes[idx];
+					if (static_cast<std::uint64_t>(node.polygon_index) + node.polygon_count > this->polygon_indices.size()) {
+						throw ParserError {"BspTree", "leaf refers to polygons which do not exist"};
+					}
 
 					for (uint32_t i = 0; i < node.polygon_count; ++i) {
 						this->leaf_polygons.push_back(this->polygon_indices[node.polygon_index + i]);
-- 
2.43.0


From f53884084c921b7e9aff37d129a3b627d49bd04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 036/103] fix: do not write a light chunk for BSP trees without
 light points

---
 src/world/BspTree.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index eba6cd8..805febf 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -219,11 +219,14 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, BspChunkType::LIGHT, [this](Write* c) {
-			for (auto& point : this->light_points) {
-				c->write_vec3(point);
-			}
-		});
+		// NOTE: When reading this chunk one light point is expected for each leaf.
+		if (!this->light_points.empty()) {
+			proto::write_chunk(w, BspChunkType::LIGHT, [this](Write* c) {
+				for (auto& point : this->light_points) {
+					c->write_vec3(point);
+				}
+			});
+		}
 
 		proto::write_chunk(w, BspChunkType::OUTDOORS, [this](Write* c) {
 			c->write_uint(static_cast<uint32_t>(this->sectors.size()));
-- 
2.43.0


From ad1c9218fd2a8df323580852934cb14cf60c74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 037/103] fix: save the vertex indices and the normal axis of
 mesh polygons the way they are read

---
 src/Mesh.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0462c4a..c162883 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -117,7 +117,7 @@ namespace zenkit {
 						    pflags.is_lod = (flags1 & 0b00010000) >> 4;
 						    pflags.is_outdoor = (flags1 & 0b00100000) >> 5;
 						    pflags.is_ghost_occluder = (flags1 & 0b01000000) >> 6;
-						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | (flags2 & 0b00000001);
+						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | ((flags2 & 0b00000001) << 1);
 						    pflags.sector_index = c->read_short();
 					    }
 
@@ -318,7 +318,7 @@ namespace zenkit {
 					               ((flags.is_sector & 1) << 3) | ((flags.is_lod & 1) << 4) |
 					               ((flags.is_outdoor & 1) << 5) | ((flags.is_ghost_occluder & 1) << 6) |
 					               ((flags.normal_axis & 1) << 7));
-					c->write_ubyte(flags.normal_axis & 2);
+					c->write_ubyte((flags.normal_axis & 2) >> 1);
 					c->write_short(flags.sector_index);
 				}
 
@@ -328,8 +328,8 @@ namespace zenkit {
 						c->write_ushort(this->polygon_vertex_indices[poly.index_offset + i]);
 						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					} else {
-						c->write_uint(this->polygons.vertex_indices[poly.index_offset + i]);
-						c->write_uint(this->polygons.feature_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_vertex_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					}
 				}
 			}
-- 
2.43.0


From bc5976053febb7cb7c3b80d48435e79d38dcb077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 038/103] fix: reject lightmaps which refer to a missing
 texture

---
 src/Mesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index c162883..e03649f 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/Mesh.hh"
 #include "zenkit/Archive.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include <algorithm>
@@ -155,6 +156,10 @@ namespace zenkit {
 					    auto normal_b = c->read_vec3();
 					    std::uint32_t texture_index = c->read_uint();
 
+					    if (texture_index >= texture_count) {
+						    throw ParserError {"Mesh", "lightmap refers to a texture which does not exist"};
+					    }
+
 					    this->lightmaps.emplace_back(
 					        LightMap {lightmap_textures[texture_index], {normal_a, normal_b}, origin});
 				    }
-- 
2.43.0


From 085d10898fda65d90b9595cb0dcd46e2db3b7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 039/103] fix: do not loop forever when the mesh of a world is
 truncated

---
 src/World.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/World.cc b/src/World.cc
index 90c30e6..7163431 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -96,6 +96,10 @@ namespace zenkit {
 				auto mesh_offset = raw->tell();
 
 				do {
+					if (raw->eof()) {
+						throw ParserError {"World", "the mesh of the world is truncated"};
+					}
+
 					chunk_type = raw->read_ushort();
 					raw->seek(raw->read_uint(), Whence::CUR);
 				} while (chunk_type != 0xB060);
-- 
2.43.0


From fca20807d2619d8a6445af4b2fca7fece1c327bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:11 +0000
Subject: [PATCH 040/103] fix: save the spawn flags of worlds as the integer
 they are read as

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index 7163431..b51e6d7 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -245,7 +245,7 @@ namespace zenkit {
 			w.write_bool("spawningEnabled", this->npc_spawn_enabled);
 
 			if (version == GameVersion::GOTHIC_2) {
-				w.write_bool("spawnFlags", this->npc_spawn_flags);
+				w.write_int("spawnFlags", this->npc_spawn_flags);
 			}
 		}
 	}
-- 
2.43.0


From 3feefa6fa16d21cee9cc72c33b5900fda138b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:46 +0000
Subject: [PATCH 041/103] fix: do not delete the current save-game when saving
 to it using another spelling of its path

---
 src/SaveGame.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7327e5a..5bf1f1d 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -328,7 +328,8 @@ namespace zenkit {
 
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
 		// Copy over the current save if necessary.
-		if (_m_path != path) {
+		std::error_code ec;
+		if (_m_path != path && (_m_path.empty() || !std::filesystem::equivalent(_m_path, path, ec))) {
 			if (std::filesystem::exists(path)) {
 				std::filesystem::remove_all(path);
 			}
-- 
2.43.0


From 8bb7998fdbd1841a8270985afdff31487d5e0ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:46 +0000
Subject: [PATCH 042/103] fix: report failures to write the files of a
 save-game

---
 src/SaveGame.cc | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 5bf1f1d..a2dacdc 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -2,13 +2,16 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/SaveGame.hh"
 #include "zenkit/Archive.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 #include "zenkit/World.hh"
 
 #include "Internal.hh"
 
 #include <algorithm>
+#include <fstream>
 #include <set>
+#include <system_error>
 
 namespace zenkit {
 	void SaveMetadata::load(ReadArchive& r, GameVersion version) {
@@ -326,6 +329,17 @@ namespace zenkit {
 		}
 	}
 
+	/// \brief Writes the given data to a file and reports every failure to do so.
+	static void write_file(std::filesystem::path const& path, std::vector<std::byte> const& data) {
+		std::ofstream out {path, std::ios::binary | std::ios::out | std::ios::trunc};
+		out.write(reinterpret_cast<char const*>(data.data()), static_cast<std::streamsize>(data.size()));
+		out.close();
+
+		if (!out) {
+			throw Error {"failed to write save-game file " + path.string()};
+		}
+	}
+
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
 		// Copy over the current save if necessary.
 		std::error_code ec;
@@ -342,41 +356,57 @@ namespace zenkit {
 		}
 
 		{
-			auto w = Write::to(path / "SAVEINFO.SAV");
+			std::vector<std::byte> data {};
+			auto w = Write::to(&data);
 			auto ar = WriteArchive::to(w.get(), ArchiveFormat::ASCII);
 
 			ar->write_object("%", &this->metadata, _m_version);
 			ar->write_header();
+
+			write_file(path / "SAVEINFO.SAV", data);
 		}
 
 		{
-			auto w = Write::to(path / "THUMB.SAV");
+			std::vector<std::byte> data {};
+			auto w = Write::to(&data);
 
 			if (this->thumbnail) {
 				this->thumbnail->save(w.get());
 			}
+
+			write_file(path / "THUMB.SAV", data);
 		}
 
 		{
-			auto w = Write::to(path / "SAVEHDR.SAV");
+			std::vector<std::byte> data {};
+			auto w = Write::to(&data);
+
 			w->write_string(world_name);
 			w->write_string(".ZEN\n");
+
+			write_file(path / "SAVEHDR.SAV", data);
 		}
 
 		{
-			auto w = Write::to(path / "SAVEDAT.SAV");
+			std::vector<std::byte> data {};
+			auto w = Write::to(&data);
 			auto ar = WriteArchive::to_save(w.get(), ArchiveFormat::ASCII);
 
 			this->state.save(*ar, _m_version);
 			ar->write_header();
+
+			write_file(path / "SAVEDAT.SAV", data);
 		}
 
 		{
-			auto w = Write::to(path / (world_name + ".SAV"));
+			std::vector<std::byte> data {};
+			auto w = Write::to(&data);
 			auto ar = WriteArchive::to_save(w.get(), ArchiveFormat::BINARY);
 
 			ar->write_object("%", &world, _m_version);
 			ar->write_header();
+
+			write_file(path / (world_name + ".SAV"), data);
 		}
 
 		_m_path = path;
-- 
2.43.0


From dbd340a51c0d3063b3deae4df29b282dbcb45a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:46 +0000
Subject: [PATCH 043/103] fix: do not write an unreadable thumbnail for
 save-games without one

---
 src/SaveGame.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index a2dacdc..1841b89 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -366,15 +366,15 @@ namespace zenkit {
 			write_file(path / "SAVEINFO.SAV", data);
 		}
 
-		{
+		if (this->thumbnail) {
 			std::vector<std::byte> data {};
 			auto w = Write::to(&data);
-
-			if (this->thumbnail) {
-				this->thumbnail->save(w.get());
-			}
+			this->thumbnail->save(w.get());
 
 			write_file(path / "THUMB.SAV", data);
+		} else {
+			// NOTE: An empty file is not a valid texture and could not be loaded again.
+			std::filesystem::remove(path / "THUMB.SAV");
 		}
 
 		{
-- 
2.43.0


From b06892b461a3d282f8564644fb93c36ca75dae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:46 +0000
Subject: [PATCH 044/103] fix: save script symbols without a value for Gothic I

---
 src/SaveGame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 1841b89..534792f 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -228,7 +228,7 @@ namespace zenkit {
 
 			// For Gothic II saves, there is additional data stored
 			if (version == GameVersion::GOTHIC_1) {
-				w.write_int("symValue" + iStr, sym.values[0]);
+				w.write_int("symValue" + iStr, sym.values.empty() ? 0 : sym.values[0]);
 			} else {
 				w.write_int("symName" + iStr + "cnt", sym.values.size());
 				for (auto v : sym.values) {
-- 
2.43.0


From 117c97ca02a6ce2eca7ee943198580434788fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:46 +0000
Subject: [PATCH 045/103] fix: do not mix save-games when loading another one
 or failing to do so

---
 src/SaveGame.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 534792f..da2141f 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -278,7 +278,11 @@ namespace zenkit {
 	}
 
 	void SaveGame::load(std::filesystem::path const& path) {
-		this->_m_path = path;
+		// NOTE: Everything is loaded anew so that neither the data of a previous save-game is mixed into it nor a
+		//       failure leaves parts of the new save-game behind.
+		SaveMetadata new_metadata {};
+		SaveState new_state {};
+		std::optional<Texture> new_thumbnail {};
 
 		if (!std::filesystem::is_directory(path)) {
 			throw ParserError {"SaveGame", "save game path does not exist or is not a directory"};
@@ -300,7 +304,12 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_info);
 			auto ar = ReadArchive::from(r.get());
-			this->metadata = *ar->read_object<SaveMetadata>(_m_version);
+			auto info = ar->read_object<SaveMetadata>(_m_version);
+			if (info == nullptr) {
+				throw ParserError {"SaveGame", "SAVEINFO.SAV does not contain any save-game information"};
+			}
+
+			new_metadata = std::move(*info);
 		}
 
 		// Load THUMB.SAV
@@ -309,8 +318,8 @@ namespace zenkit {
 			if (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
 				auto r = Read::from(*file_thumb);
 
-				this->thumbnail.emplace();
-				this->thumbnail->load(r.get());
+				new_thumbnail.emplace();
+				new_thumbnail->load(r.get());
 			}
 		}
 
@@ -325,8 +334,13 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_dat);
 			auto ar = ReadArchive::from(r.get());
-			this->state.load(*ar, _m_version);
+			new_state.load(*ar, _m_version);
 		}
+
+		this->metadata = std::move(new_metadata);
+		this->state = std::move(new_state);
+		this->thumbnail = std::move(new_thumbnail);
+		this->_m_path = path;
 	}
 
 	/// \brief Writes the given data to a file and reports every failure to do so.
-- 
2.43.0


From 2094e45197eb24ac452a89ec621f6d430e5e9fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:21 +0000
Subject: [PATCH 046/103] fix: save to the current slot even if its directory
 has been removed

---
 src/SaveGame.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index da2141f..53d6ba6 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -364,11 +364,11 @@ namespace zenkit {
 
 			if (!_m_path.empty() && std::filesystem::exists(_m_path)) {
 				std::filesystem::copy(_m_path, path, std::filesystem::copy_options::recursive);
-			} else {
-				std::filesystem::create_directories(path);
 			}
 		}
 
+		std::filesystem::create_directories(path);
+
 		{
 			std::vector<std::byte> data {};
 			auto w = Write::to(&data);
-- 
2.43.0


From 6e3b98a75d19d5dba397577b768fa50115f67d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:21 +0000
Subject: [PATCH 047/103] fix: remove stale thumbnails of save-games regardless
 of the case of their name

---
 src/SaveGame.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 53d6ba6..455cefa 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -388,7 +388,16 @@ namespace zenkit {
 			write_file(path / "THUMB.SAV", data);
 		} else {
 			// NOTE: An empty file is not a valid texture and could not be loaded again.
-			std::filesystem::remove(path / "THUMB.SAV");
+			//       Like for loading, the name of the old file might be spelled in any case.
+			std::set<std::filesystem::path> entries {};
+			for (auto& file : std::filesystem::directory_iterator(path)) {
+				entries.emplace(file.path());
+			}
+
+			while (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
+				std::filesystem::remove(*file_thumb);
+				entries.erase(*file_thumb);
+			}
 		}
 
 		{
-- 
2.43.0


From bdfce67d694a116f1590d4e5dbd3393ed637399a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:31 +0000
Subject: [PATCH 048/103] fix: save multi-resolution meshes such that they can
 be loaded again

---
 src/MultiResolutionMesh.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index e3bed8c..124ac63 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -129,7 +129,7 @@ namespace zenkit {
 
 		auto off_end = static_cast<ssize_t>(w->tell());
 		w->seek(off_size, Whence::BEG);
-		w->write_uint(off_end - off_size);
+		w->write_uint(off_end - static_cast<ssize_t>(off_content));
 		w->seek(off_end, Whence::BEG);
 
 		w->write_ubyte(this->sub_meshes.size());    // submeshCount
@@ -184,8 +184,8 @@ namespace zenkit {
 		this->bbox.save(w);
 		this->obbox.save(w);
 
-		char padding[10] {0};
-		w->write(padding, 10);
+		char padding[0x10] {0};
+		w->write(padding, sizeof padding);
 	}
 
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
@@ -274,7 +274,7 @@ namespace zenkit {
 			w->write_ushort(tri.wedges[1]);
 			w->write_ushort(tri.wedges[2]);
 		}
-		section.triangles.size = w->tell() - section.triangles.offset;
+		section.triangles.size = static_cast<uint32_t>(this->triangles.size());
 
 		// wedges
 		section.wedges.offset = w->tell();
@@ -284,21 +284,21 @@ namespace zenkit {
 			w->write_ushort(wedge.index);
 			w->write_ushort(0); // padding
 		}
-		section.wedges.size = w->tell() - section.wedges.offset;
+		section.wedges.size = static_cast<uint32_t>(this->wedges.size());
 
 		// colors
 		section.colors.offset = w->tell();
 		for (auto color : this->colors) {
 			w->write_float(color);
 		}
-		section.colors.size = w->tell() - section.colors.offset;
+		section.colors.size = static_cast<uint32_t>(this->colors.size());
 
 		// triangle_plane_indices
 		section.triangle_plane_indices.offset = w->tell();
 		for (auto i : this->triangle_plane_indices) {
 			w->write_ushort(i);
 		}
-		section.triangle_plane_indices.size = w->tell() - section.triangle_plane_indices.offset;
+		section.triangle_plane_indices.size = static_cast<uint32_t>(this->triangle_plane_indices.size());
 
 		// triangle_planes
 		section.triangle_planes.offset = w->tell();
@@ -306,7 +306,7 @@ namespace zenkit {
 			w->write_float(plane.distance);
 			w->write_vec3(plane.normal);
 		}
-		section.triangle_planes.size = w->tell() - section.triangle_planes.offset;
+		section.triangle_planes.size = static_cast<uint32_t>(this->triangle_planes.size());
 
 		// triangle_edges
 		section.triangle_edges.offset = w->tell();
@@ -315,7 +315,7 @@ namespace zenkit {
 			w->write_ushort(edge.edges[1]);
 			w->write_ushort(edge.edges[2]);
 		}
-		section.triangle_edges.size = w->tell() - section.triangle_edges.offset;
+		section.triangle_edges.size = static_cast<uint32_t>(this->triangle_edges.size());
 
 		// edges
 		section.edges.offset = w->tell();
@@ -323,21 +323,25 @@ namespace zenkit {
 			w->write_ushort(edge.edges[0]);
 			w->write_ushort(edge.edges[1]);
 		}
-		section.edges.size = w->tell() - section.edges.offset;
+		section.edges.size = static_cast<uint32_t>(this->edges.size());
 
 		// edge_scores
 		section.edge_scores.offset = w->tell();
 		for (auto score : edge_scores) {
 			w->write_float(score);
 		}
-		section.edge_scores.size = w->tell() - section.edge_scores.offset;
+		section.edge_scores.size = static_cast<uint32_t>(this->edge_scores.size());
 
 		// wedge_map
 		section.wedge_map.offset = w->tell();
 		for (auto wedge : this->wedge_map) {
 			w->write_ushort(wedge);
 		}
-		section.wedge_map.size = w->tell() - section.wedge_map.offset;
+		section.wedge_map.size = static_cast<uint32_t>(this->wedge_map.size());
+
+		// vertex updates are not supported, the section is always empty
+		section.vertex_updates.offset = w->tell();
+		section.vertex_updates.size = 0;
 
 		return section;
 	}
-- 
2.43.0


From 875b662b5f502db641022b2c32c1d02f378f82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:31 +0000
Subject: [PATCH 049/103] fix: save soft-skin meshes such that they can be
 loaded again

---
 src/SoftSkinMesh.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 8612179..6db938f 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -88,9 +88,10 @@ namespace zenkit {
 			this->mesh.save_to_section(wr, version);
 		});
 
-		proto::write_chunk(w, SoftSkinMeshChunkType::HEADER, [&](Write* wr) {
+		proto::write_chunk(w, SoftSkinMeshChunkType::NODES, [&](Write* wr) {
 			auto off_size = static_cast<ssize_t>(wr->tell());
 			wr->write_uint(0);
+			auto off_weights = static_cast<ssize_t>(wr->tell());
 
 			for (auto& we : this->weights) {
 				wr->write_uint(we.size());
@@ -104,7 +105,7 @@ namespace zenkit {
 
 			auto off_end = static_cast<ssize_t>(wr->tell());
 			wr->seek(off_size, Whence::BEG);
-			wr->write_uint(off_end - off_size);
+			wr->write_uint(off_end - off_weights);
 			wr->seek(off_end, Whence::BEG);
 
 			wr->write_uint(this->wedge_normals.size());
-- 
2.43.0


From ca88c7357c1969bf841f4e0a0fc90bf4b0032335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:31 +0000
Subject: [PATCH 050/103] fix: save model meshes such that they can be loaded
 again, check the attachment count

---
 include/zenkit/ModelMesh.hh |  2 +-
 src/ModelMesh.cc            | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/zenkit/ModelMesh.hh b/include/zenkit/ModelMesh.hh
index 010701f..604a414 100644
--- a/include/zenkit/ModelMesh.hh
+++ b/include/zenkit/ModelMesh.hh
@@ -29,6 +29,6 @@ namespace zenkit {
 		std::unordered_map<std::string, MultiResolutionMesh> attachments {};
 
 		/// \brief The checksum of the model hierarchy this model was made for.
-		std::uint32_t checksum;
+		std::uint32_t checksum {};
 	};
 } // namespace zenkit
diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 47122c7..850e66e 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelMesh.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 namespace zenkit {
@@ -19,10 +20,11 @@ namespace zenkit {
 
 	void ModelMesh::load(Read* r) {
 		std::vector<std::string> attachment_names {};
+		size_t attachment_index = 0;
 		proto::read_chunked<ModelMeshChunkType>(
 		    r,
 		    "ModelMesh",
-		    [this, &attachment_names](Read* c, ModelMeshChunkType type, size_t& end) {
+		    [this, &attachment_names, &attachment_index](Read* c, ModelMeshChunkType type, size_t& end) {
 			    switch (type) {
 			    case ModelMeshChunkType::HEADER:
 				    (void) /* version = */ c->read_uint();
@@ -44,7 +46,11 @@ namespace zenkit {
 				    break;
 			    }
 			    case ModelMeshChunkType::PROTO:
-				    this->attachments[attachment_names[this->attachments.size()]].load_from_section(c);
+				    if (attachment_index >= attachment_names.size()) {
+					    throw ParserError {"ModelMesh", "more attachments than attachment names"};
+				    }
+
+				    this->attachments[attachment_names[attachment_index++]].load_from_section(c);
 				    break;
 			    case ModelMeshChunkType::SOFTSKINS: {
 				    this->checksum = c->read_uint();
@@ -90,14 +96,15 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
-			for (auto& [_, v] : this->attachments) {
+		for (auto& [_, v] : this->attachments) {
+			proto::write_chunk(w, ModelMeshChunkType::PROTO, [&v = v, version](Write* wr) {
 				v.save_to_section(wr, version);
-			}
-		});
+			});
+		}
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
+			wr->write_ushort(static_cast<uint16_t>(this->meshes.size()));
 
 			for (auto& msh : this->meshes) {
 				msh.save(wr, version);
-- 
2.43.0


From dffbf725822328ed6446873c7ffb6fd4d6235b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:07 +0000
Subject: [PATCH 051/103] fix: allocate the output buffer when converting
 paletted textures

---
 src/Texture.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index bc5106c..9a9a69e 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -324,6 +324,7 @@ namespace zenkit {
 
 		if (_m_format == TextureFormat::P8) {
 			std::vector<std::uint8_t> conv;
+			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
 				auto palentry = _m_palette[map[i]];
 				conv[i * 4 + 0] = palentry.r;
-- 
2.43.0


From 0e1db5a76bff64efe76b4f9b984b91049db34d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:07 +0000
Subject: [PATCH 052/103] fix: build textures with multiple mipmap levels
 correctly

---
 include/zenkit/Texture.hh |  4 ++--
 src/Texture.cc            | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/Texture.hh b/include/zenkit/Texture.hh
index 6b430b9..2a56683 100644
--- a/include/zenkit/Texture.hh
+++ b/include/zenkit/Texture.hh
@@ -82,13 +82,13 @@ namespace zenkit {
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The width in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_width(std::uint32_t level) const noexcept {
-			return _m_width >> level;
+			return level < 32 && _m_width >> level ? _m_width >> level : 1;
 		}
 
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The height in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_height(std::uint32_t level) const noexcept {
-			return _m_height >> level;
+			return level < 32 && _m_height >> level ? _m_height >> level : 1;
 		}
 
 		/// \return The width of the texture in-engine.
diff --git a/src/Texture.cc b/src/Texture.cc
index 9a9a69e..0931676 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -389,9 +389,15 @@ namespace zenkit {
 		tex._m_mipmap_count = _m_mipmaps.size();
 		tex._m_average_color = {}; // FIXME(lmichaelis): Calculate the average color
 
-		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
+		// Lowest mipmap-level first
+		for (auto i = _m_mipmaps.size(); i-- > 0;) {
 			auto& [data, fmt] = _m_mipmaps[i];
-			tex._m_textures.push_back(_ztex_convert_format(data.data(), _m_width >> i, _m_height >> i, fmt, format));
+			auto level = static_cast<uint32_t>(i);
+			tex._m_textures.push_back(_ztex_convert_format(data.data(),
+			                                               tex.mipmap_width(level),
+			                                               tex.mipmap_height(level),
+			                                               fmt,
+			                                               format));
 		}
 
 		return tex;
-- 
2.43.0


From fb541056cf75336bc37c7b0ea308e45497b5962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:07 +0000
Subject: [PATCH 053/103] fix: convert textures from RGBA8 to B8G8R8A8,
 A8R8G8B8, R5G6B5 and DXT correctly

---
 src/Texture.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 0931676..d55d6ae 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -187,10 +187,10 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i + 0] = bytes[i + 2];
-				conv[i + 1] = bytes[i + 1];
-				conv[i + 2] = bytes[i + 0];
-				conv[i + 3] = bytes[i + 3];
+				conv[i * 4 + 0] = bytes[i * 4 + 2];
+				conv[i * 4 + 1] = bytes[i * 4 + 1];
+				conv[i * 4 + 2] = bytes[i * 4 + 0];
+				conv[i * 4 + 3] = bytes[i * 4 + 3];
 			}
 
 			break;
@@ -209,10 +209,10 @@ namespace zenkit {
 		case TextureFormat::A8R8G8B8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i * 4 + 0] = bytes[i * 4 + 1];
-				conv[i * 4 + 1] = bytes[i * 4 + 2];
-				conv[i * 4 + 2] = bytes[i * 4 + 3];
-				conv[i * 4 + 3] = bytes[i * 4 + 0];
+				conv[i * 4 + 0] = bytes[i * 4 + 3];
+				conv[i * 4 + 1] = bytes[i * 4 + 0];
+				conv[i * 4 + 2] = bytes[i * 4 + 1];
+				conv[i * 4 + 3] = bytes[i * 4 + 2];
 			}
 			break;
 		case TextureFormat::B8G8R8:
@@ -235,23 +235,25 @@ namespace zenkit {
 			conv.resize(width * height * 2);
 
 			for (std::uint32_t i = 0; i < width * height; ++i) {
-				r5g6b5 rgb {
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 0]) / (5. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 1]) / (6. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 2]) / (5. / 8.)),
-				};
+				r5g6b5 rgb {};
+				rgb.r = bytes[i * 4 + 0] >> 3;
+				rgb.g = bytes[i * 4 + 1] >> 2;
+				rgb.b = bytes[i * 4 + 2] >> 3;
 
 				memcpy(conv.data() + i * 2, &rgb, sizeof(rgb));
 			}
 
 			break;
 		case TextureFormat::DXT1:
+			conv.resize(squish::GetStorageRequirements(static_cast<int>(width), static_cast<int>(height), squish::kDxt1));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt1);
 			break;
 		case TextureFormat::DXT3:
+			conv.resize(squish::GetStorageRequirements(static_cast<int>(width), static_cast<int>(height), squish::kDxt3));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt3);
 			break;
 		case TextureFormat::DXT5:
+			conv.resize(squish::GetStorageRequirements(static_cast<int>(width), static_cast<int>(height), squish::kDxt5));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt5);
 			break;
 		default:
-- 
2.43.0


From f2e6751e97a4b62d909bfe252fdfaf74ff693cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:07 +0000
Subject: [PATCH 054/103] fix: reject textures with invalid sizes or mipmap
 counts, discard the data of previously loaded ones

---
 src/Texture.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index d55d6ae..191af53 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -9,6 +9,7 @@
 
 namespace zenkit {
 	constexpr std::string_view ZTEX_SIGNATURE = "ZTEX";
+	constexpr std::uint32_t ZTEX_MAX_MIPMAPS = 32;
 
 #pragma pack(push, 1)
 	struct r5g6b5 {
@@ -296,6 +297,15 @@ namespace zenkit {
 		this->_m_reference_height = r->read_uint();
 		this->_m_average_color = r->read_uint();
 
+		if (this->_m_mipmap_count > ZTEX_MAX_MIPMAPS) {
+			throw ParserError {"texture", "invalid mipmap count: " + std::to_string(this->_m_mipmap_count)};
+		}
+
+		// Make sure that neither the size of the data nor the number of pixels overflow.
+		if (static_cast<uint64_t>(this->_m_width) * this->_m_height > UINT32_MAX / 4) {
+			throw ParserError {"texture", "texture too large"};
+		}
+
 		if (this->_m_format == TextureFormat::P8) {
 			for (auto& i : this->_m_palette) {
 				i.b = r->read_ubyte();
@@ -305,6 +315,8 @@ namespace zenkit {
 			}
 		}
 
+		this->_m_textures.clear();
+
 		// Lowest mipmap-level first
 		for (std::int64_t level = this->_m_mipmap_count - 1; level >= 0; --level) {
 			auto size =
-- 
2.43.0


From abb93005d13401e684c203778b1d743a3528928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:07 +0000
Subject: [PATCH 055/103] fix: do not read past the end of block-compressed
 textures with unaligned sizes

---
 src/Texture.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 191af53..174fd81 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -71,6 +71,24 @@ namespace zenkit {
 		}
 	}
 
+	/// \brief Calculates the size in bytes of the blocks required to represent the given number of pixels.
+	/// \return The number of bytes required or 0 if the format is not block-compressed.
+	static std::size_t _ztex_blocks_size(TextureFormat format, std::uint32_t width, std::uint32_t height) {
+		auto blocks = ((static_cast<std::size_t>(width) + 3) / 4) * ((static_cast<std::size_t>(height) + 3) / 4);
+
+		switch (format) {
+		case TextureFormat::DXT1:
+			return blocks * 8;
+		case TextureFormat::DXT2:
+		case TextureFormat::DXT3:
+		case TextureFormat::DXT4:
+		case TextureFormat::DXT5:
+			return blocks * 16;
+		default:
+			return 0;
+		}
+	}
+
 	std::vector<std::uint8_t> _ztex_to_rgba(uint8_t const* bytes, uint32_t width, uint32_t height, TextureFormat src) {
 		std::vector<std::uint8_t> conv;
 		conv.resize(width * height * 4);
@@ -349,6 +367,14 @@ namespace zenkit {
 			return conv;
 		}
 
+		// The data might be too short if the size of the texture is not a multiple of the block size.
+		auto required = _ztex_blocks_size(_m_format, width, height);
+		if (map.size() < required) {
+			auto padded = map;
+			padded.resize(required);
+			return _ztex_to_rgba(padded.data(), width, height, _m_format);
+		}
+
 		return _ztex_to_rgba(map.data(), width, height, _m_format);
 	}
 
-- 
2.43.0


From d30cabe172f1a8650ec9113e0685c43b8f4c7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:40 +0000
Subject: [PATCH 056/103] fix: do not skip empty event strings and binary data
 resembling whitespace in animations

---
 src/ModelAnimation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 236727b..2f66b64 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -97,10 +97,10 @@ namespace zenkit {
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
-					event.tag = c->read_line(true);
+					event.tag = c->read_line(false);
 
 					for (auto& j : event.content) {
-						j = c->read_line(true);
+						j = c->read_line(false);
 					}
 
 					for (float& value : event.values) {
-- 
2.43.0


From ec4ff96403244ef17d424f75b911a375e0e171a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:40 +0000
Subject: [PATCH 057/103] fix: do not skip binary data resembling whitespace in
 morph meshes, handle large sample counts

---
 src/MorphMesh.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 2e1e15a..48548eb 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -21,14 +21,14 @@ namespace zenkit {
 
 				for (auto i = 0u; i < count; ++i) {
 					this->sources[i].file_date.load(c);
-					this->sources[i].file_name = c->read_line(true);
+					this->sources[i].file_name = c->read_line(false);
 				}
 
 				break;
 			}
 			case MorphMeshChunkType::HEADER:
 				/* version = */ (void) c->read_uint();
-				this->name = c->read_line(true);
+				this->name = c->read_line(false);
 				break;
 			case MorphMeshChunkType::PROTO: {
 				this->mesh.load_from_section(c);
@@ -42,6 +42,7 @@ namespace zenkit {
 				break;
 			case MorphMeshChunkType::ANIMATIONS: {
 				auto animation_count = c->read_ushort();
+				this->animations.clear();
 				this->animations.reserve(animation_count);
 
 				for (int32_t i = 0; i < animation_count; ++i) {
@@ -58,14 +59,14 @@ namespace zenkit {
 					anim.frame_count = c->read_uint();
 
 					anim.vertices.resize(vertex_count);
-					anim.samples.resize(anim.frame_count * vertex_count);
+					anim.samples.resize(static_cast<size_t>(anim.frame_count) * vertex_count);
 
 					for (std::uint32_t j = 0; j < vertex_count; ++j) {
 						anim.vertices[j] = c->read_uint();
 					}
 
-					for (std::uint32_t j = 0; j < vertex_count * anim.frame_count; ++j) {
-						anim.samples[j] = c->read_vec3();
+					for (auto& sample : anim.samples) {
+						sample = c->read_vec3();
 					}
 				}
 				break;
-- 
2.43.0


From 0511a20b74240ffad6c147eb2ddf9878675c575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:40 +0000
Subject: [PATCH 058/103] fix: handle large sample counts in animations

---
 src/ModelAnimation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 2f66b64..3463024 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -119,7 +119,7 @@ namespace zenkit {
 					i = c->read_uint();
 				}
 
-				this->samples.resize(this->node_count * this->frame_count);
+				this->samples.resize(static_cast<size_t>(this->node_count) * this->frame_count);
 				for (auto& i : this->samples) {
 					i.rotation = read_sample_quaternion(c);
 					i.position = read_sample_position(c, this->sample_position_scale, this->sample_position_min);
-- 
2.43.0


From 823409d8eb026fc07953751061da6470f3074f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:20 +0000
Subject: [PATCH 059/103] fix: load fonts with an empty name

---
 src/Font.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Font.cc b/src/Font.cc
index 8358089..90a881f 100644
--- a/src/Font.cc
+++ b/src/Font.cc
@@ -13,7 +13,7 @@ namespace zenkit {
 	    : name(std::move(font_name)), height(font_height), glyphs(std::move(font_glyphs)) {}
 
 	void Font::load(Read* r) {
-		if (auto version = r->read_line(true); version != "1") {
+		if (auto version = r->read_line(false); version != "1") {
 			throw ParserError {"Font", "version mismatch: expected version 1, got " + version};
 		}
 
-- 
2.43.0


From e4b9a7824e29df035dbbd87d6b355a16e7e63473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:17 +0000
Subject: [PATCH 060/103] fix: stop reading event frames in model scripts at
 the first invalid one

---
 src/ModelScript.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 71907dd..de01d7a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -133,8 +133,7 @@ namespace zenkit {
 				std::istringstream stream {frames};
 
 				int32_t fr = 0;
-				while (!stream.eof() && !stream.fail()) {
-					stream >> fr;
+				while (stream >> fr) {
 					evt.frames.push_back(fr);
 				}
 				break;
@@ -363,8 +362,7 @@ namespace zenkit {
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-					    while (!stream.eof()) {
-						    stream >> frame;
+					    while (stream >> frame) {
 						    event.frames.push_back(frame);
 					    }
 					    break;
-- 
2.43.0


From b82c2c32c085e21488f25d5955df246d4ab8cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:17 +0000
Subject: [PATCH 061/103] fix: reject events without an animation in binary
 model scripts

---
 src/ModelScript.cc | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index de01d7a..e09a52a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelScript.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "Internal.hh"
@@ -179,11 +180,18 @@ namespace zenkit {
 	} // namespace mds
 
 	void parse_binary_script(ModelScript& script, Read* r) {
-		auto ani_index = static_cast<uint32_t>(-1);
+		auto current_animation = [&script]() -> MdsAnimation& {
+			if (script.animations.empty()) {
+				throw ParserError {"ModelScript", "animation event without an animation"};
+			}
+
+			return script.animations.back();
+		};
+
 		proto::read_chunked<ModelScriptBinaryChunkType>(
 		    r,
 		    "ModelScript.Binary",
-		    [&script, &ani_index](Read* c, ModelScriptBinaryChunkType type) {
+		    [&script, &current_animation](Read* c, ModelScriptBinaryChunkType type) {
 			    switch (type) {
 			    case ModelScriptBinaryChunkType::MESH_AND_TREE: {
 				    MdsSkeleton mat {};
@@ -212,7 +220,6 @@ namespace zenkit {
 				    anim.speed = c->read_float();
 				    anim.collision_volume_scale = c->read_float();
 				    script.animations.push_back(std::move(anim));
-				    ++ani_index;
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::ANIMATION_ALIAS: {
@@ -261,7 +268,7 @@ namespace zenkit {
 				    trem.field2 = c->read_int();
 				    trem.field3 = c->read_int();
 				    trem.field4 = c->read_int();
-				    script.animations[ani_index].tremors.push_back(trem);
+				    current_animation().tremors.push_back(trem);
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_SFX: {
@@ -270,7 +277,7 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.range = c->read_float();
 				    effect.empty_slot = c->read_uint() != 0;
-				    script.animations[ani_index].sfx.push_back(std::move(effect));
+				    current_animation().sfx.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_SFX_GROUND: {
@@ -279,7 +286,7 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.range = c->read_float();
 				    effect.empty_slot = c->read_uint() != 0;
-				    script.animations[ani_index].sfx_ground.push_back(std::move(effect));
+				    current_animation().sfx_ground.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::MODEL_TAG: {
@@ -371,7 +378,7 @@ namespace zenkit {
 					    break;
 				    }
 
-				    script.animations[ani_index].events.push_back(std::move(event));
+				    current_animation().events.push_back(std::move(event));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_PFX: {
@@ -381,14 +388,14 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.position = c->read_line(false);
 				    effect.attached = c->read_uint() != 0;
-				    script.animations[ani_index].pfx.push_back(std::move(effect));
+				    current_animation().pfx.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_PFX_STOP: {
 				    MdsParticleEffectStop effect {};
 				    effect.frame = c->read_int();
 				    effect.index = c->read_int();
-				    script.animations[ani_index].pfx_stop.push_back(effect);
+				    current_animation().pfx_stop.push_back(effect);
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_MM_ANI: {
@@ -398,7 +405,7 @@ namespace zenkit {
 				    anim.node = c->read_line(false);
 				    (void) c->read_float();
 				    (void) c->read_float();
-				    script.animations[ani_index].morph.push_back(std::move(anim));
+				    current_animation().morph.push_back(std::move(anim));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::ROOT:
-- 
2.43.0


From 35d8f4983f9984906fd20dba7d7789dc12b7b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:17 +0000
Subject: [PATCH 062/103] fix: do not loop forever at the end of truncated
 model scripts

---
 src/ModelScriptDsl.cc | 36 +++++++++++++++++++++++++++---------
 src/ModelScriptDsl.hh |  2 ++
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 6282087..597a4cf 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -30,6 +30,8 @@ namespace zenkit {
 
 	MdsToken MdsTokenizer::next() {
 		_m_value.clear();
+		_m_mark = _m_buffer->tell();
+
 		while (!_m_buffer->eof()) {
 			_m_mark = _m_buffer->tell();
 			auto chr = static_cast<unsigned char>(_m_buffer->read_char());
@@ -54,7 +56,7 @@ namespace zenkit {
 				}
 
 				// skip everything until the end of the line
-				while (_m_buffer->read_char() != '\n')
+				while (!_m_buffer->eof() && _m_buffer->read_char() != '\n')
 					_m_column += 1;
 
 				_m_line += 1;
@@ -66,6 +68,8 @@ namespace zenkit {
 			if (std::isalpha(chr) || chr == '*' || chr == '_' || chr == '.') {
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) return MdsToken::KEYWORD;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 				} while (std::isalnum(chr) || chr == '_' || chr == '-' || chr == '.');
@@ -79,8 +83,7 @@ namespace zenkit {
 
 			// parse strings
 			if (chr == '"') {
-				chr = static_cast<unsigned char>(_m_buffer->read_char());
-				_m_column += 1;
+				chr = this->next_char_or_newline();
 
 				// Modded. Some mods may include `(` and/or `)` in their strings. For this reason we need to handle
 				// all of these cases:
@@ -93,14 +96,16 @@ namespace zenkit {
 				while (chr != '"' && chr != '\n') {
 					if (!std::isspace(chr)) prev = chr;
 					_m_value.push_back(static_cast<char>(chr));
-					chr = static_cast<unsigned char>(_m_buffer->read_char());
-					_m_column += 1;
+					chr = this->next_char_or_newline();
 				}
 
 				if (chr != '"') {
 					WARN_SYNTAX("String not terminated");
-					_m_buffer->seek(-1, Whence::CUR);
-					_m_column -= 1;
+
+					if (!_m_buffer->eof()) {
+						_m_buffer->seek(-1, Whence::CUR);
+						_m_column -= 1;
+					}
 				}
 
 				if (prev == ')') _m_value.pop_back();
@@ -113,6 +118,8 @@ namespace zenkit {
 
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) return floating_point ? MdsToken::FLOAT : MdsToken::INTEGER;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 
@@ -121,6 +128,8 @@ namespace zenkit {
 						floating_point = true;
 
 						_m_value.push_back(static_cast<char>(chr));
+						if (_m_buffer->eof()) return MdsToken::FLOAT;
+
 						chr = static_cast<unsigned char>(_m_buffer->read_char());
 						_m_column += 1;
 					}
@@ -156,7 +165,13 @@ namespace zenkit {
 	}
 
 	void MdsTokenizer::next_line() {
-		while (_m_buffer->read_char() != '\n') {}
+		while (!_m_buffer->eof() && _m_buffer->read_char() != '\n') {}
+	}
+
+	unsigned char MdsTokenizer::next_char_or_newline() {
+		if (_m_buffer->eof()) return '\n';
+		_m_column += 1;
+		return static_cast<unsigned char>(_m_buffer->read_char());
 	}
 
 	void MdsTokenizer::backtrack() {
@@ -410,7 +425,10 @@ namespace zenkit {
 	}
 
 	void MdsParser::ignore_block() {
-		while (this->_m_stream.next() != MdsToken::RBRACE) {}
+		auto token = this->_m_stream.next();
+		while (token != MdsToken::RBRACE && token != MdsToken::END_OF_FILE) {
+			token = this->_m_stream.next();
+		}
 	}
 
 	MdsEventTag MdsParser::parse_eventTag() {
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 67ec5e6..1e376f2 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -38,6 +38,8 @@ namespace zenkit {
 		void next_line();
 
 	private:
+		unsigned char next_char_or_newline();
+
 		Read* _m_buffer;
 		uint32_t _m_line {1}, _m_column {1};
 		std::string _m_value;
-- 
2.43.0


From 74cabb0862330bb6d11b54904e255e3e1918e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:17 +0000
Subject: [PATCH 063/103] fix: report invalid numbers in model scripts as
 syntax errors

---
 src/ModelScriptDsl.cc | 24 +++++++++++++++++++++---
 src/ModelScriptDsl.hh |  2 ++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 597a4cf..7eab490 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -7,6 +7,8 @@
 #include "zenkit/Misc.hh"
 #include "zenkit/Stream.hh"
 
+#include <stdexcept>
+
 #define WARN_SYNTAX(msg) ZKLOGW("ModelScript", "Syntax error (line %d, column %d): %s", _m_line, _m_column, msg)
 
 namespace zenkit {
@@ -231,7 +233,23 @@ namespace zenkit {
 
 	int MdsParser::expect_int() {
 		this->expect<MdsToken::INTEGER>();
-		return std::stoi(_m_stream.token_value());
+		return this->token_as_int();
+	}
+
+	int MdsParser::token_as_int() const {
+		try {
+			return std::stoi(_m_stream.token_value());
+		} catch (std::logic_error const&) {
+			throw ScriptSyntaxError {_m_stream.format_location(), "invalid integer: " + _m_stream.token_value()};
+		}
+	}
+
+	float MdsParser::token_as_float() const {
+		try {
+			return std::stof(_m_stream.token_value());
+		} catch (std::logic_error const&) {
+			throw ScriptSyntaxError {_m_stream.format_location(), "invalid number: " + _m_stream.token_value()};
+		}
 	}
 
 	AnimationFlags MdsParser::expect_flags() {
@@ -275,7 +293,7 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		return std::stoi(_m_stream.token_value());
+		return this->token_as_int();
 	}
 
 	std::optional<float> MdsParser::maybe_number() {
@@ -285,7 +303,7 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		return std::stof(_m_stream.token_value());
+		return this->token_as_float();
 	}
 
 	std::optional<std::string> MdsParser::maybe_string() {
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 1e376f2..0879f1d 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -84,6 +84,8 @@ namespace zenkit {
 		void expect_keyword(std::string_view value);
 		[[nodiscard]] float expect_number();
 		[[nodiscard]] int expect_int();
+		[[nodiscard]] int token_as_int() const;
+		[[nodiscard]] float token_as_float() const;
 		[[nodiscard]] AnimationFlags expect_flags();
 		[[nodiscard]] std::optional<AnimationFlags> maybe_flags();
 
-- 
2.43.0


From 48c72b0131651299b6880625b1fc4b636b0067c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:48 +0000
Subject: [PATCH 064/103] fix: do not terminate if there is not enough memory
 for a string

---
 include/zenkit/Stream.hh | 6 +++---
 src/Stream.cc            | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zenkit/Stream.hh b/include/zenkit/Stream.hh
index 65130b4..50f90c5 100644
--- a/include/zenkit/Stream.hh
+++ b/include/zenkit/Stream.hh
@@ -86,14 +86,14 @@ namespace zenkit {
 		[[nodiscard]] int32_t read_int() noexcept;
 		[[nodiscard]] uint32_t read_uint() noexcept;
 		[[nodiscard]] float read_float() noexcept;
-		[[nodiscard]] std::string read_string(size_t len) noexcept;
-		[[nodiscard]] std::string read_line(bool skipws) noexcept;
+		[[nodiscard]] std::string read_string(size_t len);
+		[[nodiscard]] std::string read_line(bool skipws);
 		[[nodiscard]] Vec2 read_vec2() noexcept;
 		[[nodiscard]] Vec3 read_vec3() noexcept;
 		[[nodiscard]] Mat3 read_mat3() noexcept;
 		[[nodiscard]] Mat4 read_mat4() noexcept;
 
-		[[nodiscard]] virtual std::string read_line_then_ignore(std::string_view chars) noexcept;
+		[[nodiscard]] virtual std::string read_line_then_ignore(std::string_view chars);
 
 		virtual size_t read(void* buf, size_t len) noexcept = 0;
 		virtual void seek(ssize_t off, Whence whence) noexcept = 0;
diff --git a/src/Stream.cc b/src/Stream.cc
index bed3cf0..4d5af4a 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -82,17 +82,17 @@ namespace zenkit {
 		return v.transpose();
 	}
 
-	std::string Read::read_string(size_t len) noexcept {
+	std::string Read::read_string(size_t len) {
 		std::string str(len, '\0');
 		this->read(str.data(), len);
 		return str;
 	}
 
-	std::string Read::read_line(bool skipws) noexcept {
+	std::string Read::read_line(bool skipws) {
 		return read_line_then_ignore(skipws ? " \t\r\n\v\f" : "");
 	}
 
-	std::string Read::read_line_then_ignore(std::string_view chars) noexcept {
+	std::string Read::read_line_then_ignore(std::string_view chars) {
 		std::string str {};
 
 		char c;
-- 
2.43.0


From 1fae5c5c9518a0b44efae4ec284b9cdc250da860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 065/103] fix: do not leave symbol values uninitialised

---
 src/DaedalusScript.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f40ae33..b02707a 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -340,13 +340,13 @@ namespace zenkit {
 		if (!this->is_member()) {
 			switch (this->_m_type) {
 			case DaedalusDataType::FLOAT: {
-				std::unique_ptr<float[]> value {new float[this->_m_count]};
+				std::unique_ptr<float[]> value {new float[this->_m_count] {}};
 				r->read(value.get(), this->_m_count * sizeof(float));
 				this->_m_value = std::move(value);
 				break;
 			}
 			case DaedalusDataType::INT: {
-				std::unique_ptr<std::int32_t[]> value {new std::int32_t[this->_m_count]};
+				std::unique_ptr<std::int32_t[]> value {new std::int32_t[this->_m_count] {}};
 				r->read(value.get(), this->_m_count * sizeof(std::uint32_t));
 				this->_m_value = std::move(value);
 				break;
@@ -369,7 +369,7 @@ namespace zenkit {
 				break;
 			case DaedalusDataType::FUNCTION:
 				if (!this->is_const()) {
-					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1]);
+					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1] {});
 				}
 				this->_m_address = r->read_int();
 				break;
-- 
2.43.0


From efed6974f861486c40ceac22c6b84328d2069337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 066/103] fix: do not skip data after the parent of a constant
 string

---
 src/DaedalusScript.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index b02707a..f04bab3 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -403,7 +403,6 @@ namespace zenkit {
 			if (byte == 0) {
 				// We didn't find any match.
 				r->seek(static_cast<ssize_t>(savepoint), Whence::BEG);
-				this->_m_parent = r->read_int();
 				ZKLOGW("DaedalusSymbol", "Heuristic: No valid endpoint found. Aborting search. Issues might arise.");
 			}
 		}
-- 
2.43.0


From 4713f498b0db59f56afb9a3156a85a1f0fd7b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 067/103] fix: stay inside of the symbol table when looking for
 parameters and locals

---
 src/DaedalusScript.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f04bab3..f1d176c 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -193,26 +193,29 @@ namespace zenkit {
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) {
-		return std::span<DaedalusSymbol>(_m_symbols.begin() + parent->index() + 1,
-		                                 _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto const first = std::min<size_t>(parent->index() + size_t {1}, _m_symbols.size());
+		auto const count = std::min<size_t>(parent->count(), _m_symbols.size() - first);
+		return std::span<DaedalusSymbol>(_m_symbols.data() + first, count);
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_locals_for_function(DaedalusSymbol const* parent) {
-		std::uint32_t const first = parent->index() + 1 + parent->count();
-		for (size_t i = first; i < _m_symbols.size(); ++i) {
-			auto& name = _m_symbols[i].name();
+		auto const first = std::min<size_t>(parent->index() + size_t {1} + parent->count(), _m_symbols.size());
+		auto last = first;
+		for (; last < _m_symbols.size(); ++last) {
+			auto& name = _m_symbols[last].name();
 			if (name.find(parent->name()) == 0 && name.size() >= parent->name().size() &&
 			    name[parent->name().size()] == '.') {
 				continue;
 			}
-			return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + i);
+			break;
 		}
-		return {};
+		return std::span<DaedalusSymbol>(_m_symbols.data() + first, last - first);
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-		return std::span<DaedalusSymbol const>(_m_symbols.begin() + parent->index() + 1,
-		                                       _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto const first = std::min<size_t>(parent->index() + size_t {1}, _m_symbols.size());
+		auto const count = std::min<size_t>(parent->count(), _m_symbols.size() - first);
+		return std::span<DaedalusSymbol const>(_m_symbols.data() + first, count);
 	}
 
 	std::vector<DaedalusSymbol*> DaedalusScript::find_class_members(DaedalusSymbol const& cls) {
-- 
2.43.0


From fb2e6c50c3dd25e54661675d5c91f0e25800b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:51 +0000
Subject: [PATCH 068/103] fix: do not mix symbols of a script loaded before
 into the new one

---
 src/DaedalusScript.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f1d176c..570a662 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -91,6 +91,9 @@ namespace zenkit {
 		this->_m_version = r->read_ubyte();
 		auto symbol_count = r->read_uint();
 
+		this->_m_symbols.clear();
+		this->_m_symbols_by_name.clear();
+		this->_m_symbols_by_address.clear();
 		this->_m_symbols.resize(symbol_count);
 		this->_m_symbols_by_name.reserve(symbol_count + 1);
 		this->_m_symbols_by_address.reserve(symbol_count);
-- 
2.43.0


From f7c4b85e60574e9ff03b3a1b5f99faf1c820f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 069/103] fix: do not access values of functions out of bounds

---
 src/DaedalusScript.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 570a662..340fb92 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -375,7 +375,7 @@ namespace zenkit {
 				break;
 			case DaedalusDataType::FUNCTION:
 				if (!this->is_const()) {
-					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1] {});
+					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[std::max(this->_m_count, 1U)] {});
 				}
 				this->_m_address = r->read_int();
 				break;
@@ -483,7 +483,11 @@ namespace zenkit {
 			return *get_member_ptr<std::int32_t>(index, context);
 		}
 
-		return std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index];
+		auto& values = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+		if (values == nullptr) {
+			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
+		}
+		return values[index];
 	}
 
 	void DaedalusSymbol::set_string(std::string_view value, std::uint16_t index, DaedalusInstance* context) {
@@ -557,7 +561,11 @@ namespace zenkit {
 
 			*get_member_ptr<std::int32_t>(index, context) = value;
 		} else {
-			std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index] = value;
+			auto& values = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+			if (values == nullptr) {
+				throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
+			}
+			values[index] = value;
 		}
 	}
 
-- 
2.43.0


From aaa9d3e36ed56ae399fd1c255bc30d6f603038a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 070/103] fix: do not truncate the index of float members

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 340fb92..a8f30f8 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -456,7 +456,7 @@ namespace zenkit {
 				return reinterpret_cast<DaedalusTransientInstance const&>(*context).get_float(*this, index);
 			}
 
-			return *get_member_ptr<float>(static_cast<uint8_t>(index), context);
+			return *get_member_ptr<float>(index, context);
 		}
 
 		return std::get<std::unique_ptr<float[]>>(_m_value)[index];
-- 
2.43.0


From c49663ce297e99b875dae2866edcea1a30bec5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:21 +0000
Subject: [PATCH 071/103] fix: report access to instances which are class
 members as illegal

---
 src/DaedalusScript.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index a8f30f8..3d3df97 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -570,7 +570,7 @@ namespace zenkit {
 	}
 
 	std::shared_ptr<DaedalusInstance> const& DaedalusSymbol::get_instance() {
-		if (type() != DaedalusDataType::INSTANCE) {
+		if (type() != DaedalusDataType::INSTANCE || is_member()) {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INSTANCE);
 		}
 
@@ -578,7 +578,7 @@ namespace zenkit {
 	}
 
 	void DaedalusSymbol::set_instance(std::shared_ptr<DaedalusInstance> const& inst) {
-		if (type() != DaedalusDataType::INSTANCE) {
+		if (type() != DaedalusDataType::INSTANCE || is_member()) {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INSTANCE);
 		}
 
-- 
2.43.0


From 7577f5438f97506c56077b2970e61a690ed8fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:07 +0000
Subject: [PATCH 072/103] fix: apply the size limit to textures without width
 or height

---
 src/Texture.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 174fd81..0c7ae90 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -320,7 +320,7 @@ namespace zenkit {
 		}
 
 		// Make sure that neither the size of the data nor the number of pixels overflow.
-		if (static_cast<uint64_t>(this->_m_width) * this->_m_height > UINT32_MAX / 4) {
+		if (static_cast<uint64_t>(std::max(1u, this->_m_width)) * std::max(1u, this->_m_height) > UINT32_MAX / 4) {
 			throw ParserError {"texture", "texture too large"};
 		}
 
-- 
2.43.0


From 90dd5d45278ca12dcc6c1af72bba403b946881b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 073/103] fix: do not crash when a script divides the smallest
 integer by -1

---
 src/DaedalusVm.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0b4420e..cd2a533 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -151,7 +151,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a / b);
+				push_int(static_cast<int32_t>(static_cast<int64_t>(a) / b));
 				break;
 			case DaedalusOpcode::MOD:
 				a = pop_int();
@@ -159,7 +159,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a % b);
+				push_int(static_cast<int32_t>(static_cast<int64_t>(a) % b));
 				break;
 			case DaedalusOpcode::OR:
 				push_int(pop_int() | pop_int());
@@ -384,8 +384,8 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) / value;
-					ref->set_int(result, idx, context.get());
+					auto result = static_cast<int64_t>(ref->get_int(idx, context.get())) / value;
+					ref->set_int(static_cast<int32_t>(result), idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
 				}
-- 
2.43.0


From 420a3327cfbd0c9be58c599df61f00533f7acca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 074/103] fix: do not lose arguments when saving fewer locals
 than there are parameters

---
 src/DaedalusVm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index cd2a533..c5b87b8 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -548,7 +548,7 @@ namespace zenkit {
 		// Move function arguments further back, since we're currently at the call instruction and the
 		// arguments for the next call have already been pushed.
 		_m_stack_ptr -= params.size();
-		for (size_t i = 0; i < params.size(); ++i) {
+		for (size_t i = params.size(); i-- > 0 && locals_size > 0;) {
 			_m_stack[_m_stack_ptr + locals_size + i] = std::move(_m_stack[_m_stack_ptr + i]);
 		}
 
-- 
2.43.0


From 2fbaa669a2f6367adbe2dca6d8fa854faa44ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 075/103] fix: report instances without a registered type
 instead of crashing

---
 include/zenkit/DaedalusScript.hh |  8 +++++---
 include/zenkit/DaedalusVm.hh     | 19 ++++++++++++-------
 src/DaedalusVm.cc                |  8 ++++++--
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 1b55f89..56c6bf9 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -677,7 +677,7 @@ namespace zenkit {
 		}
 
 		[[nodiscard]] ZKAPI std::type_info const& registered_to() const noexcept {
-			return *_m_registered_to;
+			return _m_registered_to != nullptr ? *_m_registered_to : typeid(void);
 		}
 
 		ZKAPI void grow(uint32_t n);
@@ -686,7 +686,8 @@ namespace zenkit {
 		template <typename T>
 		T const* get_member_ptr(std::uint16_t index, DaedalusInstance const* context) const {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
-			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			auto& type = context->_m_type != nullptr ? *context->_m_type : typeid(void);
+			if (*_m_registered_to != type) throw DaedalusIllegalContextType {this, type};
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
@@ -696,7 +697,8 @@ namespace zenkit {
 		template <typename T>
 		T* get_member_ptr(std::uint16_t index, DaedalusInstance* context) {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
-			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			auto& type = context->_m_type != nullptr ? *context->_m_type : typeid(void);
+			if (*_m_registered_to != type) throw DaedalusIllegalContextType {this, type};
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 17a81ee..23269ac 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -302,10 +302,15 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent->type() != DaedalusDataType::CLASS) {
+			// A class is reached after less steps than there are symbols, unless the parents form a circle.
+			for (auto i = symbols().size(); i > 0 && parent != nullptr && parent->type() != DaedalusDataType::CLASS; --i) {
 				parent = find_symbol_by_index(parent->parent());
 			}
 
+			if (parent == nullptr || parent->type() != DaedalusDataType::CLASS) {
+				throw DaedalusVmException {"Cannot init " + sym->name() + ": parent class not found"};
+			}
+
 			if (parent->registered_to() != typeid(_instance_t)) {
 				throw DaedalusVmException {"Cannot init " + sym->name() +
 				                           ": parent class is not registered or is "
@@ -790,8 +795,8 @@ namespace zenkit {
 					auto& expected = typeid(typename T::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -808,8 +813,8 @@ namespace zenkit {
 					auto& expected = typeid(std::remove_pointer_t<T>);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -970,8 +975,8 @@ namespace zenkit {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index c5b87b8..03dc47c 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -87,11 +87,15 @@ namespace zenkit {
 	}
 
 	std::shared_ptr<DaedalusInstance> DaedalusVm::init_opaque_instance(DaedalusSymbol* sym) {
+		if (sym == nullptr) {
+			throw DaedalusVmException {"Cannot init instance: not found"};
+		}
+
 		auto cls = sym;
-		while (cls != nullptr && cls->type() != DaedalusDataType::CLASS) {
+		for (auto i = symbols().size(); i > 0 && cls != nullptr && cls->type() != DaedalusDataType::CLASS; --i) {
 			cls = find_symbol_by_index(cls->parent());
 		}
-		if (cls == nullptr) {
+		if (cls == nullptr || cls->type() != DaedalusDataType::CLASS) {
 			// We're probably trying to initialize $INSTANCE_HELP which is not permitted
 			throw DaedalusVmException {"Cannot init " + sym->name() +
 			                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
-- 
2.43.0


From 44d5796ffed1ebcc13d235c6e269bf6f27521b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:19 +0000
Subject: [PATCH 076/103] fix: do not create opaque instances of classes not
 registered as such

---
 src/DaedalusVm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 03dc47c..786424c 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -101,6 +101,10 @@ namespace zenkit {
 			                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 		}
 
+		if (cls->registered_to() != typeid(DaedalusOpaqueInstance)) {
+			throw DaedalusVmException {"Cannot init " + sym->name() + ": parent class is not registered as opaque"};
+		}
+
 		// create the instance
 		auto inst = std::make_shared<DaedalusOpaqueInstance>(*cls, find_class_members(*cls));
 		init_instance(inst, sym);
-- 
2.43.0


From d22619ef9569b37d95978c485cfed53e30381f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:19 +0000
Subject: [PATCH 077/103] fix: keep temporary strings apart and free the ones
 which are discarded

---
 include/zenkit/DaedalusVm.hh | 10 +++++++---
 src/DaedalusVm.cc            | 20 +++++++++++++++-----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 23269ac..4262980 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -154,7 +154,7 @@ namespace zenkit {
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
 				if (sym->has_return()) {
 					// Make sure to still pop the return value off of the stack.
-					_m_stack_ptr--;
+					discard_stack(_m_stack_ptr - 1U);
 				}
 
 				return {};
@@ -325,14 +325,14 @@ namespace zenkit {
 		ZKAPI void push_int(std::int32_t value);
 		ZKAPI void push_float(float value);
 		ZKAPI void push_instance(std::shared_ptr<DaedalusInstance> value);
-		ZKAPI void push_reference(DaedalusSymbol* value, std::uint8_t index = 0);
+		ZKAPI void push_reference(DaedalusSymbol* value, std::uint16_t index = 0);
 		ZKAPI void push_string(std::string_view value);
 
 		[[nodiscard]] ZKAPI std::int32_t pop_int();
 		[[nodiscard]] ZKAPI float pop_float();
 		[[nodiscard]] ZKAPI std::shared_ptr<DaedalusInstance> pop_instance();
 		[[nodiscard]] ZKAPI std::string const& pop_string();
-		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>>
+		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>>
 		pop_reference();
 		[[nodiscard]] ZKAPI bool top_is_reference() const;
 
@@ -995,6 +995,10 @@ namespace zenkit {
 			}
 		}
 
+		/// \brief Removes the topmost stack frames until only the given number of them is left.
+		/// \param size The number of stack frames to keep.
+		ZKAPI void discard_stack(uint32_t size);
+
 		/// \brief Mark the temporary string at the given index as free.
 		void mark_free_string(uint32_t index);
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 786424c..646cef3 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -477,7 +477,7 @@ namespace zenkit {
 		if (!call.function->has_return()) {
 			// No special logic needed, there are supposed to be no more stack frames for
 			// this function, so just reset the stack for the caller.
-			_m_stack_ptr = call.stack_ptr;
+			discard_stack(call.stack_ptr);
 		} else {
 			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
 			if (remaining_locals == 0) {
@@ -487,8 +487,8 @@ namespace zenkit {
 			} else if (remaining_locals > 1) {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
 				// since that one is supposed to be the return value of the function.
-				DaedalusStackFrame frame = _m_stack[--_m_stack_ptr];
-				_m_stack_ptr = call.stack_ptr;
+				DaedalusStackFrame frame = std::move(_m_stack[--_m_stack_ptr]);
+				discard_stack(call.stack_ptr);
 				_m_stack[_m_stack_ptr++] = std::move(frame);
 			}
 			// else {
@@ -659,7 +659,7 @@ namespace zenkit {
 		_m_stack[_m_stack_ptr++] = {nullptr, false, value};
 	}
 
-	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint8_t index) {
+	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint16_t index) {
 		if (_m_stack_ptr == stack_size) {
 			throw DaedalusVmException {"stack overflow"};
 		}
@@ -737,7 +737,7 @@ namespace zenkit {
 		throw DaedalusVmException {"tried to pop_float but frame does not contain a float."};
 	}
 
-	std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
+	std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
 		if (_m_stack_ptr == 0) {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
@@ -1153,6 +1153,16 @@ namespace zenkit {
 		}
 	}
 
+	void DaedalusVm::discard_stack(uint32_t size) {
+		while (_m_stack_ptr > size) {
+			DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+
+			if (v.reference && std::get<DaedalusSymbol*>(v.value) == _m_temporary_strings) {
+				this->mark_free_string(v.index);
+			}
+		}
+	}
+
 	void DaedalusVm::mark_free_string(uint32_t index) {
 		this->_m_temporary_strings_free.push(index);
 	}
-- 
2.43.0


From 660e94ce4de75f1b287a5a5f6141878ebfa76b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:19 +0000
Subject: [PATCH 078/103] fix: do not access the VM stack out of bounds when
 values are missing

---
 src/DaedalusVm.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 646cef3..fc13bc0 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -4,6 +4,7 @@
 
 #include "Internal.hh"
 
+#include <algorithm>
 #include <utility>
 
 namespace zenkit {
@@ -467,13 +468,17 @@ namespace zenkit {
 			push_local_variables(sym);
 		}
 		auto var_count = this->find_parameters_for_function(sym).size();
-		_m_call_stack.push_back({sym, _m_pc, _m_stack_ptr - static_cast<uint32_t>(var_count), _m_instance});
+		// There might be less values on the stack than the function has parameters if the script is broken.
+		auto stack_ptr = static_cast<uint32_t>(_m_stack_ptr - std::min<size_t>(_m_stack_ptr, var_count));
+		_m_call_stack.push_back({sym, _m_pc, stack_ptr, _m_instance});
 	}
 
 	void DaedalusVm::pop_call() {
 		auto const& call = _m_call_stack.back();
 
-		// First, try to fix up the stack.
+		// First, try to fix up the stack. The function might have taken more values than it was given.
+		_m_stack_ptr = std::max(_m_stack_ptr, static_cast<uint16_t>(call.stack_ptr));
+
 		if (!call.function->has_return()) {
 			// No special logic needed, there are supposed to be no more stack frames for
 			// this function, so just reset the stack for the caller.
-- 
2.43.0


From 14aeb67e17a814ddc68a64717d62d32be25f858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:08 +0000
Subject: [PATCH 079/103] fix: restore the state of the VM when a call fails

---
 include/zenkit/DaedalusVm.hh |  32 +++++++++-
 src/DaedalusVm.cc            | 120 ++++++++++++++++++++++++-----------
 2 files changed, 112 insertions(+), 40 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 4262980..14df86b 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -146,7 +146,13 @@ namespace zenkit {
 			}
 
 			if constexpr (sizeof...(P) > 0) {
-				push_call_parameters<0, P...>(params, args...);
+				auto const stack_ptr = _m_stack_ptr;
+				try {
+					push_call_parameters<0, P...>(params, args...);
+				} catch (...) {
+					discard_stack(stack_ptr);
+					throw;
+				}
 			}
 
 			unsafe_call(sym);
@@ -221,7 +227,13 @@ namespace zenkit {
 
 			if (_m_self_sym) _m_self_sym->set_instance(_m_instance);
 
-			unsafe_call(sym);
+			try {
+				unsafe_call(sym);
+			} catch (...) {
+				_m_instance = old_instance;
+				if (_m_self_sym) _m_self_sym->set_instance(old_self_instance);
+				throw;
+			}
 
 			// reset the VM state
 			_m_instance = old_instance;
@@ -732,7 +744,21 @@ namespace zenkit {
 		/// \brief Pops a function-local variables from the call stack.
 		///
 		/// Part of #pop_call implementation
-		ZKINT void pop_local_variables(DaedalusSymbol const* sym);
+		/// \param sym The symbol referring to the function called.
+		/// \param has_return Whether the function has left its return value on top of the stack.
+		ZKINT void pop_local_variables(DaedalusSymbol const* sym, bool has_return);
+
+		/// \brief Runs a call of a function and restores the state from before it if it fails.
+		///
+		/// If the call fails, its arguments are removed from the stack and a default return value is pushed instead.
+		///
+		/// \param sym The symbol referring to the function called.
+		/// \param call Calls the function.
+		ZKINT void guarded_call(DaedalusSymbol* sym, std::function<void(DaedalusVm&)> const& call);
+
+		/// \brief Removes call stack frames of functions which have failed.
+		/// \param depth The number of call stack frames to keep.
+		ZKINT void unwind_calls(size_t depth);
 
 		/// \brief Checks that the type of each symbol in the given set of defined symbols matches the given type
 		/// parameters.
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index fc13bc0..c0c0bc0 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -37,7 +37,12 @@ namespace zenkit {
 		~StackGuard() {
 			if (_m_inhibited) return;
 
-			StackGuard::fix(_m_machine, _m_type);
+			try {
+				StackGuard::fix(_m_machine, _m_type);
+			} catch (std::exception const& e) {
+				// Another exception is already being handled.
+				ZKLOGE("DaedalusVm", "Cannot fix up the stack: %s", e.what());
+			}
 		}
 
 		/// \brief Inhibits this guard.
@@ -113,14 +118,21 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::unsafe_call(DaedalusSymbol const* sym) {
+		auto const depth = _m_call_stack.size();
 		push_call(sym);
-		jump(sym->address());
 
-		// execute until an op_return is reached
-		while (exec())
-			;
+		try {
+			jump(sym->address());
+
+			// execute until an op_return is reached
+			while (exec())
+				;
 
-		pop_call();
+			pop_call();
+		} catch (...) {
+			unwind_calls(depth);
+			throw;
+		}
 	}
 
 	void DaedalusVm::unsafe_jump(uint32_t address) {
@@ -242,19 +254,15 @@ namespace zenkit {
 			case DaedalusOpcode::BL: {
 				// Check if the function is overridden and if it is, call the resulting external.
 				sym = find_symbol_by_address(instr.address);
+				if (sym == nullptr) {
+					throw DaedalusVmException {"bl: no symbol found for address " + std::to_string(instr.address)};
+				}
+
 				if (auto cb = _m_function_overrides.find(instr.address); cb != _m_function_overrides.end()) {
-					// Guard against exceptions during external invocation.
-					StackGuard guard {this, sym->rtype()};
 					// Call maybe naked.
-					cb->second(*this);
-					// The stack is left intact.
-					guard.inhibit();
+					guarded_call(sym, cb->second);
 				} else {
-					if (sym == nullptr) {
-						throw DaedalusVmException {"bl: no symbol found for address " + std::to_string(instr.address)};
-					}
-
-					unsafe_call(sym);
+					guarded_call(sym, [sym](DaedalusVm& vm) { vm.unsafe_call(sym); });
 				}
 
 				break;
@@ -265,26 +273,21 @@ namespace zenkit {
 					throw DaedalusVmException {"be: no external found for index"};
 				}
 
-				// Guard against exceptions during external invocation.
-				StackGuard guard {this, sym->rtype()};
+				guarded_call(sym, [sym](DaedalusVm& vm) {
+					auto cb = vm._m_externals.find(sym);
+					if (cb == vm._m_externals.end()) {
+						if (vm._m_default_external.has_value()) {
+							(*vm._m_default_external)(vm, *sym);
+							return;
+						}
 
-				auto cb = _m_externals.find(sym);
-				if (cb == _m_externals.end()) {
-					if (_m_default_external.has_value()) {
-						(*_m_default_external)(*this, *sym);
-						guard.inhibit();
-						break;
+						throw DaedalusVmException {"be: no external registered for " + sym->name()};
 					}
 
-					throw DaedalusVmException {"be: no external registered for " + sym->name()};
-				}
-
-				push_call(sym);
-				cb->second(*this);
-				pop_call();
-
-				// The stack is left intact.
-				guard.inhibit();
+					vm.push_call(sym);
+					cb->second(vm);
+					vm.pop_call();
+				});
 				break;
 			}
 			case DaedalusOpcode::PUSHI:
@@ -463,6 +466,49 @@ namespace zenkit {
 		return true;
 	}
 
+	void DaedalusVm::guarded_call(DaedalusSymbol* sym, std::function<void(DaedalusVm&)> const& call) {
+		auto const depth = _m_call_stack.size();
+		auto const pc = _m_pc;
+		auto const instance = _m_instance;
+		auto const params = find_parameters_for_function(sym).size();
+		auto const stack_ptr = static_cast<uint32_t>(_m_stack_ptr - std::min<size_t>(_m_stack_ptr, params));
+
+		// Guard against exceptions during the call.
+		StackGuard guard {this, sym->has_return() ? sym->rtype() : DaedalusDataType::VOID};
+
+		try {
+			call(*this);
+		} catch (...) {
+			// Restore the state from before the call, but without the arguments.
+			unwind_calls(depth);
+			discard_stack(stack_ptr);
+			_m_pc = pc;
+			_m_instance = instance;
+			throw;
+		}
+
+		// The stack is left intact.
+		guard.inhibit();
+	}
+
+	void DaedalusVm::unwind_calls(size_t depth) {
+		while (_m_call_stack.size() > depth) {
+			auto call = _m_call_stack.back();
+
+			// Remove everything the function has left on the stack.
+			_m_stack_ptr = std::max(_m_stack_ptr, static_cast<uint16_t>(call.stack_ptr));
+			discard_stack(call.stack_ptr);
+
+			if (call.function->has_local_variables_enabled()) {
+				pop_local_variables(call.function, false);
+			}
+
+			_m_pc = call.program_counter;
+			_m_instance = call.context;
+			_m_call_stack.pop_back();
+		}
+	}
+
 	void DaedalusVm::push_call(DaedalusSymbol const* sym) {
 		if (sym->has_local_variables_enabled()) {
 			push_local_variables(sym);
@@ -504,7 +550,7 @@ namespace zenkit {
 		}
 
 		if (call.function->has_local_variables_enabled()) {
-			pop_local_variables(call.function);
+			pop_local_variables(call.function, call.function->has_return());
 		}
 
 		// Second, reset PC and context, then remove the call stack frame
@@ -598,7 +644,7 @@ namespace zenkit {
 		_m_stack_ptr += params.size();
 	}
 
-	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym) {
+	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym, bool has_return) {
 		int has_recursion = 0;
 		for (auto& i : _m_call_stack) {
 			if (i.function == sym) {
@@ -611,7 +657,7 @@ namespace zenkit {
 		}
 
 		DaedalusStackFrame ret;
-		if (sym->has_return()) {
+		if (has_return) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
 		}
 
@@ -651,7 +697,7 @@ namespace zenkit {
 			}
 		}
 
-		if (sym->has_return()) {
+		if (has_return) {
 			_m_stack[_m_stack_ptr++] = std::move(ret);
 		}
 	}
-- 
2.43.0


From 28d2c9a4fd330d4d365b5c6ba1c472af711f38a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 080/103] fix: keep arguments of externals valid while the
 external is running

---
 include/zenkit/DaedalusVm.hh | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 14df86b..84a2af1 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -6,6 +6,7 @@
 
 #include <array>
 #include <cstdint>
+#include <deque>
 #include <functional>
 #include <memory>
 #include <optional>
@@ -473,6 +474,7 @@ namespace zenkit {
 
 			// *evil template hacking ensues*
 			_m_externals[sym] = [callback](DaedalusVm& machine) {
+				ExternalArguments const arguments {machine};
 				if constexpr (std::same_as<void, R>) {
 					if constexpr (sizeof...(P) > 0) {
 						auto v = machine.pop_values_for_external<P...>();
@@ -561,6 +563,7 @@ namespace zenkit {
 			// *evil template hacking ensues*
 			_m_function_overrides[sym->address()] = [callback, sym](DaedalusVm& machine) {
 				machine.push_call(sym);
+				ExternalArguments const arguments {machine};
 				if constexpr (std::same_as<void, R>) {
 					if constexpr (sizeof...(P) > 0) {
 						auto v = machine.pop_values_for_external<P...>();
@@ -849,7 +852,9 @@ namespace zenkit {
 					}
 				}
 
-				return reinterpret_cast<T>(r.get());
+				// The pointer has to stay valid until the external returns.
+				_m_external_arguments.emplace_back(r);
+				return static_cast<T>(r.get());
 			} else if constexpr (std::same_as<float, T>) {
 				return pop_float();
 			} else if constexpr (std::same_as<std::int32_t, T>) {
@@ -857,7 +862,8 @@ namespace zenkit {
 			} else if constexpr (std::same_as<bool, T>) {
 				return pop_int() != 0;
 			} else if constexpr (std::same_as<std::string_view, T>) {
-				return pop_string();
+				// The string has to stay valid until the external returns, even if it runs other script functions.
+				return std::get<std::string>(_m_external_arguments.emplace_back(pop_string()));
 			} else if constexpr (std::same_as<DaedalusSymbol*, T>) {
 				return std::get<0>(pop_reference());
 			} else if constexpr (std::same_as<DaedalusFunction, T>) {
@@ -1035,6 +1041,24 @@ namespace zenkit {
 		std::array<DaedalusStackFrame, stack_size> _m_stack;
 		uint16_t _m_stack_ptr {0};
 
+		/// \brief Keeps arguments of externals alive while the externals are running.
+		std::deque<std::variant<std::string, std::shared_ptr<DaedalusInstance>>> _m_external_arguments;
+
+		/// \brief Removes the arguments of one call of an external after it is done.
+		struct ExternalArguments {
+			explicit ExternalArguments(DaedalusVm& vm) : machine(vm), count(vm._m_external_arguments.size()) {}
+			ExternalArguments(ExternalArguments const&) = delete;
+			ExternalArguments& operator=(ExternalArguments const&) = delete;
+
+			~ExternalArguments() {
+				while (machine._m_external_arguments.size() > count)
+					machine._m_external_arguments.pop_back();
+			}
+
+			DaedalusVm& machine;
+			size_t count;
+		};
+
 		std::vector<DaedalusCallStackFrame> _m_call_stack;
 		std::unordered_map<DaedalusSymbol*, std::function<void(DaedalusVm&)>> _m_externals;
 		std::unordered_map<uint32_t, std::function<void(DaedalusVm&)>> _m_function_overrides;
-- 
2.43.0


From a94588ca9b8473144d297fa26ab40fc54acfa3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 081/103] fix: pop all kinds of parameters of unregistered
 externals

---
 src/DaedalusVm.cc | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index c0c0bc0..85c7e1c 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -866,28 +866,13 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::register_default_external(std::function<void(DaedalusSymbol const&)> const& callback) {
-		_m_default_external = [this, callback](DaedalusVm& v, DaedalusSymbol const& sym) {
+		_m_default_external = [callback](DaedalusVm& v, DaedalusSymbol const& sym) {
 			// pop all parameters from the stack
-			auto params = find_parameters_for_function(&sym);
-			for (int i = static_cast<int>(params.size()) - 1; i >= 0; --i) {
-				auto& par = params[static_cast<unsigned>(i)];
-				if (par.type() == DaedalusDataType::INT)
-					(void) v.pop_int();
-				else if (par.type() == DaedalusDataType::FLOAT)
-					(void) v.pop_float();
-				else if (par.type() == DaedalusDataType::INSTANCE || par.type() == DaedalusDataType::STRING)
-					(void) v.pop_reference();
-			}
+			auto params = static_cast<uint32_t>(v.find_parameters_for_function(&sym).size());
+			v.discard_stack(v._m_stack_ptr - std::min<uint32_t>(v._m_stack_ptr, params));
 
 			if (sym.has_return()) {
-				if (sym.rtype() == DaedalusDataType::FLOAT)
-					v.push_float(0.0f);
-				else if (sym.rtype() == DaedalusDataType::INT)
-					v.push_int(0);
-				else if (sym.rtype() == DaedalusDataType::STRING)
-					v.push_string("");
-				else if (sym.rtype() == DaedalusDataType::INSTANCE)
-					v.push_instance(nullptr);
+				StackGuard::fix(&v, sym.rtype());
 			}
 
 			callback(sym);
-- 
2.43.0


From 084d37fcc9a7c27ff5ab3e22a8b1f9b7f39616b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 082/103] fix: return functions from script calls, do not
 follow circular function variables forever

---
 include/zenkit/DaedalusVm.hh | 20 +++++++-------------
 src/DaedalusVm.cc            | 16 ++++++++++++++++
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 84a2af1..8c0f9db 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -867,19 +867,7 @@ namespace zenkit {
 			} else if constexpr (std::same_as<DaedalusSymbol*, T>) {
 				return std::get<0>(pop_reference());
 			} else if constexpr (std::same_as<DaedalusFunction, T>) {
-				auto symbol_id = static_cast<uint32_t>(pop_int());
-
-				auto* sym = find_symbol_by_index(symbol_id);
-				while (sym != nullptr && sym->type() == DaedalusDataType::FUNCTION && !sym->is_const()) {
-					symbol_id = static_cast<uint32_t>(sym->get_int());
-					sym = find_symbol_by_index(symbol_id);
-				}
-
-				if (sym != nullptr && sym->type() != DaedalusDataType::FUNCTION) {
-					return DaedalusFunction {nullptr};
-				}
-
-				return DaedalusFunction {sym};
+				return pop_function();
 			} else {
 				throw DaedalusVmException {"pop: unsupported stack frame type"};
 			}
@@ -1024,9 +1012,15 @@ namespace zenkit {
 				return pop_int();
 			} else if constexpr (std::same_as<std::string, R>) {
 				return pop_string();
+			} else if constexpr (std::same_as<DaedalusFunction, R>) {
+				return pop_function();
 			}
 		}
 
+		/// \brief Pops the index of a function from the stack and resolves it to the function it refers to.
+		/// \return The function or `nullptr` if the value does not refer to any.
+		ZKAPI DaedalusFunction pop_function();
+
 		/// \brief Removes the topmost stack frames until only the given number of them is left.
 		/// \param size The number of stack frames to keep.
 		ZKAPI void discard_stack(uint32_t size);
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 85c7e1c..b8c6753 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -853,6 +853,22 @@ namespace zenkit {
 		return s->get_string(i, context.get());
 	}
 
+	DaedalusFunction DaedalusVm::pop_function() {
+		auto* sym = find_symbol_by_index(static_cast<uint32_t>(pop_int()));
+
+		// Variables may refer to other variables but not to themselves.
+		auto hops = symbols().size();
+		while (sym != nullptr && sym->type() == DaedalusDataType::FUNCTION && !sym->is_const()) {
+			sym = hops-- > 0 ? find_symbol_by_index(static_cast<uint32_t>(sym->get_int())) : nullptr;
+		}
+
+		if (sym != nullptr && sym->type() != DaedalusDataType::FUNCTION) {
+			return DaedalusFunction {nullptr};
+		}
+
+		return DaedalusFunction {sym};
+	}
+
 	void DaedalusVm::jump(std::uint32_t address) {
 		if (address >= size()) {
 			throw DaedalusVmException {"Cannot jump to " + std::to_string(address) + ": illegal address"};
-- 
2.43.0


From a459e0c662eb353feca0c81d5b4694487512c919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 083/103] fix: do not fail while printing a stack trace

---
 src/DaedalusVm.cc | 70 +++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 29 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index b8c6753..6e40d07 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -911,6 +911,11 @@ namespace zenkit {
 		_m_exception_handler = callback;
 	}
 
+	static std::string instance_type_name(DaedalusInstance const& inst) {
+		auto* type = inst.instance_type();
+		return type != nullptr ? type->name() : "<unregistered>";
+	}
+
 	void DaedalusVm::print_stack_trace() const {
 		auto last_pc = _m_pc;
 		auto tmp_stack_ptr = _m_stack_ptr;
@@ -936,32 +941,36 @@ namespace zenkit {
 				auto ref = std::get<DaedalusSymbol*>(v.value);
 				std::string value;
 
-				switch (ref->type()) {
-				case DaedalusDataType::FLOAT:
-					value = std::to_string(ref->get_float(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::INT:
-					value = std::to_string(ref->get_int(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::STRING:
-					value = "'" + ref->get_string(v.index, _m_instance.get()) + "'";
-					break;
-				case DaedalusDataType::FUNCTION: {
-					auto index = ref->get_int(v.index, _m_instance.get());
-					auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
-					value = "&" + sym->name();
-					break;
-				}
-				case DaedalusDataType::INSTANCE: {
-					if (auto& inst = ref->get_instance(); inst != nullptr) {
-						value = "<instance of '" + std::string(inst->_m_type->name()) + "'>";
-					} else {
-						value = "NULL";
+				try {
+					switch (ref->type()) {
+					case DaedalusDataType::FLOAT:
+						value = std::to_string(ref->get_float(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::INT:
+						value = std::to_string(ref->get_int(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::STRING:
+						value = "'" + ref->get_string(v.index, v.context.get()) + "'";
+						break;
+					case DaedalusDataType::FUNCTION: {
+						auto index = ref->get_int(v.index, v.context.get());
+						auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
+						value = sym != nullptr ? "&" + sym->name() : "<invalid function>";
+						break;
 					}
-					break;
-				}
-				default:
-					value = "<invalid stack frame>";
+					case DaedalusDataType::INSTANCE: {
+						if (auto& inst = ref->get_instance(); inst != nullptr) {
+							value = "<instance of '" + instance_type_name(*inst) + "'>";
+						} else {
+							value = "NULL";
+						}
+						break;
+					}
+					default:
+						value = "<invalid stack frame>";
+					}
+				} catch (DaedalusScriptError const& e) {
+					value = "<" + e.message + ">";
 				}
 
 				ZKLOGE("DaedalusVm",
@@ -982,7 +991,7 @@ namespace zenkit {
 						ZKLOGE("DaedalusVm",
 						       "%d: [IMMEDIATE INSTANCE] = <instance of '%s'>",
 						       tmp_stack_ptr,
-						       inst->_m_type->name());
+						       instance_type_name(*inst).c_str());
 					}
 				}
 			}
@@ -999,7 +1008,7 @@ namespace zenkit {
 		};
 
 		for (auto* sym : symbols) {
-			if (sym == nullptr) continue;
+			if (sym == nullptr || sym->type() != DaedalusDataType::INSTANCE || sym->is_member()) continue;
 
 			auto instance = sym->get_instance();
 			if (instance != nullptr && instance->symbol_index() != static_cast<uint32_t>(-1)) {
@@ -1007,7 +1016,7 @@ namespace zenkit {
 				ZKLOGE("DaedalusVm",
 				       "%s = %s (%u)",
 				       sym->name().c_str(),
-				       instance_symbol->name().c_str(),
+				       instance_symbol != nullptr ? instance_symbol->name().c_str() : "<unknown>",
 				       instance->symbol_index());
 			} else if (instance == nullptr) {
 				ZKLOGE("DaedalusVm", "%s = NULL", sym->name().c_str());
@@ -1018,7 +1027,10 @@ namespace zenkit {
 
 		if (_m_instance != nullptr && _m_instance->symbol_index() != static_cast<uint32_t>(-1)) {
 			auto instance_symbol = find_symbol_by_instance(_m_instance);
-			ZKLOGE("DaedalusVm", "<__THIS__> = %s (%u)", instance_symbol->name().c_str(), _m_instance->symbol_index());
+			ZKLOGE("DaedalusVm",
+			       "<__THIS__> = %s (%u)",
+			       instance_symbol != nullptr ? instance_symbol->name().c_str() : "<unknown>",
+			       _m_instance->symbol_index());
 		} else if (_m_instance == nullptr) {
 			ZKLOGE("DaedalusVm", "<__THIS__> = NULL");
 		} else {
-- 
2.43.0


From 467dfc7a080fa7def43e76952ad818e7b2f32c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 084/103] fix: stop at the end of the script

---
 src/DaedalusVm.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 6e40d07..b238731 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -148,6 +148,10 @@ namespace zenkit {
 	}
 
 	bool DaedalusVm::exec() {
+		if (_m_pc >= size()) {
+			throw DaedalusVmException {"Cannot execute " + std::to_string(_m_pc) + ": end of script reached"};
+		}
+
 		auto instr = instruction_at(_m_pc);
 
 		try {
-- 
2.43.0


From 9dcf0f48d625a8511edccc8f25827a7858f06bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:31 +0000
Subject: [PATCH 085/103] fix: limit the depth of script calls

---
 include/zenkit/DaedalusVm.hh | 1 +
 src/DaedalusVm.cc            | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 8c0f9db..001c314 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -103,6 +103,7 @@ namespace zenkit {
 	class DaedalusVm : public DaedalusScript {
 	public:
 		static constexpr auto stack_size = 2048;
+		static constexpr auto call_stack_size = 2048;
 
 		/// \brief Creates a DaedalusVM DaedalusInstance for the given script.
 		/// \param scr The script to load into the VM.
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index b238731..f8cb137 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -514,6 +514,11 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::push_call(DaedalusSymbol const* sym) {
+		// Script functions call each other recursively on the native stack, which must not overflow.
+		if (_m_call_stack.size() >= call_stack_size) {
+			throw DaedalusVmException {"call stack overflow"};
+		}
+
 		if (sym->has_local_variables_enabled()) {
 			push_local_variables(sym);
 		}
-- 
2.43.0


From 6b290365ffc967bb4730549fb11a64a7d9c1b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:26 +0000
Subject: [PATCH 086/103] fix: keep the owner of a string alive which is popped
 from the stack

---
 include/zenkit/DaedalusVm.hh | 3 +++
 src/DaedalusVm.cc            | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 001c314..0960b4a 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -1036,6 +1036,9 @@ namespace zenkit {
 		std::array<DaedalusStackFrame, stack_size> _m_stack;
 		uint16_t _m_stack_ptr {0};
 
+		/// \brief Keeps the instance alive which owns the string last returned from #pop_string.
+		std::shared_ptr<DaedalusInstance> _m_string_context;
+
 		/// \brief Keeps arguments of externals alive while the externals are running.
 		std::deque<std::variant<std::string, std::shared_ptr<DaedalusInstance>>> _m_external_arguments;
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index f8cb137..98c0d6d 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -859,6 +859,8 @@ namespace zenkit {
 			return empty;
 		}
 
+		// The string might be owned by an instance only referenced by the stack.
+		_m_string_context = context;
 		return s->get_string(i, context.get());
 	}
 
-- 
2.43.0


From 0d652253dcdd8dddcdc2f1fd6e2aa153f59dab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:33 +0000
Subject: [PATCH 087/103] fix: do not share the log message buffer between
 threads

---
 src/Logger.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index f8efbd5..82d1659 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -18,8 +18,6 @@
 #define PREFIX "[" ANSI_MAGENTA ANSI_BOLD "ZenKit" ANSI_RESET "]"
 
 namespace zenkit {
-	static char zk_global_logger_buffer[4096];
-
 	std::function<void(LogLevel, char const*, char const*)> Logger::_s_callback {};
 	LogLevel Logger::_s_level {LogLevel::INFO};
 
@@ -75,8 +73,11 @@ namespace zenkit {
 	void Logger::logv(LogLevel lvl, char const* name, char const* fmt, va_list ap) {
 		if (!_s_callback) return;
 		if (lvl > _s_level) return;
-		vsnprintf(zk_global_logger_buffer, sizeof zk_global_logger_buffer - 1, fmt, ap);
-		_s_callback(lvl, name, zk_global_logger_buffer);
+
+		// Messages can be logged by multiple threads at once.
+		char buffer[4096];
+		vsnprintf(buffer, sizeof buffer - 1, fmt, ap);
+		_s_callback(lvl, name, buffer);
 	}
 
 	void Logger::set(LogLevel lvl, std::function<void(LogLevel, char const*, char const*)> const& cb) {
-- 
2.43.0


From 48a797d58b959d57d73bef7254498ce2b5a3e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:56 +0000
Subject: [PATCH 088/103] fix: do not share broken-down times between threads

---
 src/Internal.hh               | 25 +++++++++++++++++++++++++
 src/Logger.cc                 | 16 +++++++++-------
 src/Vfs.cc                    |  2 +-
 src/archive/ArchiveAscii.cc   |  4 ++--
 src/archive/ArchiveBinary.cc  |  6 ++++--
 src/archive/ArchiveBinsafe.cc |  4 ++--
 6 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/Internal.hh b/src/Internal.hh
index f64ba71..c201036 100644
--- a/src/Internal.hh
+++ b/src/Internal.hh
@@ -3,6 +3,31 @@
 #pragma once
 #include "zenkit/Logger.hh"
 #include <cstdint>
+#include <ctime>
+
+namespace zenkit {
+	/// \brief Like std::localtime but does not share its result with other threads.
+	inline std::tm zk_localtime(std::time_t clk) noexcept {
+		std::tm time {};
+#ifdef _WIN32
+		localtime_s(&time, &clk);
+#else
+		localtime_r(&clk, &time);
+#endif
+		return time;
+	}
+
+	/// \brief Like std::gmtime but does not share its result with other threads.
+	inline std::tm zk_gmtime(std::time_t clk) noexcept {
+		std::tm time {};
+#ifdef _WIN32
+		gmtime_s(&time, &clk);
+#else
+		gmtime_r(&clk, &time);
+#endif
+		return time;
+	}
+} // namespace zenkit
 
 #ifndef _MSC_VER
 	#define ZKLOGT(...) zenkit::Logger::log(zenkit::LogLevel::TRACE, __VA_ARGS__)
diff --git a/src/Logger.cc b/src/Logger.cc
index 82d1659..3599f00 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -2,6 +2,8 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/Logger.hh"
 
+#include "Internal.hh"
+
 #include <cstdarg>
 #include <cstdio>
 #include <ctime>
@@ -23,16 +25,16 @@ namespace zenkit {
 
 	ZKINT static void zk_internal_logger_default(LogLevel level, char const* name, char const* message) {
 		time_t now_t = time(nullptr);
-		tm* now = gmtime(&now_t);
+		tm now = zk_gmtime(now_t);
 
 		fprintf(stderr,
 		        ANSI_GRAY "%04d-%02d-%02d %02d:%02d:%02d " ANSI_RESET,
-		        now->tm_year + 1900,
-		        now->tm_mon + 1,
-		        now->tm_mday,
-		        now->tm_hour,
-		        now->tm_min,
-		        now->tm_sec);
+		        now.tm_year + 1900,
+		        now.tm_mon + 1,
+		        now.tm_mday,
+		        now.tm_hour,
+		        now.tm_min,
+		        now.tm_sec);
 
 		switch (level) {
 		case LogLevel::ERROR:
diff --git a/src/Vfs.cc b/src/Vfs.cc
index 2fd7c4e..59bfc13 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -254,7 +254,7 @@ namespace zenkit {
 	}
 
 	static std::uint32_t vfs_unix_to_dos_time(std::time_t unix_) noexcept {
-		tm t = *localtime(&unix_);
+		tm t = zk_localtime(unix_);
 
 		uint32_t dos = 0;
 		dos |= (t.tm_year - 80) << 25;
diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 9cec670..32b95a2 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -249,8 +249,8 @@ namespace zenkit {
 		char date_buffer[20];
 		std::time_t clk;
 		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		auto time = zk_localtime(clk);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 		this->_m_date = date_buffer;
 
 		this->_m_head = this->_m_write->tell();
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index a6824e8..8d97132 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -3,6 +3,8 @@
 #include "ArchiveBinary.hh"
 #include "zenkit/Error.hh"
 
+#include "../Internal.hh"
+
 #include <charconv>
 #include <cstring>
 #include <stdexcept>
@@ -138,8 +140,8 @@ namespace zenkit {
 		char date_buffer[20];
 		std::time_t clk;
 		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		auto time = zk_localtime(clk);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 		this->_m_date = date_buffer;
 
 		this->_m_head = this->_m_write->tell();
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 7e1f908..fe437e3 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -297,8 +297,8 @@ namespace zenkit {
 		char date_buffer[20];
 		std::time_t clk;
 		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		auto time = zk_localtime(clk);
+		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", &time);
 		this->_m_date = date_buffer;
 
 		this->_m_head = this->_m_write->tell();
-- 
2.43.0


From f7311fbb27ab4f76dd8d1778e9fdd68197631749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:17 +0000
Subject: [PATCH 089/103] fix: do not share the object header tokenizer between
 threads

---
 src/archive/ArchiveBinsafe.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index fe437e3..491a2e3 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -67,10 +67,21 @@ namespace zenkit {
 			return false;
 		}
 
-		auto* object_name = strtok(it, " ]");
-		auto* class_name = strtok(nullptr, " ]");
-		auto* version = strtok(nullptr, " ]");
-		auto* index = strtok(nullptr, " ]");
+		// Unlike strtok, this does not share any state with other threads.
+		auto next_token = [&it]() -> char* {
+			it += strspn(it, " ]");
+			if (*it == '\0') return nullptr;
+
+			auto* token = it;
+			it += strcspn(it, " ]");
+			if (*it != '\0') *it++ = '\0';
+			return token;
+		};
+
+		auto* object_name = next_token();
+		auto* class_name = next_token();
+		auto* version = next_token();
+		auto* index = next_token();
 
 		if (object_name == nullptr || class_name == nullptr || version == nullptr || index == nullptr) {
 			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
-- 
2.43.0


From 8fda124419bd99b0f6623d0017c80874adfbdee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:27 +0000
Subject: [PATCH 090/103] fix: count references to file descriptors atomically

---
 include/zenkit/Vfs.hh | 3 ++-
 src/Vfs.cc            | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/zenkit/Vfs.hh b/include/zenkit/Vfs.hh
index 8e5d133..a7c41b9 100644
--- a/include/zenkit/Vfs.hh
+++ b/include/zenkit/Vfs.hh
@@ -7,6 +7,7 @@
 #include "Mmap.hh"
 #include "Stream.hh"
 
+#include <atomic>
 #include <filesystem>
 #include <memory>
 #include <set>
@@ -48,7 +49,7 @@ namespace zenkit {
 		~VfsFileDescriptor() noexcept;
 
 	private:
-		size_t* refcnt;
+		std::atomic<size_t>* refcnt;
 	};
 
 	class VfsNode;
diff --git a/src/Vfs.cc b/src/Vfs.cc
index 59bfc13..ceb41fb 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -39,12 +39,12 @@ namespace zenkit {
 	VfsNotFoundError::VfsNotFoundError(std::string const& name) : Error("not found: \"" + name + "\"") {}
 
 	VfsFileDescriptor::VfsFileDescriptor(std::byte const* mem, size_t len, bool del, bool zip, size_t raw)
-	    : memory(mem), size(len), raw_size(raw == 0 ? len : raw), zipped(zip), refcnt(del ? new size_t(1) : nullptr) {}
+	    : memory(mem), size(len), raw_size(raw == 0 ? len : raw), zipped(zip), refcnt(del ? new std::atomic<size_t>(1) : nullptr) {}
 
 	VfsFileDescriptor::VfsFileDescriptor(VfsFileDescriptor const& cpy)
 	    : memory(cpy.memory), size(cpy.size), raw_size(cpy.raw_size), zipped(cpy.zipped), refcnt(cpy.refcnt) {
 		if (this->refcnt == nullptr) return;
-		*this->refcnt += 1;
+		this->refcnt->fetch_add(1);
 	}
 
 	VfsFileDescriptor& VfsFileDescriptor::operator=(VfsFileDescriptor const& cpy) {
@@ -59,9 +59,9 @@ namespace zenkit {
 
 	VfsFileDescriptor::~VfsFileDescriptor() noexcept {
 		if (this->refcnt == nullptr) return;
-		*this->refcnt -= 1;
 
-		if (*this->refcnt == 0) {
+		// Copies of a descriptor might be used by multiple threads.
+		if (this->refcnt->fetch_sub(1) == 1) {
 			delete[] memory;
 			delete this->refcnt;
 		}
-- 
2.43.0


From 292e4bb021a0117ab59985fa20fa9aa33ecd3d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:11 +0000
Subject: [PATCH 091/103] fix: reject binary archive objects that end before
 they begin

---
 src/archive/ArchiveBinary.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 8d97132..9137832 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -38,12 +38,19 @@ namespace zenkit {
 		if (read->eof()) return false;
 
 		auto pos = read->tell();
-		_m_object_end.push(pos + read->read_uint());
+		auto end = pos + read->read_uint();
 
 		obj.version = read->read_ushort();
 		obj.index = read->read_uint();
 		obj.object_name = read->read_line(false);
 		obj.class_name = read->read_line(false);
+
+		// NOTE: An object can't end before its own contents begin. Skipping it would not get us anywhere.
+		if (end < read->tell()) {
+			throw ParserError {"ReadArchiveBinary", "invalid object size"};
+		}
+
+		_m_object_end.push(end);
 		return true;
 	}
 
@@ -127,7 +134,9 @@ namespace zenkit {
 			read->seek(static_cast<ssize_t>(_m_object_end.top()), Whence::BEG);
 			_m_object_end.pop();
 		} else {
-			read->seek(read->read_uint() - 4, Whence::CUR);
+			auto size = read->read_uint();
+			if (size < sizeof(uint32_t)) throw ParserError {"ReadArchiveBinary", "invalid object size"};
+			read->seek(static_cast<ssize_t>(size - sizeof(uint32_t)), Whence::CUR);
 		}
 	}
 
-- 
2.43.0


From 0b947b292248c98e5e37f2d503f4b6f4ee93db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:11 +0000
Subject: [PATCH 092/103] fix: reject invalid child counts and truncated
 archives in the VOb tree

---
 src/world/VobTree.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/world/VobTree.cc b/src/world/VobTree.cc
index 37134c9..d1ef9b6 100644
--- a/src/world/VobTree.cc
+++ b/src/world/VobTree.cc
@@ -2,10 +2,19 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/world/VobTree.hh"
 #include "zenkit/Archive.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/vobs/VirtualObject.hh"
 
 namespace zenkit {
+	static size_t read_child_count(ReadArchive& in) {
+		auto count = in.read_int();
+		if (count < 0) throw ParserError {"VobTree", "invalid number of children: " + std::to_string(count)};
+		return static_cast<size_t>(count);
+	}
+
 	std::shared_ptr<VirtualObject> parse_vob_tree(ReadArchive& in, GameVersion version) {
+		if (in.get_stream()->eof()) throw ParserError {"VobTree", "unexpected end of archive"};
+
 		auto obj = in.read_object(version);
 		if (obj != nullptr && !is_vobject(obj->get_object_type())) {
 			obj = nullptr;
@@ -14,14 +23,14 @@ namespace zenkit {
 		// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
 		std::shared_ptr<VirtualObject> object {obj, reinterpret_cast<VirtualObject*>(obj.get())};
 
-		auto child_count = static_cast<size_t>(in.read_int());
+		auto child_count = read_child_count(in);
 		if (object == nullptr) {
 			std::function<void(size_t)> skip;
 			skip = [&skip, &in](size_t count) {
 				for (auto i = 0u; i < count; ++i) {
 					in.skip_object(false);
 
-					auto num_children = static_cast<size_t>(in.read_int());
+					auto num_children = read_child_count(in);
 					skip(num_children);
 				}
 			};
-- 
2.43.0


From f37e1dbcc5f834fec69bafe52db483eacbc9579c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:11 +0000
Subject: [PATCH 093/103] fix: do not treat objects of other classes as AIs or
 VObs

---
 src/vobs/VirtualObject.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 73eab1d..6a53bb0 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -180,9 +180,7 @@ namespace zenkit {
 		}
 
 		if (has_ai_object) {
-			// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
-			auto obj = r.read_object(version);
-			this->ai = std::shared_ptr<Ai>(obj, reinterpret_cast<Ai*>(obj.get()));
+			this->ai = std::dynamic_pointer_cast<Ai>(r.read_object(version));
 		}
 
 		if (has_event_manager_object) {
@@ -397,10 +395,8 @@ namespace zenkit {
 	}
 
 	void AiMove::load(ReadArchive& r, GameVersion version) {
-		// NOTE(lmichaelis): The NDK does not seem to support `reinterpret_pointer_cast`.
-		auto obj = r.read_object(version);
-		vob = std::shared_ptr<VirtualObject>(obj, reinterpret_cast<VirtualObject*>(obj.get())); // vob
-		owner = r.read_object<VNpc>(version);                                                   // owner
+		vob = std::dynamic_pointer_cast<VirtualObject>(r.read_object(version)); // vob
+		owner = r.read_object<VNpc>(version);                                   // owner
 	}
 
 	void AiMove::save(WriteArchive& w, GameVersion version) const {
-- 
2.43.0


From b5d87f7229d8c6e13af92ebd730f835387a59acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:11 +0000
Subject: [PATCH 094/103] fix: reject cutscene blocks which contain themselves

---
 src/CutsceneLibrary.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 2c241e5..e5237bb 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -87,6 +87,16 @@ namespace zenkit {
 		if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
 			this->block = std::static_pointer_cast<CutsceneAtomicBlock>(blk);
 		} else if (blk->get_object_type() == ObjectType::zCCSBlock) {
+			// NOTE: References allow for blocks to contain themselves, but there is no message to be found in those.
+			for (auto const* cur = static_cast<CutsceneBlock*>(blk.get()); cur != nullptr;) {
+				if (cur == this) {
+					throw ParserError {"CutsceneLibrary", "block contains itself: " + this->name};
+				}
+
+				auto const* next = std::get_if<std::shared_ptr<CutsceneBlock>>(&cur->block);
+				cur = next != nullptr ? next->get() : nullptr;
+			}
+
 			this->block = std::static_pointer_cast<CutsceneBlock>(blk);
 		} else {
 			throw ParserError {"CutsceneLibrary",
-- 
2.43.0


From 6804aabe5e1445d88d3fb24d7df8f836d61101e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:11 +0000
Subject: [PATCH 095/103] fix: stop reading mission lists at the end of the
 archive

---
 src/SaveGame.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 455cefa..150c423 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -109,6 +109,8 @@ namespace zenkit {
 
 			auto unknown_count = r.read_int(); // NumInList
 			for (auto j = 0; j < unknown_count; ++j) {
+				if (r.get_stream()->eof()) throw ParserError {"SaveState", "unexpected end of archive"};
+
 				(void) r.read_int();   // VobIDL
 				(void) r.read_int();   // StatusL
 				(void) r.read_float(); // startTimeL
-- 
2.43.0


From f81cab0b940043d9523f7e2eb5576d68624a9f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:24 +0000
Subject: [PATCH 096/103] fix: parse the range and slot of ground sound effects
 in model scripts

---
 src/ModelScriptDsl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 7eab490..86f3767 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -489,8 +489,8 @@ namespace zenkit {
 		MdsSoundEffectGround sfx {};
 		sfx.frame = this->expect_int();
 		sfx.name = this->expect_string();
-		// NOTE: Fix for mod-specific issues
-		(void) this->maybe_keyword("EMPTY_SLOT");
+		sfx.range = this->maybe_named("R").value_or(1000.0f);
+		sfx.empty_slot = this->maybe_keyword("EMPTY_SLOT") || this->maybe_keyword("EMTPY_SLOT");
 		return sfx;
 	}
 
-- 
2.43.0


From bb2351e116d780ff0a8e7b027fb268b3c9c5a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:47 +0000
Subject: [PATCH 097/103] fix: keep closing parentheses of terminated strings
 in model scripts

---
 src/ModelScriptDsl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 86f3767..53467d7 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -94,9 +94,7 @@ namespace zenkit {
 				//			registerMesh ("Some_File Name.ASC"
 				//			registerMesh ("Some_File Name.ASC)
 				//			registerMesh ("Some_File Name.ASC
-				unsigned char prev = '\0';
 				while (chr != '"' && chr != '\n') {
-					if (!std::isspace(chr)) prev = chr;
 					_m_value.push_back(static_cast<char>(chr));
 					chr = this->next_char_or_newline();
 				}
@@ -108,9 +106,15 @@ namespace zenkit {
 						_m_buffer->seek(-1, Whence::CUR);
 						_m_column -= 1;
 					}
+
+					// The rest of the line does not belong to the string.
+					while (!_m_value.empty() && std::isspace(static_cast<unsigned char>(_m_value.back()))) {
+						_m_value.pop_back();
+					}
+
+					if (!_m_value.empty() && _m_value.back() == ')') _m_value.pop_back();
 				}
 
-				if (prev == ')') _m_value.pop_back();
 				return MdsToken::STRING;
 			}
 
-- 
2.43.0


From 2193bfabd904835866454e915f4b0dc30a624816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:35 +0000
Subject: [PATCH 098/103] fix: recognize the statement following aniBlend in
 any case

---
 src/ModelScriptDsl.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 53467d7..ccb9710 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -7,6 +7,8 @@
 #include "zenkit/Misc.hh"
 #include "zenkit/Stream.hh"
 
+#include <algorithm>
+#include <cctype>
 #include <stdexcept>
 
 #define WARN_SYNTAX(msg) ZKLOGW("ModelScript", "Syntax error (line %d, column %d): %s", _m_line, _m_column, msg)
@@ -271,7 +273,13 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		if (kw->find("ani") != std::string::npos || kw->find("model") != std::string::npos) {
+		// NOTE: Keywords might be spelled in any case.
+		auto lower = *kw;
+		std::transform(lower.begin(), lower.end(), lower.begin(), [](unsigned char c) {
+			return static_cast<char>(std::tolower(c));
+		});
+
+		if (lower.find("ani") != std::string::npos || lower.find("model") != std::string::npos) {
 			this->_m_stream.backtrack();
 			return std::nullopt;
 		}
-- 
2.43.0


From eab5cc8ee795163a1f2672519ec664f73f18e146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:52 +0000
Subject: [PATCH 099/103] fix: do not end the surrounding block of model script
 animations without events

---
 src/ModelScriptDsl.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index ccb9710..82858b8 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -556,9 +556,15 @@ namespace zenkit {
 
 		// Optional events block.
 		// Note: Due to #122 the curly parens are actually optional
-		this->maybe<MdsToken::LBRACE>();
-		this->parse_events(ani);
+		auto block = this->maybe<MdsToken::LBRACE>();
 
+		// Note: Without any events, a closing brace belongs to the surrounding block.
+		if (!block && this->maybe<MdsToken::RBRACE>()) {
+			_m_stream.backtrack();
+			return ani;
+		}
+
+		this->parse_events(ani);
 		return ani;
 	}
 
-- 
2.43.0


From f7076f86bdb7e31a144e7a957319e0bc049ffa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:25 +0000
Subject: [PATCH 100/103] fix: read empty items and slots of binary model
 script events

---
 src/ModelScript.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index e09a52a..efad8bc 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -317,7 +317,8 @@ namespace zenkit {
 				    switch (event.type) {
 				    case MdsEventType::ITEM_CREATE:
 				    case MdsEventType::ITEM_EXCHANGE:
-					    event.slot = c->read_line(true);
+					    // NOTE: Skipping whitespace here would skip an empty string as well.
+					    event.slot = c->read_line(false);
 					    event.item = c->read_line(true);
 					    break;
 				    case MdsEventType::ITEM_INSERT:
@@ -343,7 +344,7 @@ namespace zenkit {
 					    break;
 				    }
 				    case MdsEventType::MESH_SWAP:
-					    event.slot = c->read_line(true);
+					    event.slot = c->read_line(false);
 					    event.slot2 = c->read_line(true);
 					    break;
 				    case MdsEventType::HIT_LIMB:
-- 
2.43.0


From 675f421fe7839e07c066ed4d693f7ddca266d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:11 +0000
Subject: [PATCH 101/103] fix: convert oriented bounding boxes at negative
 coordinates correctly

---
 src/Boxes.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 1e4433a..6d23ff4 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -57,9 +57,9 @@ namespace zenkit {
 		           std::numeric_limits<float>::max(),
 		           std::numeric_limits<float>::max()};
 
-		box.max = {std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min()};
+		box.max = {std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest()};
 
 		for (auto i : sign) {
 			auto point = center;
-- 
2.43.0


From 8514abe47a370b28af62e53b30da730a0498f346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:12 +0000
Subject: [PATCH 102/103] fix: the default logger writes each message at once
 so that lines of several threads do not mix

---
 src/Logger.cc | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/Logger.cc b/src/Logger.cc
index 3599f00..5fc5ead 100644
--- a/src/Logger.cc
+++ b/src/Logger.cc
@@ -27,32 +27,37 @@ namespace zenkit {
 		time_t now_t = time(nullptr);
 		tm now = zk_gmtime(now_t);
 
-		fprintf(stderr,
-		        ANSI_GRAY "%04d-%02d-%02d %02d:%02d:%02d " ANSI_RESET,
-		        now.tm_year + 1900,
-		        now.tm_mon + 1,
-		        now.tm_mday,
-		        now.tm_hour,
-		        now.tm_min,
-		        now.tm_sec);
-
+		char const* tag = "";
 		switch (level) {
 		case LogLevel::ERROR:
-			fprintf(stderr, PREFIX " (" ANSI_RED "ERROR  " ANSI_RESET ") › %s: %s\n", name, message);
+			tag = ANSI_RED "ERROR  " ANSI_RESET;
 			break;
 		case LogLevel::WARNING:
-			fprintf(stderr, PREFIX " (" ANSI_YELLOW "WARNING" ANSI_RESET ") › %s: %s\n", name, message);
+			tag = ANSI_YELLOW "WARNING" ANSI_RESET;
 			break;
 		case LogLevel::INFO:
-			fprintf(stderr, PREFIX " (" ANSI_BLUE "INFO   " ANSI_RESET ") › %s: %s\n", name, message);
+			tag = ANSI_BLUE "INFO   " ANSI_RESET;
 			break;
 		case LogLevel::DEBUG:
-			fprintf(stderr, PREFIX " (" ANSI_GREEN "DEBUG  " ANSI_RESET ") › %s: %s\n", name, message);
+			tag = ANSI_GREEN "DEBUG  " ANSI_RESET;
 			break;
 		case LogLevel::TRACE:
-			fprintf(stderr, PREFIX " (TRACE  ) › %s: %s\n", name, message);
+			tag = "TRACE  ";
 			break;
 		}
+
+		// Written at once, so that lines logged by multiple threads do not mix.
+		fprintf(stderr,
+		        ANSI_GRAY "%04d-%02d-%02d %02d:%02d:%02d " ANSI_RESET PREFIX " (%s) › %s: %s\n",
+		        now.tm_year + 1900,
+		        now.tm_mon + 1,
+		        now.tm_mday,
+		        now.tm_hour,
+		        now.tm_min,
+		        now.tm_sec,
+		        tag,
+		        name,
+		        message);
 	}
 
 	void Logger::use_logger(std::function<void(LogLevel, std::string const&)>&& callback) {
-- 
2.43.0


From a40f016938083a101195cea51adbc55cc49a632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:12 +0000
Subject: [PATCH 103/103] fix: free temporary strings popped as a value of
 another type and when the VM's stack is full

---
 include/zenkit/DaedalusVm.hh |  3 +++
 src/DaedalusVm.cc            | 37 ++++++++++++++++++++----------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 0960b4a..b011364 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -1022,6 +1022,9 @@ namespace zenkit {
 		/// \return The function or `nullptr` if the value does not refer to any.
 		ZKAPI DaedalusFunction pop_function();
 
+		/// \brief Removes the topmost stack frame and frees the temporary string it refers to, if any.
+		DaedalusStackFrame pop_frame();
+
 		/// \brief Removes the topmost stack frames until only the given number of them is left.
 		/// \param size The number of stack frames to keep.
 		ZKAPI void discard_stack(uint32_t size);
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 98c0d6d..b429411 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -730,6 +730,10 @@ namespace zenkit {
 	void DaedalusVm::push_string(std::string_view value) {
 		// We need to push strings without an explicitly attached variable to a
 		// virtual string container variable.
+		if (_m_stack_ptr == stack_size) {
+			throw DaedalusVmException {"stack overflow"};
+		}
+
 		auto index = this->get_free_string();
 
 		_m_temporary_strings->set_string(value, index);
@@ -757,7 +761,7 @@ namespace zenkit {
 			return 0;
 		}
 
-		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+		DaedalusStackFrame v = pop_frame();
 
 		if (v.reference) {
 			return this->get_int(v.context, v.value, v.index);
@@ -775,7 +779,7 @@ namespace zenkit {
 			return 0.0f;
 		}
 
-		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+		DaedalusStackFrame v = pop_frame();
 
 		if (v.reference) {
 			return this->get_float(v.context, v.value, v.index);
@@ -802,19 +806,12 @@ namespace zenkit {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
 
-		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+		DaedalusStackFrame v = pop_frame();
 
 		if (!v.reference) {
 			throw DaedalusVmException {"tried to pop_reference but frame does not contain a reference."};
 		}
 
-		auto sym = std::get<DaedalusSymbol*>(v.value);
-		if (sym->index() == _m_temporary_strings->index()) {
-			// For virtual strings, we'll mark this string as free when it's popped.
-			// This is likely unreliable but until it causes issues, it'll stay as-is.
-			this->mark_free_string(v.index);
-		}
-
 		return {std::get<DaedalusSymbol*>(v.value), v.index, v.context};
 	}
 
@@ -831,7 +828,7 @@ namespace zenkit {
 			throw DaedalusVmException {"popping instance from empty stack"};
 		}
 
-		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+		DaedalusStackFrame v = pop_frame();
 
 		if (v.reference) {
 			return std::get<DaedalusSymbol*>(v.value)->get_instance();
@@ -1228,13 +1225,21 @@ namespace zenkit {
 		}
 	}
 
+	DaedalusStackFrame DaedalusVm::pop_frame() {
+		DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+
+		if (v.reference && std::get<DaedalusSymbol*>(v.value) == _m_temporary_strings) {
+			// For virtual strings, we'll mark this string as free when it's popped.
+			// This is likely unreliable but until it causes issues, it'll stay as-is.
+			this->mark_free_string(v.index);
+		}
+
+		return v;
+	}
+
 	void DaedalusVm::discard_stack(uint32_t size) {
 		while (_m_stack_ptr > size) {
-			DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
-
-			if (v.reference && std::get<DaedalusSymbol*>(v.value) == _m_temporary_strings) {
-				this->mark_free_string(v.index);
-			}
+			pop_frame();
 		}
 	}
 
-- 
2.43.0

